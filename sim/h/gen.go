//go:build go1.22

package h

import (
	"regexp"
	"strconv"
	"strings"

	"github.com/hound-search/hound/zsim"
)

// ---------------------------------------------------------------- file content

var words = []string{
	"foo", "bar", "Foo", "BAR", "handler", "Handler", "func", "return", "TODO", "fixme", "err", "nil",
	"if err != nil {", "}", "a.b(c)*d", "$HOME", "C:\\path\\x", "<b>&amp;</b>", "\"quoted\"", "'", "x", "xy", "xyz",
	"naïve", "été", "日本語", "🙂", "\t", "  ", "0", "42", "3.14", "[a-z]+", "^start", "end$", "foo_bar", "fooBar", "import",
	"index", "searcher", "the", "quick", "brown", "fox", "ß", "Ω", "\u2028", "\ufeff", "--", "\\n", "10:", "7-",
	"aaaaaaaa", "abababab", "\r", "café", "\u00e9\u0301",
	"\u212aelvin", "kelvin", "Ru\u017ft", "\u017ftart", "STRASSE", "\u1e9etraße", "ΣΑΣ", "σας", "µm", "μm", "\u0130stanbul", "ı", "ǅ", "ǆ", "\u00c5", "\u212b",
}

// foldTargets are words with letters that have more than two cases.
var foldTargets = []string{"\u212aelvin", "kelvin", "KELVIN", "ru\u017ft", "RUST", "rust", "\u017ftart", "start", "STRASSE", "\u1e9etraße", "straße", "ΣΑΣ", "σας", "σασ", "µm", "μm", "ΜM", "\u0130stanbul", "istanbul", "ı", "ǅ", "ǆ", "Ǆ", "\u00c5", "\u212b", "å", "handler", "haNDLER", "TODO", "todo", "fiXme", "SEARCHER"}

// genFromWords makes a pattern out of what files contain: a piece of a line,
// as it is or with characters replaced.
func genFromWords(r *zsim.Rng) (pat string, lit bool) {
	var line string
	for k := 0; k < 5 && len(line) < 3; k++ {
		if r.Intn(4) == 0 {
			line = foldTargets[r.Intn(len(foldTargets))]
		} else {
			line = genLine(r)
		}
	}
	rs := []rune(strings.ReplaceAll(line, "\r", ""))
	if len(rs) > 1 && r.Intn(2) == 0 {
		a := r.Intn(len(rs))
		b := a + 1 + r.Intn(len(rs)-a)
		rs = rs[a:b]
	}
	if len(rs) > 12 {
		rs = rs[:12]
	}
	if r.Intn(3) == 0 {
		return string(rs), true
	}
	var b strings.Builder
	for i, c := range rs {
		q := regexp.QuoteMeta(string(c))
		switch r.Intn(14) {
		case 0:
			b.WriteString(".")
		case 1:
			b.WriteString("(" + q + "|" + regexp.QuoteMeta(string(rs[r.Intn(len(rs))])) + ")")
		case 2:
			b.WriteString(q + "?")
		case 3:
			b.WriteString(q + "+")
		case 4:
			if c == ' ' {
				b.WriteString("\\s*")
			} else {
				b.WriteString("[^" + regexp.QuoteMeta(string(words[r.Intn(len(words))][0]&0x7f)) + "]")
			}
		case 5:
			if i > 0 && i < len(rs)-1 {
				b.WriteString(".*")
			} else {
				b.WriteString(q)
			}
		case 6:
			b.WriteString(strings.ToUpper(q))
		default:
			b.WriteString(q)
		}
	}
	p := b.String()
	if _, err := regexp.Compile(p); err != nil {
		return string(rs), true
	}
	switch r.Intn(12) {
	case 0:
		p = "^" + p
	case 1:
		p += "$"
	case 2:
		p = "\\b" + p
	}
	return p, false
}

// genRe makes an arbitrary expression over a few letters.
func genRe(r *zsim.Rng, depth int) string {
	if depth == 0 || r.Intn(5) == 0 {
		return []string{"f", "o", "a", "b", "foo", "bar", "x", "y", "z", " ", "k", "s", "K", "\u017f", "é", "ß", ".", "[a-f]", "[^o]", "\\w", "\\s", "w[0-9]", "err", "the", "[A-Z]", "日", "[k-s]", "\\d", "in"}[r.Intn(29)]
	}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return genRe(r, depth-1) + genRe(r, depth-1)
	case 4:
		return "(?:" + genRe(r, depth-1) + "|" + genRe(r, depth-1) + ")"
	case 5:
		return "(" + genRe(r, depth-1) + ")" + []string{"?", "*", "+", "{2}", "{0,2}", "*?", "+?", "{1,3}"}[r.Intn(8)]
	case 6:
		return "^" + genRe(r, depth-1)
	case 7:
		return genRe(r, depth-1) + []string{"$", "\\b", "\\B"}[r.Intn(3)]
	default:
		return []string{"(?i:", "(?s:", "(?U:"}[r.Intn(3)] + genRe(r, depth-1) + ")"
	}
}

func genLine(r *zsim.Rng) string {
	n := r.Intn(7)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		if r.Intn(6) == 0 {
			b.WriteString("w" + strconv.Itoa(r.Intn(500)))
		} else {
			b.WriteString(words[r.Intn(len(words))])
		}
	}
	return b.String()
}

// genText is n random lines; end says whether the last one is terminated.
func genText(r *zsim.Rng, n int, end bool) string {
	var b strings.Builder
	crlf := r.Intn(12) == 0
	for i := 0; i < n; i++ {
		b.WriteString(genLine(r))
		if i < n-1 || end {
			if crlf {
				b.WriteByte('\r')
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// genContent makes content from "kind:seed:size".
func genContent(g string) []byte {
	p := strings.Split(g, ":")
	if len(p) != 3 {
		return []byte(g)
	}
	seed, _ := strconv.ParseUint(p[1], 10, 64)
	size, _ := strconv.Atoi(p[2])
	r := zsim.NewRng(seed)
	var b []byte
	switch p[0] {
	case "lines": // that many lines
		b = []byte(genText(r, size, r.Intn(4) != 0))
	case "bytes": // exactly that many bytes of ordinary lines
		for len(b) < size {
			b = append(b, genLine(r)...)
			b = append(b, '\n')
		}
		b = cutValid(b, size, r)
	case "utf": // exactly that many bytes, mostly multi-byte characters
		for len(b) < size {
			for k := r.Intn(60); k >= 0; k-- {
				b = append(b, []string{"é", "日", "🙂", "a", "Ж"}[r.Intn(5)]...)
			}
			if r.Intn(3) == 0 {
				b = append(b, " foo"...)
			}
			b = append(b, '\n')
		}
		b = cutValid(b, size, r)
	case "bin": // binary from the start
		b = append(b, 0xff, 0xfe, 0x80)
		for len(b) < size {
			b = append(b, byte(r.U64()))
		}
	case "latebin": // turns binary after the first bytes that are peeked at
		for len(b) < size || len(b) < 2100 {
			b = append(b, genLine(r)...)
			b = append(b, '\n')
		}
		b = append(b, 0xff, 0xff, 0x80, 'f', 'o', 'o', '\n')
	case "badutf": // text with one flaw somewhere
		for len(b) < size {
			b = append(b, genLine(r)...)
			b = append(b, '\n')
		}
		at := r.Intn(len(b))
		if len(b) > 2100 && r.Intn(2) == 0 {
			at = 2040 + r.Intn(12)
		}
		flaw := []string{"\xff", "\x80", "\xe2\x82", "\xe2", "\xf0\x9f\x99", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3"}[r.Intn(10)]
		if at > 2030 || size > 1990 && at > 1990 {
			// further on, only what no two bytes of a character can be is recognised
			flaw = []string{"\xff", "\xe2", "\xc3", "\xf8\x88\x80\x80\x80"}[r.Intn(4)]
		}
		for at > 0 && at < len(b) && b[at]&0xc0 == 0x80 {
			at--
		}
		b = append(b[:at:at], append([]byte(flaw), b[at:]...)...)
	case "longlines": // half of the lines are very long
		for i := 0; i < size; i++ {
			if i%2 == 0 {
				for k := 0; k < 2100; k += 8 {
					b = append(b, "foo bar "...)
				}
			}
			b = append(b, genLine(r)...)
			b = append(b, '\n')
		}
	case "fewlong": // one long line among many
		for i := 0; i < size+30; i++ {
			if i == size/2 {
				for k := 0; k < 2500; k += 8 {
					b = append(b, "foo wxy "...)
				}
			}
			b = append(b, genLine(r)...)
			b = append(b, '\n')
		}
	case "oneline": // a single line without an end
		for len(b) < size {
			b = append(b, words[r.Intn(20)]...)
			b = append(b, ' ')
		}
	case "blank":
		for i := 0; i < size; i++ {
			b = append(b, '\n')
			if r.Intn(9) == 0 {
				b = append(b, "foo\n"...)
			}
		}
	case "trig": // far too many different trigrams
		for len(b) < size {
			c := byte(33 + r.Intn(94))
			if r.Intn(60) == 0 {
				c = '\n'
			}
			b = append(b, c)
		}
	case "nul":
		b = []byte(genText(r, size, true))
		if len(b) > 4 {
			b[len(b)/2] = 0
		}
	}
	return b
}

// cutValid cuts to exactly n bytes, keeping UTF-8 valid.
func cutValid(b []byte, n int, r *zsim.Rng) []byte {
	if n > len(b) {
		n = len(b)
	}
	b = b[:n]
	k := n
	for k > 0 && k > n-4 && b[k-1]&0xc0 == 0x80 {
		k--
	}
	if k > 0 && b[k-1] >= 0xc0 {
		k--
	}
	for i := k; i < n; i++ {
		b[i] = 'z'
	}
	if n > 0 && r.Intn(2) == 0 {
		b[n-1] = '\n'
		for i := n - 2; i >= 0 && b[i] >= 0x80; i-- {
			b[i] = 'z'
		}
	}
	return b
}

// ---------------------------------------------------------------- file sets

var pathPool = []string{
	"README.md", "main.go", "src/main.go", "src/util.go", "src/deep/er/file.c", "lib/a.js", "lib/b.js", "Makefile",
	"docs/intro.txt", "docs/with space.txt", "docs/ünïcode.txt", ".hidden", ".config/settings", "src/.eslintrc", "a", "b", "a.b", "a-b", "a/b", "x/y/z/w.txt",
	"gen/model.pb.go", "gen/api.pb.go", "vendor/x.go", "test/x_test.go", "LICENSE", "weird/[x]$.txt", "weird/a+b.txt", "weird/%41.txt", "tmp.tmp",
	"Foo.TXT", "foo.txt", "dir.d/f", "dir/f", "dir-2/f", ".gitignore", ".hg_not", ".github/ci.yml", "node_modules/m.js", "raw/x", "tri", "metadata.gob", "excluded_files.json", "vcs-x/y",
	"zz/last", "0first", "src/日本.txt", "long/" + strings.Repeat("n", 120) + ".txt",
}

func genSpec(r *zsim.Rng, p string, ctx *GenCtx) *FileSpec {
	f := &FileSpec{Path: p}
	seed := strconv.FormatUint(r.U64()%1000000, 10)
	k := r.Intn(100)
	switch {
	case k < 60:
		f.Text = genText(r, r.Intn(12), r.Intn(4) != 0)
		if r.Intn(3) == 0 {
			f.Text = "mark" + strconv.Itoa(r.Intn(100000)) + " foo\n" + f.Text
		}
	case k < 64:
		f.Text = ""
	case k < 74:
		f.Gen = "lines:" + seed + ":" + strconv.Itoa(r.Range(20, 120))
	case k < 80:
		f.Gen = "bytes:" + seed + ":" + strconv.Itoa(sizesNear(r, ctx))
	case k < 84:
		f.Gen = "utf:" + seed + ":" + strconv.Itoa(sizesNear(r, ctx))
	case k < 86:
		f.Gen = "bin:" + seed + ":" + strconv.Itoa(r.Range(3, 300))
	case k < 87:
		f.Gen = "bin:" + seed + ":" + strconv.Itoa(r.Range(300, 6000))
	case k < 88:
		f.Gen = "badutf:" + seed + ":" + strconv.Itoa([]int{10, 100, 2000, 2046, 2048, 2060, 5000, 20000}[r.Intn(8)])
	case k < 90:
		f.Gen = "latebin:" + seed + ":" + strconv.Itoa(r.Range(2100, 6000))
	case k < 91:
		f.Gen = "longlines:" + seed + ":" + strconv.Itoa(r.Range(4, 12))
	case k < 92:
		f.Gen = "fewlong:" + seed + ":" + strconv.Itoa(r.Range(4, 60))
	case k < 93:
		f.Gen = "oneline:" + seed + ":" + strconv.Itoa(r.Range(10, 5000))
	case k < 95:
		f.Gen = "blank:" + seed + ":" + strconv.Itoa(r.Range(1, 40))
	case k < 96 && ctx.Big:
		f.Gen = "trig:" + seed + ":70000"
	case k < 98:
		f.Link = []string{"main.go", "../outside", "/etc/passwd", "nowhere", "."}[r.Intn(5)]
	default:
		f.Gen = "lines:" + seed + ":" + strconv.Itoa(r.Range(1, 30))
	}
	return f
}

// GenCtx steers generation.
type GenCtx struct {
	Big bool // expensive sizes allowed
}

func sizesNear(r *zsim.Rng, ctx *GenCtx) int {
	base := []int{2048, 2048, 4096, 16384, 16384, 512}
	if ctx.Big {
		base = append(base, 32768, 65536, 65536)
		if r.Intn(12) == 0 {
			base = []int{1 << 20, 1 << 20, 2 << 20}
		}
	}
	return base[r.Intn(len(base))] + r.Intn(9) - 4
}

// genFiles makes a file set of about n files.
func genFiles(r *zsim.Rng, n int, ctx *GenCtx) []*FileSpec {
	have := map[string]bool{}
	var out []*FileSpec
	for i := 0; i < n; i++ {
		p := pathPool[r.Intn(len(pathPool))]
		if conflict(have, p) {
			continue
		}
		have[p] = true
		out = append(out, genSpec(r, p, ctx))
	}
	return out
}

// conflict: p is there, or is a directory of one that is, or the other way round.
func conflict(have map[string]bool, p string) bool {
	if have[p] {
		return true
	}
	for q := range have {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- queries

// Query is a search request.
type Query struct {
	Pat     string   `json:"q"`
	Repos   []string `json:"repos"` // "*" for all
	Files   string   `json:"files,omitempty"`
	Exclude string   `json:"exclude,omitempty"`
	I       bool     `json:"i,omitempty"`
	Lit     bool     `json:"literal,omitempty"`
	Ctx     string   `json:"ctx,omitempty"`
	Rng     string   `json:"rng,omitempty"`
	Limit   string   `json:"limit,omitempty"`
	Stats   bool     `json:"stats,omitempty"`
	Post    bool     `json:"post,omitempty"`
	Bad     bool     `json:"bad,omitempty"` // an invalid expression
}

var rePool = []string{
	"foo", "bar", "Foo", "foo.*bar", "^foo", "foo$", "^$", "", ".", "^", "$", "fo+", "[fb]oo", "foo|bar", "(foo|bar) ", "w[0-9]+", "mark[0-9]+",
	"\\bfoo\\b", "^\\s*}$", "err != nil", "日本", "é", "naïve", "🙂", "x{2,3}", "a.b", "\\$HOME", "C:\\\\path", "<b>", "quick.*fox|the", "nosuchword", "[^a-z]$",
	"^.{0,3}$", "\\d+", "\\w+ \\w+", "(?i)HANDLER", "\"", "'", "\\.", "(a|b|c)(d|e)", "foo_?bar", "[[:upper:]]{2}", "\\t", "[^\\x00-\\x7F]", "(ab)+", "aaa+", "zzz", "foo\\r", "\\r$", "^ ", "(foo )?wxy", "return.*", "xyz?", "x.z",
	"--", "10:", "(((f)))oo", "Ω|ß", ".{5,}fox", "(?:the|quick) ", "(?s)foo.bar", "if err != nil \\{", "searcher|index|import", "ha..ler",
}
var litPool = []string{"foo", "a.b(c)*d", "$HOME", "C:\\path", "[a-z]+", "^start", "end$", "if err != nil {", "<b>&amp;</b>", "\"quoted\"", "日本語", "🙂", "\\n", "foo bar", "", "}", " ", "naïve", "ho", "x"}
var badPool = []string{"(", "[", "a**", "*", "(?z)", "x{2,1}", "\\8"}
var filePool = []string{"", "", "", "", "\\.go$", "src", "^src/", "README", "a|b", "txt$", "nosuch", ".", "^\\.", "/", "[A-Z]", "x",
	"x*", "^", "$", "(^|/)f", "\\bfoo", "(?i)readme", "(go|txt)$", "^[^/]*$", "\\.(go|js)$", "s.c", "d.*f", "^(src|lib)/.*\\.go$", "é|日", "[^a-z./]", "\\.go", "^foo\\.txt$", "a/", ".."}

func genQuery(r *zsim.Rng, repos []string) *Query {
	q := &Query{}
	if r.Intn(4) == 0 {
		q.Pat, q.Lit = genFromWords(r)
	} else if r.Intn(8) == 0 {
		q.Pat = genRe(r, 1+r.Intn(4))
	} else if r.Intn(4) == 0 {
		q.Lit = true
		q.Pat = litPool[r.Intn(len(litPool))]
	} else if r.Intn(4) == 0 {
		// composed
		op := []string{"|", ".*", " ", ".?", "+", ""}[r.Intn(6)]
		a, b := rePool[r.Intn(len(rePool))], rePool[r.Intn(len(rePool))]
		if op == "+" {
			q.Pat = "(" + a + ")+"
		} else {
			q.Pat = "(" + a + ")" + op + "(" + b + ")"
		}
	} else {
		q.Pat = rePool[r.Intn(len(rePool))]
	}
	q.I = r.Intn(4) == 0
	q.Files = filePool[r.Intn(len(filePool))]
	if r.Intn(4) == 0 {
		q.Exclude = filePool[r.Intn(len(filePool))]
	}
	switch r.Intn(4) {
	case 0:
		q.Ctx = strconv.Itoa(r.Intn(6))
	case 1:
		q.Ctx = []string{"0", "20", "25", "x", "-1", "1"}[r.Intn(6)]
	}
	if r.Intn(3) == 0 || len(repos) == 0 {
		q.Repos = []string{"*"}
	} else {
		for _, n := range repos {
			if r.Intn(2) == 0 {
				q.Repos = append(q.Repos, n)
			}
		}
		if len(q.Repos) == 0 {
			q.Repos = []string{repos[r.Intn(len(repos))]}
		}
		if r.Intn(12) == 0 {
			q.Repos = append(q.Repos, "nosuchrepo")
		}
	}
	q.Stats = r.Intn(5) == 0
	q.Post = r.Intn(10) == 0
	if r.Intn(25) == 0 {
		q.Pat, q.Lit, q.Bad = badPool[r.Intn(len(badPool))], false, true
	}
	if r.Intn(80) == 0 {
		q.Bad = true
		if b := badPool[r.Intn(len(badPool))]; r.Intn(2) == 0 {
			q.Files = b
		} else {
			q.Exclude = b
		}
	}
	return q
}

// genPaged adds a range and a limit.
func genPaged(r *zsim.Rng, q *Query) {
	if r.Intn(2) == 0 {
		q.Rng = strconv.Itoa(r.Intn(4)) + ":" + strconv.Itoa(r.Intn(5))
		if r.Intn(4) == 0 {
			q.Rng = []string{":2", "1:", ":", "3", "x:1", "1:y", "-1:1", "1:-1", "0:1", "2:1:1", "1 :1", "1000:2", "0:100000", " 1:1"}[r.Intn(14)]
		}
	}
	if r.Intn(2) == 0 {
		q.Limit = []string{"1", "2", "3", "5", "8", "-1", "0", "x", "20", "100000000"}[r.Intn(10)]
	}
}
