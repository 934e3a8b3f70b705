//go:build go1.22

package h

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- reference index

// RefFile is a file that must be searchable.
type RefFile struct {
	Lines []string
}

// RefIndex says what an index of a file set must contain.
type RefIndex struct {
	Files    map[string]*RefFile
	Excluded map[string]string // path -> kind of reason
	Either   map[string]bool   // contents on a threshold: both are right
}

// IdxOpts are the settings that decide what is indexed.
type IdxOpts struct {
	DotEx   bool
	Special []string
}

func (o IdxOpts) key() string { return fmt.Sprint(o.DotEx, o.Special) }

func splitLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := string(b)
	if strings.HasSuffix(s, "\n") {
		s = s[:len(s)-1]
	}
	return strings.Split(s, "\n")
}

// classify says whether a regular file's content is text: "" yes, else the kind
// of reason; "?" when on a threshold.
func classify(b []byte) string {
	n := len(b)
	if n > 2048 {
		// a character may be cut at the end of the part that is looked at
		p := b[:2048]
		for i := 0; i < len(p); {
			r, sz := utf8.DecodeRune(p[i:])
			if r == utf8.RuneError && sz == 1 {
				if len(p)-i < 4 && utf8.FullRune(b[i:]) && utf8.Valid(b[i:min2(i+4, runeEnd(b, i))]) {
					break
				}
				return "nottext"
			}
			i += sz
		}
	} else if !utf8.Valid(b) {
		return "nottext"
	}
	if !utf8.Valid(b) {
		return "nottext"
	}
	if n > 1<<25 {
		return "toolong"
	}
	long, num, l := 0, 0, 0
	tri := map[uint32]struct{}{}
	var tv uint32
	for i, c := range b {
		tv = (tv<<8 | uint32(c)) & (1<<24 - 1)
		if i >= 2 && n > 100000/8 {
			tri[tv] = struct{}{}
		}
		l++
		if c == '\n' {
			num++
			if l > 2000 {
				long++
			}
			l = 0
		}
	}
	if len(tri) > 20000 {
		r := float64(len(tri)) / float64(n)
		if r > 0.12 {
			return "trigrams"
		}
		if r > 0.08 {
			return "?"
		}
	} else if len(tri) > 19900 {
		return "?"
	}
	if num > 0 && long > 0 {
		r := float64(long) / float64(num)
		if r > 0.15 {
			return "longlines"
		}
		if r > 0.08 {
			return "?"
		}
	}
	return ""
}

func runeEnd(b []byte, i int) int {
	_, sz := utf8.DecodeRune(b[i:])
	return i + sz
}
func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

type refCache struct {
	byKey map[string]*RefIndex
	files map[*FileSpec]*specInfo
}

type specInfo struct {
	reason string
	lines  []string
}

func newRefCache() *refCache {
	return &refCache{byKey: map[string]*RefIndex{}, files: map[*FileSpec]*specInfo{}}
}

func (c *refCache) info(f *FileSpec) *specInfo {
	if i := c.files[f]; i != nil {
		return i
	}
	b := f.Content()
	i := &specInfo{reason: classify(b), lines: splitLines(b)}
	c.files[f] = i
	return i
}

// index is the reference index of a commit's files under the options.
func (c *refCache) index(key string, files map[string]*FileSpec, o IdxOpts) *RefIndex {
	k := key + "\x00" + o.key()
	if r := c.byKey[k]; r != nil {
		return r
	}
	r := &RefIndex{Files: map[string]*RefFile{}, Excluded: map[string]string{}, Either: map[string]bool{}}
	for p, f := range files {
		skip := false
		parts := strings.Split(p, "/")
		for i, d := range parts {
			last := i == len(parts)-1
			if contains(o.Special, d) {
				skip = true
				break
			}
			if o.DotEx && d[0] == '.' {
				if last && f.Kind != "dir" {
					r.Excluded[p] = "dot"
				}
				skip = true
				break
			}
		}
		if skip || f.Kind == "dir" {
			continue
		}
		if f.Link != "" || f.Kind == "fifo" {
			r.Excluded[p] = "mode"
			continue
		}
		in := c.info(f)
		switch in.reason {
		case "":
			r.Files[p] = &RefFile{Lines: in.lines}
		case "?":
			r.Files[p] = &RefFile{Lines: in.lines}
			r.Either[p] = true
		default:
			r.Excluded[p] = in.reason
		}
	}
	c.byKey[k] = r
	return r
}

// ---------------------------------------------------------------- reference search

// SOpts are the options of a search that decide which lines match.
type SOpts struct {
	Pat     string
	Lit     bool
	I       bool
	Files   string
	Exclude string
}

type matcher struct {
	re, fre, xre *regexp.Regexp
}

func compileQ(o SOpts) (*matcher, error) {
	p := o.Pat
	if o.Lit {
		p = regexp.QuoteMeta(p)
	}
	pre := "(?m)"
	if o.I {
		pre = "(?i)(?m)"
	}
	var m matcher
	var err error
	if m.re, err = regexp.Compile(pre + p); err != nil {
		return nil, err
	}
	if o.Files != "" {
		if m.fre, err = regexp.Compile(o.Files); err != nil {
			return nil, err
		}
	}
	if o.Exclude != "" {
		if m.xre, err = regexp.Compile(o.Exclude); err != nil {
			return nil, err
		}
	}
	return &m, nil
}

// search returns the matching line numbers (from 0) per file.
func (r *RefIndex) search(m *matcher) map[string][]int {
	out := map[string][]int{}
	for p, f := range r.Files {
		if m.fre != nil && !m.fre.MatchString(p) {
			continue
		}
		if m.xre != nil && m.xre.MatchString(p) {
			continue
		}
		var ls []int
		for i, l := range f.Lines {
			if m.re.MatchString(l) {
				ls = append(ls, i)
			}
		}
		if ls != nil {
			out[p] = ls
		}
	}
	return out
}

// ---------------------------------------------------------------- answers

type JMatch struct {
	Line       string
	LineNumber int
	Before     []string
	After      []string
}
type JFile struct {
	Filename      string
	Matches       []*JMatch
	AutoGenerated bool
}
type JRepo struct {
	Matches        []*JFile
	FilesWithMatch int
	Revision       string
}

// checkCtx compares the neighbouring lines of a match at line ln (from 0) with
// the truth; prev is the line of the match before it (-1: none).
func checkCtx(lines []string, ln, prev, ctx int, m *JMatch) string {
	var after []string
	for i := ln + 1; i < len(lines) && i <= ln+ctx; i++ {
		after = append(after, lines[i])
	}
	if !eqLines(after, m.After) {
		return fmt.Sprintf("lines after line %d: got %q, want %q", ln+1, m.After, after)
	}
	nb := len(m.Before)
	if nb > ctx || nb > ln {
		return fmt.Sprintf("%d lines before line %d, asked for %d", nb, ln+1, ctx)
	}
	if !eqLines(lines[ln-nb:ln], m.Before) {
		return fmt.Sprintf("lines before line %d: got %q, want %q", ln+1, m.Before, lines[ln-nb:ln])
	}
	// the search goes on after a match, so what lies before the previous match may
	// be left out (it was shown there)
	avail := ln - prev - 1
	need := ctx
	if avail < need {
		need = avail
	}
	if nb < need {
		// a blank first line of the stretch may be missing
		if nb == avail-1 && need == avail && lines[prev+1] == "" {
			return ""
		}
		return fmt.Sprintf("only %d lines before line %d (%q), want at least %d", nb, ln+1, m.Before, need)
	}
	return ""
}

func eqLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkRepo compares one repository's answer with the truth, when no limits
// apply. It returns "" or what differs.
func (r *RefIndex) checkRepo(m *matcher, ctx int, got *JRepo) string {
	want := r.search(m)
	seen := map[string]bool{}
	for _, f := range got.Matches {
		if seen[f.Filename] {
			return fmt.Sprintf("file %q is in the answer twice", f.Filename)
		}
		seen[f.Filename] = true
		w := want[f.Filename]
		if w == nil {
			why := "not a file of the revision"
			if r.Files[f.Filename] != nil {
				why = "no line of it matches"
			} else if x := r.Excluded[f.Filename]; x != "" {
				why = "excluded (" + x + ")"
			}
			return fmt.Sprintf("file %q should not be in the answer: %s", f.Filename, why)
		}
		lines := r.Files[f.Filename].Lines
		if s := checkMatches(lines, w, ctx, f); s != "" {
			return s
		}
	}
	for _, p := range sortedKeys(want) {
		if !seen[p] && !r.Either[p] {
			return fmt.Sprintf("file %q is missing from the answer (%d matching lines)", p, len(want[p]))
		}
	}
	if got.FilesWithMatch != len(got.Matches) {
		return fmt.Sprintf("FilesWithMatch is %d with %d files in the answer", got.FilesWithMatch, len(got.Matches))
	}
	return ""
}

func checkMatches(lines []string, w []int, ctx int, f *JFile) string {
	prev := -1
	for i, x := range f.Matches {
		if i >= len(w) {
			return fmt.Sprintf("%q: line %d in the answer, no such match", f.Filename, x.LineNumber)
		}
		if x.LineNumber != w[i]+1 {
			return fmt.Sprintf("%q: line %d in the answer where line %d is the next match", f.Filename, x.LineNumber, w[i]+1)
		}
		if x.Line != lines[w[i]] {
			return fmt.Sprintf("%q line %d: text is %q, want %q", f.Filename, x.LineNumber, clip(x.Line), clip(lines[w[i]]))
		}
		if s := checkCtx(lines, w[i], prev, ctx, x); s != "" {
			return fmt.Sprintf("%q: %s", f.Filename, s)
		}
		prev = w[i]
	}
	if len(f.Matches) < len(w) {
		return fmt.Sprintf("%q: match at line %d is missing (%d of %d)", f.Filename, w[len(f.Matches)]+1, len(f.Matches), len(w))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// autoSet is the set of auto-generated files of a commit.
func autoSet(kind string, list []string, files map[string]*FileSpec) map[string]bool {
	out := map[string]bool{}
	if len(list) > 0 {
		for _, x := range list {
			out[x] = true
		}
		return out
	}
	if kind != "git" {
		return out
	}
	att := files[".gitattributes"]
	if att == nil || att.Link != "" {
		return out
	}
	for p := range files {
		if attrOf(att.Content(), p, "linguist-generated") == "true" {
			out[p] = true
		}
	}
	return out
}

var _ = path.Base
