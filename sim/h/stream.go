//go:build go1.22

package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	cindex "github.com/hound-search/hound/codesearch/index"
	cregexp "github.com/hound-search/hound/codesearch/regexp"
	"github.com/hound-search/hound/zsim"
)

// StreamPlan is a run of the stream properties: cases one after another in one process.
type StreamPlan struct {
	Cases []*StreamCase `json:"cases"`
}

// StreamCase is one call of a function that reads a stream.
type StreamCase struct {
	Kind  string     `json:"kind"` // reader, grep, grep2, fill, add, merge
	Text  string     `json:"text,omitempty"`
	Gen   string     `json:"gen,omitempty"` // instead of Text: see streamText
	Pat   string     `json:"pat,omitempty"`
	I     bool       `json:"i,omitempty"`
	Flags string     `json:"flags,omitempty"` // of reader: N C H L
	Ctx   int        `json:"ctx,omitempty"`
	Stop  int        `json:"stop,omitempty"` // the callback ends the search after so many lines
	Fail  bool       `json:"fail,omitempty"` // … with an error
	Cut   string     `json:"cut,omitempty"`  // how the stream is cut up: see cutter
	Seed  uint64     `json:"seed,omitempty"`
	ErrAt int        `json:"errAt,omitempty"` // 1+position of the read error, 0 none
	Err   string     `json:"err,omitempty"`   // eio, eof2 (io.ErrUnexpectedEOF)
	With  bool       `json:"with,omitempty"`  // end or error come together with data
	Name  string     `json:"name,omitempty"`
	Files []*TriFile `json:"files,omitempty"`
	Two   []*TriFile `json:"two,omitempty"` // of merge: the second index
	Paths []string   `json:"paths,omitempty"`
	Path2 []string   `json:"paths2,omitempty"`
	Fault string     `json:"fault,omitempty"` // of add, merge: KIND:N, the N-th such operation fails
}

// TriFile is a file of a trigram index.
type TriFile struct {
	Name  string `json:"name"`
	Text  string `json:"text,omitempty"`
	Gen   string `json:"gen,omitempty"`
	Cut   string `json:"cut,omitempty"`
	ErrAt int    `json:"errAt,omitempty"`
	Err   string `json:"err,omitempty"`
	With  bool   `json:"with,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
}

// ---------------------------------------------------------------- contents

// streamText makes content from "kind:seed:size:unit".
func streamText(text, gen string) []byte {
	if gen == "" {
		return []byte(text)
	}
	p := strings.Split(gen, ":")
	if len(p) != 4 {
		return []byte(gen)
	}
	seed, _ := strconv.ParseUint(p[1], 10, 64)
	size, _ := strconv.Atoi(p[2])
	unit, _ := strconv.Atoi(p[3])
	r := zsim.NewRng(seed)
	var b bytes.Buffer
	switch p[0] {
	case "huge": // a line that is longer than the unit, with words in it, among others
		for i := r.Intn(4); i > 0; i-- {
			b.WriteString(genLine(r) + "\n")
		}
		for b.Len() < size {
			switch r.Intn(40) {
			case 0:
				b.WriteString(words[r.Intn(len(words))])
			case 1:
				b.WriteString(strings.Repeat("é", r.Intn(200)))
			default:
				b.WriteString(strings.Repeat("qz", 1+r.Intn(2000)))
			}
			if r.Intn(4000) == 0 {
				b.WriteByte('\n')
			}
		}
		for i := r.Intn(4); i > 0; i-- {
			b.WriteString("\n" + genLine(r))
		}
		if r.Intn(2) == 0 {
			b.WriteByte('\n')
		}
	case "crowd": // dense little lines around the multiples of unit, filler elsewhere
		for b.Len() < size {
			d := unit - b.Len()%unit // to the next multiple
			if d > 300 && unit-d > 300 {
				n := int(r.Log(1, 4000))
				if n > d-200 {
					n = d - 200
				}
				if n < 1 {
					n = 1
				}
				if r.Intn(3) == 0 {
					b.WriteString(genLine(r))
				} else {
					b.WriteString(strings.Repeat("z", n))
				}
				b.WriteByte('\n')
				continue
			}
			switch r.Intn(5) {
			case 0:
				b.WriteByte('\n')
			case 1: // put the end of a line exactly at the boundary, or next to it
				n := d + []int{0, -1, 1, -2}[r.Intn(4)]
				if n > 0 && n < 300 {
					w := "foo"
					if n < 4 {
						w = strings.Repeat("y", n-1)
					}
					b.WriteString(strings.Repeat("y", max0(n-1-len(w))) + w + "\n")
				}
			case 2:
				b.WriteString(strings.Repeat([]string{"é", "日", "🙂", "foo", "x"}[r.Intn(5)], 1+r.Intn(4)))
				if r.Intn(2) == 0 {
					b.WriteByte('\n')
				}
			default:
				b.WriteString(genLine(r) + "\n")
			}
		}
		switch r.Intn(4) {
		case 0:
			b.WriteString(genLine(r))
		case 1: // end exactly at a multiple
			if d := unit - b.Len()%unit; d < 400 {
				s := strings.Repeat("foo\n", d/4)
				b.WriteString(s + "bar\n"[:d-len(s)])
			}
		}
	case "bin":
		for b.Len() < size {
			if r.Intn(30) == 0 {
				b.WriteByte(byte(r.Intn(256)))
			} else {
				b.WriteString(genLine(r) + "\n")
			}
		}
	default: // text
		b.WriteString(genText(r, size, unit&1 == 0))
	}
	return b.Bytes()
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

// ---------------------------------------------------------------- streams

var errStream = errors.New("input/output error")

// cutReader delivers data in pieces.
type cutReader struct {
	data []byte
	off  int
	cut  string
	rng  *zsim.Rng
	err  error // what comes at the end
	with bool
	read int64
}

func newCut(data []byte, cut string, seed uint64, errAt int, kind string, with bool) *cutReader {
	c := &cutReader{data: data, cut: cut, rng: zsim.NewRng(seed), err: io.EOF, with: with}
	if errAt > 0 {
		if errAt-1 < len(data) {
			c.data = data[:errAt-1]
		}
		c.err = errStream
		if kind == "eof2" {
			c.err = io.ErrUnexpectedEOF
		}
	}
	return c
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(c.data) - c.off
	if left == 0 {
		return 0, c.err
	}
	n := len(p)
	switch c.cut {
	case "one":
		n = 1
	case "few":
		n = c.rng.Intn(8) // at times nothing at all
	case "log":
		n = int(c.rng.Log(1, 1<<21))
	case "line": // at or next to the ends of lines
		if i := bytes.IndexByte(c.data[c.off:], '\n'); i >= 0 {
			n = i + c.rng.Intn(3)
			if c.rng.Intn(2) == 0 {
				n += int(c.rng.Log(1, 5000))
			}
		}
	case "near": // near powers of two
		n = 1<<uint(c.rng.Intn(22)) + c.rng.Intn(5) - 2
	case "tail": // all but the last byte asked for
		if n > 1 {
			n--
		}
	}
	if n < 0 {
		n = 0
	}
	if n > len(p) {
		n = len(p)
	}
	if n > left {
		n = left
	}
	copy(p, c.data[c.off:c.off+n])
	c.off += n
	if c.off == len(c.data) && c.with && n > 0 {
		return n, c.err
	}
	return n, nil
}

// ---------------------------------------------------------------- run

type streamRun struct {
	w    *zsim.World
	res  *Result
	obs  uint64
	gr   map[string]interface{} // the line searcher of package index, used again and again
	grep *cregexp.Grep
	cur  *StreamCase
	n    int
}

func (s *streamRun) violate(class, sig, f string, a ...interface{}) {
	s.res.Viol = append(s.res.Viol, &Violation{Class: class, Sig: s.cur.Kind + ": " + sig, Msg: fmt.Sprintf("case %d (%s): ", s.n, s.cur.Kind) + fmt.Sprintf(f, a...), At: s.w.Now() / ms})
}

func (s *streamRun) observe(x string) { s.obs = zsim.Hash64(x, s.obs+1) }

func runStream(p *Plan, dec zsim.Decisions, trace int) *Result {
	t0 := time.Now()
	w := zsim.NewWorld(p.Seed, p.Sched, dec)
	w.TraceOn, w.TraceOps = trace > 0, trace > 1
	res := &Result{Seed: p.Seed, Faults: map[string]int64{}, Stats: map[string]int64{}}
	s := &streamRun{w: w, res: res}
	w.Run(func() {
		w.FS.PutDir("/tmp")
		w.FS.PutDir("/w")
		pr := w.NewProc("stream", "prog")
		zsim.ResetPackages(func(string) bool { return true })
		pr.Spawn("cases", func() {
			for i, c := range p.Stream.Cases {
				s.n, s.cur = i, c
				s.one(c)
				if len(res.Viol) > 0 {
					break
				}
			}
			zsim.Exit(0)
		})
		if !pr.WaitExit(1e16) {
			s.violate("stream-hang", "does not end", "the function does not come to an end")
		} else if pr.Reason == "panic" || pr.Reason == "fault" {
			s.violate("stream-panic", sigOfStack(pr.Stack), "%s", pr.Stack)
		}
	})
	if k := w.StopKind(); k != "" && len(res.Viol) == 0 {
		if k == "budget" {
			res.Stats["budget"]++
		} else {
			s.violate(k, k, "%s", w.Stopped())
		}
	}
	res.Hash, res.Obs, res.Sim, res.Yields, res.dec, res.trace = w.SchedHash(), s.obs, w.SimTime(), w.Yields(), w.Recorded(), w.Trace
	res.Wall = int64(time.Since(t0))
	res.States = w.StateList()
	for k, v := range w.Faults {
		res.Faults[k] += int64(v)
	}
	return res
}

func sigOfStack(st string) string {
	l := strings.SplitN(st, "\n", 2)[0]
	return regexp.MustCompile(`[0-9]+`).ReplaceAllString(l, "N")
}

func (s *streamRun) one(c *StreamCase) {
	st := s.res.Stats
	st["stream-cases"]++
	st["kind-"+c.Kind]++
	s.w.NoteState(fmt.Sprintf("%s %s %s %s %v %s", c.Kind, c.Gen, c.Text, c.Pat, c.I, c.Cut))
	if c.ErrAt > 0 {
		s.res.Faults["read-error"]++
	}
	if c.Cut != "" {
		s.res.Faults["fragmented-"+c.Cut]++
	}
	defer func() {
		if zsim.Dead() {
			return
		}
		if r := recover(); r != nil {
			s.violate("stream-panic", sigOfStack(fmt.Sprint(r)), "panic: %v", r)
		}
	}()
	switch c.Kind {
	case "reader":
		s.reader(c)
	case "grep", "grep2", "fill":
		s.grepper(c)
	case "add":
		s.add(c)
	case "merge":
		s.merge(c)
	}
}

// compile makes the expression as the server does, and the reference.
func (s *streamRun) compile(c *StreamCase) (*cregexp.Regexp, *matcher, bool) {
	pre := "(?m)"
	if c.I {
		pre = "(?i)(?m)"
	}
	m, err := compileQ(SOpts{Pat: c.Pat, I: c.I})
	if err != nil {
		return nil, nil, false
	}
	re, err := cregexp.Compile(pre + c.Pat)
	if err != nil {
		s.violate("stream-wrong", "compile", "%q: %v", c.Pat, err)
		return nil, nil, false
	}
	return re, m, true
}

func matching(lines []string, m *matcher) []int {
	var out []int
	for i, l := range lines {
		if m.re.MatchString(l) {
			out = append(out, i)
		}
	}
	return out
}

func (s *streamRun) reader(c *StreamCase) {
	re, m, ok := s.compile(c)
	if !ok {
		return
	}
	data := streamText(c.Text, c.Gen)
	in := newCut(data, c.Cut, c.Seed, c.ErrAt, c.Err, c.With)
	var so, se bytes.Buffer
	if s.grep == nil {
		s.grep = &cregexp.Grep{}
	}
	g := s.grep
	g.Regexp, g.Stdout, g.Stderr, g.Match = re, &so, &se, false
	has := func(f string) bool { return strings.Contains(c.Flags, f) }
	g.L, g.C, g.N, g.H = has("L"), has("C"), has("N"), has("H")
	g.Reader(in, "f.txt")
	data = in.data
	lines := splitLines(data)
	hits := matching(lines, m)
	full := len(data) == 0 || data[len(data)-1] == '\n'
	var want strings.Builder
	switch {
	case g.L:
		if len(hits) > 0 {
			want.WriteString("f.txt\n")
		}
	case g.C:
		if len(hits) > 0 {
			fmt.Fprintf(&want, "f.txt: %d\n", len(hits))
		}
	default:
		for _, i := range hits {
			if !g.H {
				want.WriteString("f.txt:")
			}
			if g.N {
				fmt.Fprintf(&want, "%d:", i+1)
			}
			want.WriteString(lines[i])
			if i < len(lines)-1 || full {
				want.WriteByte('\n')
			}
		}
	}
	s.observe(so.String())
	got := so.String()
	if in.err != io.EOF {
		// what was found before the error may be there, in part or whole
		if se.Len() == 0 && !(g.L && got != "" && got == want.String()) {
			s.violate("stream-error-lost", "an error of the reader", "the reader failed after %d bytes (%v) and nothing reports it; output %q", len(data), in.err, clip(got))
		}
		if !g.C && !strings.HasPrefix(want.String(), got) && !(g.L && got == "") {
			s.violate("stream-wrong", "output before an error", "%q", firstDiff(got, want.String()))
		}
		return
	}
	if se.Len() > 0 {
		s.violate("stream-wrong", "an error without cause", "%q", clip(se.String()))
	}
	if got != want.String() {
		s.violate("stream-wrong", "output", "expression %q (i=%v) flags %q, %d bytes cut %q: %s", c.Pat, c.I, c.Flags, len(data), c.Cut, firstDiff(got, want.String()))
	}
	if g.Match != (len(hits) > 0) {
		s.violate("stream-wrong", "Match", "Match is %v with %d matching lines", g.Match, len(hits))
	}
}

func firstDiff(got, want string) string {
	a, b := strings.SplitAfter(got, "\n"), strings.SplitAfter(want, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = fmt.Sprintf("%q", clip(a[i]))
		}
		if i < len(b) {
			y = fmt.Sprintf("%q", clip(b[i]))
		}
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("line %d of %d of the output: got %s, want %s (%d lines)", i+1, len(a), x, y, len(b))
		}
	}
	return "same"
}

var errStop = errors.New("stop here")

func (s *streamRun) grepper(c *StreamCase) {
	if s.gr == nil {
		h := zsim.Hooks["index.grepper"]
		if h == nil {
			s.res.Stats["no-grepper"]++
			return
		}
		s.gr = h()
	}
	data := streamText(c.Text, c.Gen)
	in := newCut(data, c.Cut, c.Seed, c.ErrAt, c.Err, c.With)
	if c.Kind == "fill" {
		f, ok := s.gr["fillFrom"].(func(io.Reader) ([]byte, error))
		if !ok {
			s.res.Stats["no-fillFrom"]++
			return
		}
		b, err := f(in)
		s.observe(fmt.Sprint(len(b), err))
		if in.err != io.EOF {
			if err == nil {
				s.violate("stream-error-lost", "an error of the reader", "the reader failed after %d bytes (%v), %d bytes were returned as the whole", len(in.data), in.err, len(b))
			}
			return
		}
		if err != nil {
			s.violate("stream-wrong", "an error without cause", "%v", err)
		} else if !bytes.Equal(b, in.data) {
			s.violate("stream-wrong", "the data", "%d bytes, want %d; the first difference is at %d", len(b), len(in.data), diffAt(b, in.data))
		}
		return
	}
	re, m, ok := s.compile(c)
	if !ok {
		return
	}
	lines := splitLines(in.data)
	hits := matching(lines, m)
	k := 0
	bad := ""
	full := len(in.data) == 0 || in.data[len(in.data)-1] == '\n'
	call := func(line []byte, no int, before, after [][]byte, ctx bool) (bool, error) {
		if bad != "" {
			return false, nil
		}
		l := string(line)
		if !ctx {
			l = strings.TrimSuffix(l, "\n")
			if k < len(hits) && (hits[k] < len(lines)-1 || full) != (len(l) < len(line)) {
				bad = fmt.Sprintf("line %d: %q", no, clip(string(line)))
			}
		}
		switch {
		case k >= len(hits):
			bad = fmt.Sprintf("line %d %q is one too many (%d match)", no, clip(l), len(hits))
		case no != hits[k]+1 || l != lines[hits[k]]:
			bad = fmt.Sprintf("match %d is line %d %q, want line %d %q", k+1, no, clip(l), hits[k]+1, clip(lines[hits[k]]))
		case ctx:
			jm := &JMatch{Line: l, LineNumber: no, Before: strs(before), After: strs(after)}
			if n := len(jm.After); n > 0 && jm.After[n-1] == "" && hits[k]+n >= len(lines) {
				jm.After = jm.After[:n-1] // what follows the last newline
			}
			prev := -1
			if k > 0 {
				prev = hits[k-1]
			}
			bad = checkCtx(lines, hits[k], prev, c.Ctx, jm)
		}
		k++
		if c.Stop > 0 && k >= c.Stop {
			if c.Fail {
				return true, errStop
			}
			return false, nil
		}
		return true, nil
	}
	var err error
	if c.Kind == "grep" {
		f, ok := s.gr["grep"].(func(io.Reader, *cregexp.Regexp, func([]byte, int) (bool, error)) error)
		if !ok {
			s.res.Stats["no-grep"]++
			return
		}
		err = f(in, re, func(l []byte, no int) (bool, error) { return call(l, no, nil, nil, false) })
	} else {
		f, ok := s.gr["grep2"].(func(io.Reader, *cregexp.Regexp, int, func([]byte, int, [][]byte, [][]byte) (bool, error)) error)
		if !ok {
			s.res.Stats["no-grep2"]++
			return
		}
		err = f(in, re, c.Ctx, func(l []byte, no int, b, a [][]byte) (bool, error) { return call(l, no, b, a, true) })
	}
	s.observe(fmt.Sprint(k, err))
	what := fmt.Sprintf("expression %q (i=%v), %d bytes cut %q", c.Pat, c.I, len(in.data), c.Cut)
	if bad != "" {
		s.violate("stream-wrong", "a line", "%s: %s", what, bad)
		return
	}
	stopped := c.Stop > 0 && len(hits) >= c.Stop
	switch {
	case stopped && k == c.Stop:
		if c.Fail && err != errStop {
			s.violate("stream-wrong", "the callback's error", "%s: got %v", what, err)
		}
		if !c.Fail && err != nil && in.err == io.EOF {
			s.violate("stream-wrong", "an error without cause", "%s: %v", what, err)
		}
	case in.err != io.EOF:
		if err == nil {
			s.violate("stream-error-lost", "an error of the reader", "%s: the reader failed (%v) and nothing reports it", what, in.err)
		}
	case err != nil:
		s.violate("stream-wrong", "an error without cause", "%s: %v", what, err)
	case k != len(hits):
		s.violate("stream-wrong", "lines missing", "%s: %d lines, want %d (next: line %d %q)", what, k, len(hits), hits[k]+1, clip(lines[hits[k]]))
	}
}

func strs(b [][]byte) []string {
	var out []string
	for _, x := range b {
		out = append(out, string(x))
	}
	return out
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// ---------------------------------------------------------------- trigram indexes

// faultOn makes the N-th operation of a kind in the rest of the case fail.
func (s *streamRun) faultOn(f string) func() {
	if f == "" {
		return func() {}
	}
	p := strings.Split(f, ":")
	n, _ := strconv.Atoi(p[len(p)-1])
	s.w.FaultsF = func(o *zsim.Op) zsim.Fault {
		if o.Kind != p[0] {
			return zsim.Fault{}
		}
		if n--; n != 0 {
			return zsim.Fault{}
		}
		ft := zsim.Fault{Err: syscall.ENOSPC, Kind: "io-error-" + p[0]}
		if p[0] == "write" && len(p) > 2 && o.N > 1 {
			ft.Short = 1 + o.N/2
		}
		return ft
	}
	return func() { s.w.FaultsF = nil }
}

// guarded calls fn; an index error it panics with is returned.
func guarded(fn func()) (err error) {
	defer func() {
		if zsim.Dead() {
			return
		}
		if r := recover(); r != nil {
			if e, ok := r.(*cindex.Error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	fn()
	return nil
}

// buildTri writes an index and returns the reasons, per file.
func buildTri(file string, paths []string, files []*TriFile, cut bool) (reasons []string, err error) {
	var ix *cindex.IndexWriter
	err = guarded(func() {
		ix = cindex.Create(file)
		ix.AddPaths(paths)
		for _, f := range files {
			in := newCut(streamText(f.Text, f.Gen), "", 1, 0, "", false)
			if cut {
				in = newCut(streamText(f.Text, f.Gen), f.Cut, f.Seed, f.ErrAt, f.Err, f.With)
			}
			reasons = append(reasons, ix.Add(f.Name, in))
		}
		ix.Flush()
	})
	if ix != nil {
		ix.Close()
	}
	return reasons, err
}

func (s *streamRun) tmpLeft(what string) {
	if n := s.w.FS.NodeF("/tmp"); n != nil && len(n.Names()) > 0 {
		s.violate("stream-tmp", "temporary files left", "%s left %v in /tmp", what, n.Names())
	}
}

func trigramsOf(b []byte) map[uint32]bool {
	m := map[uint32]bool{}
	for i := 0; i+3 <= len(b); i++ {
		m[uint32(b[i])<<16|uint32(b[i+1])<<8|uint32(b[i+2])] = true
	}
	return m
}

// checkTri compares an index file with the files it is to hold.
func (s *streamRun) checkTri(file, what string, names []string, text map[string][]byte) bool {
	ok := true
	err := guarded(func() {
		ix := cindex.Open(file)
		defer ix.Close()
		post := map[uint32][]uint32{}
		for i, n := range names {
			if got := ix.Name(uint32(i)); got != n {
				s.violate("tri-wrong", "names", "%s: name %d is %q, want %q", what, i, got, n)
				ok = false
				return
			}
			for t := range trigramsOf(text[n]) {
				post[t] = append(post[t], uint32(i))
			}
		}
		var ts []uint32
		for t := range post {
			ts = append(ts, t)
			if len(ts)%7 == 0 { // also some that are not there
				if x := (t*2654435761 + 12345) & 0xffffff; post[x] == nil && x != 0xffffff {
					ts = append(ts, x)
				}
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		last := uint32(1 << 30)
		for _, t := range ts {
			if t == last {
				continue
			}
			last = t
			want := post[t]
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if got := ix.PostingList(t); !eqIDs(got, want) {
				s.violate("tri-wrong", "postings", "%s: %d files with %q, want %d: %v, want %v", what, len(got), string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}), len(want), short(got), short(want))
				ok = false
				return
			}
		}
	})
	if err != nil {
		s.violate("tri-wrong", "unreadable", "%s: %v", what, err)
		return false
	}
	return ok
}

func short(a []uint32) []uint32 {
	if len(a) > 12 {
		return a[:12]
	}
	return a
}

func eqIDs(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *streamRun) add(c *StreamCase) {
	s.w.FS.Del("/w/a")
	s.w.FS.Del("/w/b")
	ref, err := buildTri("/w/a", c.Paths, c.Files, false)
	if err != nil {
		s.violate("tri-wrong", "an error without cause", "%v", err)
		return
	}
	undo := s.faultOn(c.Fault)
	got, err := buildTri("/w/b", c.Paths, c.Files, true)
	undo()
	failed := c.Fault != "" && s.w.FaultsF == nil
	s.observe(fmt.Sprint(got, err))
	s.tmpLeft("building an index")
	readErr := -1
	for i, f := range c.Files {
		if f.ErrAt > 0 && readErr < 0 {
			readErr = i
		}
	}
	for i, r := range got {
		if r != ref[i] && !(i == readErr && r != "" && ref[i] != "") {
			s.violate("stream-wrong", "the reason", "file %q: %q, in one piece %q", c.Files[i].Name, r, ref[i])
			return
		}
		if i == readErr && r == "" {
			s.violate("stream-error-lost", "an error of the reader", "the reader of %q failed after %d bytes and the file was added", c.Files[i].Name, c.Files[i].ErrAt-1)
			return
		}
	}
	if err != nil {
		if readErr < 0 && !failed {
			s.violate("stream-wrong", "an error without cause", "%v", err)
		}
		return
	}
	if readErr >= 0 && ref[readErr] == "" {
		return // reported above
	}
	a, b := s.w.FS.NodeF("/w/a"), s.w.FS.NodeF("/w/b")
	if readErr < 0 && (a == nil || b == nil || !bytes.Equal(a.Data(), b.Data())) {
		s.violate("stream-wrong", "the index", "the index differs from the one made of whole files at byte %d", diffAt(b.Data(), a.Data()))
		return
	}
	var names []string
	text := map[string][]byte{}
	for i, f := range c.Files {
		if ref[i] == "" && got[i] == "" {
			names = append(names, f.Name)
			text[f.Name] = streamText(f.Text, f.Gen)
		}
	}
	s.checkTri("/w/b", "the index", names, text)
}

func (s *streamRun) merge(c *StreamCase) {
	for _, f := range []string{"/w/a", "/w/b", "/w/c"} {
		s.w.FS.Del(f)
	}
	r1, err := buildTri("/w/a", c.Paths, c.Files, false)
	if err == nil {
		var r2 []string
		r2, err = buildTri("/w/b", c.Path2, c.Two, false)
		r1 = append(r1, r2...)
	}
	if err != nil {
		s.violate("tri-wrong", "an error without cause", "%v", err)
		return
	}
	undo := s.faultOn(c.Fault)
	err = guarded(func() { cindex.Merge("/w/c", "/w/a", "/w/b") })
	undo()
	s.observe(fmt.Sprint(err))
	if err != nil {
		if c.Fault == "" {
			s.violate("tri-wrong", "an error without cause", "merging: %v", err)
		}
		for _, n := range s.w.FS.NodeF("/tmp").Names() {
			s.w.FS.Del("/tmp/" + n)
		}
		return
	}
	if c.Fault == "" || !strings.HasPrefix(c.Fault, "remove") {
		s.tmpLeft("merging")
	}
	for _, n := range s.w.FS.NodeF("/tmp").Names() {
		s.w.FS.Del("/tmp/" + n)
	}
	text := map[string][]byte{}
	var names []string
	for i, f := range c.Files {
		if r1[i] != "" {
			continue
		}
		hidden := false
		for _, p := range c.Path2 {
			hidden = hidden || strings.HasPrefix(f.Name, p)
		}
		if !hidden {
			names = append(names, f.Name)
			text[f.Name] = streamText(f.Text, f.Gen)
		}
	}
	for i, f := range c.Two {
		if r1[len(c.Files)+i] == "" {
			names = append(names, f.Name)
			text[f.Name] = streamText(f.Text, f.Gen)
		}
	}
	sort.Strings(names)
	if !s.checkTri("/w/c", "the merged index", names, text) {
		return
	}
	// the paths: all of both, without those another one covers
	var all, want []string
	all = append(append(all, c.Paths...), c.Path2...)
	sort.Strings(all)
	for i, p := range all {
		if i > 0 && len(want) > 0 && strings.HasPrefix(p, want[len(want)-1]) {
			continue
		}
		want = append(want, p)
	}
	err = guarded(func() {
		ix := cindex.Open("/w/c")
		defer ix.Close()
		if got := ix.Paths(); !eqLines(got, want) {
			s.violate("tri-wrong", "paths", "merged paths %q, want %q", got, want)
		}
		// and the merged file can be merged again
	})
	if err != nil {
		s.violate("tri-wrong", "unreadable", "%v", err)
	}
}

// ---------------------------------------------------------------- generation

func genStreamText(r *zsim.Rng, deep bool, unit int) (text, gen string) {
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return genText(r, r.Intn(12), r.Intn(2) == 0), ""
	case 5:
		return "", fmt.Sprintf("text:%d:%d:%d", r.U64()%1e9, r.Log(10, 3000), r.Intn(2))
	case 6:
		sz := int(r.Log(int64(unit)-300, int64(unit)*3))
		return "", fmt.Sprintf("huge:%d:%d:%d", r.U64()%1e9, sz, unit)
	case 7:
		return []string{"", "\n", "\n\n", "foo", "foo\n", "\nfoo", "foo\n\n", "é", "\r\n", "foo\nfoo\nfoo"}[r.Intn(10)], ""
	}
	n := 1 + r.Intn(3)
	sz := n*unit + []int{0, 1, -1, 40, -40, unit / 2}[r.Intn(6)]
	return "", fmt.Sprintf("crowd:%d:%d:%d", r.U64()%1e9, sz, unit)
}

var cutPool = []string{"", "one", "few", "log", "line", "near", "tail"}

func genStream(seed uint64, deep, merge bool) *StreamPlan {
	r := zsim.NewRng(seed ^ 0x5eed)
	p := &StreamPlan{}
	n := 4 + r.Intn(8)
	for i := 0; i < n; i++ {
		if merge {
			p.Cases = append(p.Cases, genMerge(r, deep))
			continue
		}
		c := &StreamCase{Seed: r.U64() % 1e9, Cut: cutPool[r.Intn(len(cutPool))], With: r.Intn(3) == 0}
		c.Kind = []string{"reader", "reader", "grep", "grep2", "grep2", "fill", "add"}[r.Intn(7)]
		if c.Kind == "add" {
			genAdd(r, c, deep)
			p.Cases = append(p.Cases, c)
			continue
		}
		c.Text, c.Gen = genStreamText(r, deep, 1<<20)
		q := genQuery(r, nil)
		for q.Bad {
			q = genQuery(r, nil)
		}
		c.Pat, c.I = q.Pat, q.I
		if q.Lit {
			c.Pat = regexp.QuoteMeta(q.Pat)
		}
		for _, f := range "NHCL" {
			if r.Intn([]int{2, 4, 6, 8}[strings.IndexRune("NHCL", f)]) == 0 {
				c.Flags += string(f)
			}
		}
		c.Ctx = []int{0, 1, 2, 2, 3, 5, 20}[r.Intn(7)]
		size := len(streamText(c.Text, c.Gen))
		if r.Intn(4) == 0 {
			c.ErrAt = 1 + r.Intn(size+1)
			if size > 1<<20 && r.Intn(2) == 0 {
				c.ErrAt = 1<<20 + r.Intn(4) - 1
			}
			c.Err = []string{"eio", "eof2"}[r.Intn(2)]
		} else if r.Intn(5) == 0 {
			c.Stop = 1 + r.Intn(5)
			c.Fail = r.Intn(2) == 0
		}
		p.Cases = append(p.Cases, c)
	}
	return p
}

func genAdd(r *zsim.Rng, c *StreamCase, deep bool) {
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		f := &TriFile{Name: fmt.Sprintf("f%02d", i), Cut: cutPool[r.Intn(len(cutPool))], With: r.Intn(3) == 0, Seed: r.U64() % 1e9}
		if r.Intn(6) == 0 {
			f.Gen = fmt.Sprintf("bin:%d:%d:0", r.U64()%1e9, r.Log(10, 20000))
		} else {
			f.Text, f.Gen = genStreamText(r, deep, 16384)
		}
		c.Files = append(c.Files, f)
	}
	if r.Intn(4) == 0 {
		f := c.Files[n-1]
		f.ErrAt = 1 + r.Intn(len(streamText(f.Text, f.Gen))+1)
		f.Err = []string{"eio", "eof2"}[r.Intn(2)]
	} else if r.Intn(4) == 0 {
		c.Fault = genTriFault(r)
	}
	c.Cut = ""
}

func genTriFault(r *zsim.Rng) string {
	switch r.Intn(5) {
	case 0:
		return fmt.Sprintf("create:%d", 1+r.Intn(8))
	case 1:
		return fmt.Sprintf("read:%d", 1+r.Intn(6))
	case 2:
		return fmt.Sprintf("write:short:%d", 1+r.Intn(12))
	}
	return fmt.Sprintf("write:%d", 1+r.Intn(12))
}

var mergeRoots = []string{"/a", "/b", "/a/x", "/ab", "/c/d", "/é", "/ê", "/zz", "/c", "/a/y/z", "/b!", "/日本", "/日次"}

func genMerge(r *zsim.Rng, deep bool) *StreamCase {
	c := &StreamCase{Kind: "merge"}
	names := map[string]bool{}
	side := func() ([]string, []*TriFile) {
		var paths []string
		for i := r.Intn(4); i >= 0; i-- {
			paths = append(paths, mergeRoots[r.Intn(len(mergeRoots))])
		}
		sort.Strings(paths)
		var keep []string
		for i, p := range paths {
			if i > 0 && p == paths[i-1] || r.Intn(3) > 0 && len(keep) > 0 && strings.HasPrefix(p, keep[len(keep)-1]) {
				continue
			}
			keep = append(keep, p)
		}
		have := map[string]bool{}
		var fs []*TriFile
		for i := r.Intn(9); i > 0; i-- {
			n := keep[r.Intn(len(keep))] + []string{"", "/f1", "/f2", "/f3", "/g/h", "1", "é", "/ü", "~"}[r.Intn(9)]
			if have[n] {
				continue
			}
			have[n], names[n] = true, true
			f := &TriFile{Name: n}
			f.Text, f.Gen = genStreamText(r, deep, 4096)
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
		return keep, fs
	}
	c.Paths, c.Files = side()
	c.Path2, c.Two = side()
	if r.Intn(6) == 0 {
		c.Fault = genTriFault(r)
	}
	return c
}
