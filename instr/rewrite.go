package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Stats counts what was instrumented.
type Stats struct {
	Files, Yields, GoStmts, Sends, Recvs, Selects, MapRanges, ChanRanges, Closes, Makes, Imports, Globals, Inits, Consts int
}

const (
	kRep   = iota // replace a token or range
	kEnd          // insertion after an expression or statement
	kStart        // insertion before one
	kCover        // replace a range, dropping every edit in it
)

type edit struct {
	start, end int // byte offsets in the file
	text       string
	kind       int
	seq        int
}

type pkgRewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *listPkg
	zbase   string
	copied  map[string]string
	stats   *Stats
	newName string
	inits   []string
	site    int
}

type fileRewriter struct {
	*pkgRewriter
	file  *ast.File
	src   []byte
	edits []edit
	skip  map[ast.Node]bool
	recv2 map[ast.Node]bool
	label map[ast.Stmt]*ast.LabeledStmt

	resetNames []string
	resetText  string
}

func (f *fileRewriter) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *fileRewriter) add(a, b int, kind int, text string) {
	f.edits = append(f.edits, edit{a, b, text, kind, len(f.edits)})
}
func (f *fileRewriter) before(p token.Pos, text string) { f.add(f.off(p), f.off(p), kStart, text) }
func (f *fileRewriter) after(p token.Pos, text string)  { f.add(f.off(p), f.off(p), kEnd, text) }
func (f *fileRewriter) rep(a, b token.Pos, text string) { f.add(f.off(a), f.off(b), kRep, text) }
func (f *fileRewriter) cover(a, b token.Pos, text string) {
	f.add(f.off(a), f.off(b), kCover, text)
}

// text is the rewritten text of a source range.
func (f *fileRewriter) text(a, b token.Pos) string { return f.render(f.off(a), f.off(b)) }

func (f *fileRewriter) render(a, b int) string {
	var es []edit
	for _, e := range f.edits {
		if e.start < a || e.end > b {
			continue
		}
		if e.kind == kEnd && e.start == a && a != b || e.kind == kStart && e.start == b && a != b {
			continue
		}
		es = append(es, e)
	}
	// drop what lies in a covered range
	var keep []edit
	for i, e := range es {
		drop := false
		for j, c := range es {
			if i == j || c.kind != kCover || c.seq < e.seq {
				continue
			}
			if e.start >= c.start && e.end <= c.end && !(e.kind == kEnd && e.start == c.start) && !(e.kind == kStart && e.start == c.end) {
				drop = true
				break
			}
		}
		if !drop {
			keep = append(keep, e)
		}
	}
	es = keep
	rank := func(e edit) int {
		switch e.kind {
		case kEnd:
			return 0
		case kStart:
			return 1
		}
		return 2
	}
	sort.SliceStable(es, func(i, j int) bool {
		x, y := es[i], es[j]
		if x.start != y.start {
			return x.start < y.start
		}
		if rank(x) != rank(y) {
			return rank(x) < rank(y)
		}
		if x.kind == kStart {
			return x.seq > y.seq // outer ones were added later
		}
		return x.seq < y.seq
	})
	var sb strings.Builder
	pos := a
	for _, e := range es {
		if e.start < pos {
			continue
		}
		sb.Write(f.src[pos:e.start])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(f.src[pos:b])
	return sb.String()
}

func (p *pkgRewriter) rewrite(files []*ast.File, srcs [][]byte) [][]byte {
	var outs []string
	var frs []*fileRewriter
	for i, af := range files {
		f := &fileRewriter{pkgRewriter: p, file: af, src: srcs[i], skip: map[ast.Node]bool{}, recv2: map[ast.Node]bool{}, label: map[ast.Stmt]*ast.LabeledStmt{}}
		f.run()
		frs = append(frs, f)
		outs = append(outs, f.render(0, len(f.src)))
		p.stats.Files++
	}
	// reset function: re-initialise the package's variables and rerun its init functions
	var sb strings.Builder
	sb.WriteString("\nfunc init() { zsim_.RegisterReset(" + strconv.Quote(p.pkg.ImportPath) + ", zsimReset_) }\n\nfunc zsimReset_() {\n")
	for _, f := range frs {
		for _, fn := range f.resetFuncs() {
			sb.WriteString("\t" + fn + "()\n")
		}
	}
	for _, n := range p.inits {
		sb.WriteString("\t" + n + "()\n")
	}
	sb.WriteString("}\n")
	res := make([][]byte, len(outs))
	for i, o := range outs {
		if i == 0 {
			o += sb.String()
		}
		o += "\nvar _ = zsim_.Y\n" + frs[i].resetText
		res[i] = []byte(o)
	}
	return res
}

func (f *fileRewriter) resetFuncs() []string { return f.resetNames }

func (f *fileRewriter) run() {
	// package clause + core import
	f.rep(f.file.Name.Pos(), f.file.Name.End(), f.newName+"; import zsim_ \""+f.zbase+"\"")
	// imports
	for _, im := range f.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to := ""
		if shims[path] {
			to = f.zbase + "/shim/" + path
		} else if c := f.copied[path]; c != "" && f.pkg.ImportPath != path {
			to = c
		}
		if to != "" {
			f.rep(im.Path.Pos(), im.Path.End(), strconv.Quote(to))
			f.stats.Imports++
		}
	}
	// statement walk, post-order
	f.walk(f.file)
	// globals and init functions
	for di, d := range f.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				name := fmt.Sprintf("zsimInit_%d_%d", f.seqFile(), di)
				f.rep(d.Name.Pos(), d.Name.End(), name)
				f.inits = append(f.inits, name)
				f.stats.Inits++
			}
			if d.Recv == nil && d.Name.Name == "main" && f.pkg.Name == "main" {
				f.rep(d.Name.Pos(), d.Name.End(), "Main_")
			}
		case *ast.GenDecl:
			if d.Tok == token.CONST && *fNpost > 0 && strings.HasSuffix(f.pkg.ImportPath, "codesearch/index") {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Names) == 1 && vs.Names[0].Name == "npost" && len(vs.Values) == 1 {
						f.rep(vs.Values[0].Pos(), vs.Values[0].End(), strconv.Itoa(*fNpost))
						f.stats.Consts++
					}
				}
			}
			if d.Tok == token.VAR {
				f.global(d)
			}
		}
	}
}

var fileSeq = map[*fileRewriter]int{}

func (f *fileRewriter) seqFile() int {
	if n, ok := fileSeq[f]; ok {
		return n
	}
	n := len(fileSeq) + 1
	fileSeq[f] = n
	return n
}

func isEmbed(d *ast.GenDecl, s *ast.ValueSpec) bool {
	for _, cg := range []*ast.CommentGroup{d.Doc, s.Doc} {
		if cg == nil {
			continue
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}

// global emits code that re-initialises package variables at a simulated
// process start. Regexps and other values compiled once are left alone when the
// initialiser is a call to a pure constructor, which keeps restarts cheap.
func (f *fileRewriter) global(d *ast.GenDecl) {
	for _, s := range d.Specs {
		vs := s.(*ast.ValueSpec)
		if isEmbed(d, vs) {
			continue
		}
		var names []string
		blank := true
		for _, n := range vs.Names {
			names = append(names, n.Name)
			if n.Name != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		fn := fmt.Sprintf("zsimVar_%d_%d", f.seqFile(), len(f.resetNames))
		if len(vs.Values) == 0 {
			t := f.render(f.off(vs.Type.Pos()), f.off(vs.Type.End()))
			var as string
			for _, n := range names {
				if n != "_" {
					as += fmt.Sprintf(" { var z %s; %s = z };", t, n)
				}
			}
			f.resetText += fmt.Sprintf("\nfunc %s() {%s }\n", fn, as)
		} else {
			v := f.render(f.off(vs.Values[0].Pos()), f.off(vs.Values[len(vs.Values)-1].End()))
			if strings.HasPrefix(v, "regexp.MustCompile") || strings.HasPrefix(v, "errors.New") {
				continue
			}
			f.resetText += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), v)
		}
		f.resetNames = append(f.resetNames, fn)
		f.stats.Globals++
	}
}
