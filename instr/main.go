// Command instr prepares the deterministic-simulation build of the code under
// test. It reads every non-test Go file of the main module in the repository's
// working tree, rewrites it so that each source of nondeterminism goes through
// the simulator (package zsim and the shims of standard packages), and writes a
// build overlay. Nothing in the repository is changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	DepOnly    bool
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

// packages that are replaced by shims (the shim directory is sim/shim/<path>)
var shims = map[string]bool{}

var (
	fRepo  = flag.String("repo", "/repo", "repository working tree")
	fSim   = flag.String("sim", "/verif/sim", "simulator sources")
	fOut   = flag.String("out", "/verif/.build", "output directory")
	fNpost = flag.Int("npost", 4096, "scaled-down size of the in-memory posting buffer (0: leave)")
)

func goCmd(dir string, args ...string) []byte {
	c := exec.Command("go", args...)
	c.Dir = dir
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		log.Fatalf("go %v: %v\n%s", args, err, eb.String())
	}
	return out
}

func must(err error) {
	if err != nil {
		log.Fatal(err)
	}
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("instr: ")
	flag.Parse()
	repo, sim, out := *fRepo, *fSim, *fOut
	ov := filepath.Join(out, "ov")
	must(os.RemoveAll(ov))
	must(os.MkdirAll(ov, 0o755))

	// a copy of go.mod at a language version with generics, and of go.sum
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "go ") {
			l = "go 1.21"
		}
		lines = append(lines, l)
	}
	must(os.WriteFile(filepath.Join(out, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644))
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(out, "go.sum"), gs, 0o644))
	modfile := filepath.Join(out, "go.mod")

	replace := map[string]string{}

	// embedded web assets: ui/.build/ui is a build product; use the assets
	if _, err := os.Stat(filepath.Join(repo, "ui/.build/ui")); err != nil {
		base := filepath.Join(repo, "ui/assets")
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				rel, _ := filepath.Rel(base, p)
				replace[filepath.Join(repo, "ui/.build/ui", rel)] = p
			}
			return nil
		})
	}
	baseOv := filepath.Join(out, "base_overlay.json")
	writeOverlay(baseOv, replace)

	// list packages with export data
	dec := json.NewDecoder(bytes.NewReader(goCmd(repo, "list", "-modfile", modfile, "-overlay", baseOv,
		"-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,DepOnly,Module", "./...")))
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	modPath := ""
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
	}
	zbase := modPath + "/zsim"

	// shim packages present
	shimRoot := filepath.Join(sim, "shim")
	filepath.Walk(shimRoot, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(shimRoot, filepath.Dir(p))
			shims[rel] = true
		}
		return nil
	})
	var extra []string
	for s := range shims {
		if pkgs[s] == nil && !strings.Contains(s, ".") {
			extra = append(extra, s)
		}
	}
	if len(extra) > 0 {
		sort.Strings(extra)
		args := append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard"}, extra...)
		dec := json.NewDecoder(bytes.NewReader(goCmd(repo, args...)))
		for {
			var p listPkg
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else if err != nil {
				log.Fatal(err)
			}
			q := p
			if pkgs[p.ImportPath] == nil {
				pkgs[p.ImportPath] = &q
			}
		}
	}

	// simulator sources
	filepath.Walk(sim, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(sim, p)
			replace[filepath.Join(repo, "zsim", rel)] = p
		}
		return nil
	})

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	// generated alias files for the shims
	for s := range shims {
		if strings.Contains(s, ".") {
			continue
		}
		src := genShim(fset, imp, s, filepath.Join(shimRoot, s))
		f := filepath.Join(ov, "shim_"+strings.ReplaceAll(s, "/", "_")+".go")
		must(os.WriteFile(f, src, 0o644))
		replace[filepath.Join(repo, "zsim/shim", s, "zz_gen.go")] = f
	}

	// external packages that do I/O and are built as rewritten copies
	copied := map[string]string{}
	for _, p := range order {
		if p.ImportPath == "golang.org/x/mod/sumdb/dirhash" {
			copied[p.ImportPath] = zbase + "/dep/dirhash"
		}
	}

	var stats Stats
	for _, p := range order {
		_, isCopy := copied[p.ImportPath]
		if !(p.Module != nil && p.Module.Main) && !isCopy {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(path)
			must(err)
			af, err := parser.ParseFile(fset, path, b, parser.ParseComments)
			must(err)
			files = append(files, af)
			srcs = append(srcs, b)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Uses:       map[*ast.Ident]types.Object{},
			Defs:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			log.Fatalf("type check %s: %v", p.ImportPath, err)
		}
		dirOut := p.Dir
		pkgName := p.Name
		if isCopy {
			dirOut = filepath.Join(repo, "zsim/dep", p.Name)
		} else if p.Name == "main" {
			base := filepath.Base(p.Dir)
			dirOut = filepath.Join(repo, "zsim/prog", base)
			pkgName = "prog_" + strings.ReplaceAll(base, "-", "_")
		}
		pr := &pkgRewriter{
			fset: fset, info: info, pkg: p, zbase: zbase, copied: copied, stats: &stats, newName: pkgName,
		}
		if src := accessor(p.ImportPath, modPath, pkgName, zbase, files, info); src != "" {
			f := filepath.Join(ov, "zz_access_"+p.Name+".go")
			must(os.WriteFile(f, []byte(src), 0o644))
			replace[filepath.Join(dirOut, "zz_access.go")] = f
		}
		outs := pr.rewrite(files, srcs)
		for i, o := range outs {
			name := strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath), "/", "_") + "__" + p.GoFiles[i]
			f := filepath.Join(ov, strings.TrimPrefix(name, "_"))
			if _, err := parser.ParseFile(token.NewFileSet(), f, o, 0); err != nil {
				os.WriteFile(f, o, 0o644)
				log.Fatalf("rewritten file does not parse: %v", err)
			}
			must(os.WriteFile(f, o, 0o644))
			replace[filepath.Join(dirOut, p.GoFiles[i])] = f
		}
	}
	writeOverlay(filepath.Join(out, "overlay.json"), replace)
	b, _ := json.MarshalIndent(&stats, "", " ")
	must(os.WriteFile(filepath.Join(out, "instr_stats.json"), b, 0o644))
}

func writeOverlay(path string, rep map[string]string) {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

// ---------------------------------------------------------------- shims

func genShim(fset *token.FileSet, imp types.Importer, path, dir string) []byte {
	pkg, err := imp.Import(path)
	must(err)
	own := map[string]bool{}
	skipAll := false
	allow := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		af, err := parser.ParseFile(token.NewFileSet(), e.Name(), b, parser.ParseComments)
		must(err)
		for _, cg := range af.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//zsim:only ") {
					skipAll = true
					for _, w := range strings.Fields(c.Text)[1:] {
						allow[w] = true
					}
				}
			}
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by instr. DO NOT EDIT.\n\npackage %s\n\nimport real_ %q\n\n", pkg.Name(), path)
	n := 0
	for _, name := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(name)
		if !o.Exported() || own[name] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real_.%s\n", name, name)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real_.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real_.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			if skipAll && !allow[name] {
				continue
			}
			fmt.Fprintf(&b, "var %s = real_.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		for _, name := range pkg.Scope().Names() {
			o := pkg.Scope().Lookup(name)
			if _, ok := o.(*types.Func); ok && o.Exported() && o.Type().(*types.Signature).TypeParams().Len() == 0 {
				fmt.Fprintf(&b, "var _ = real_.%s\n", name)
				break
			}
			if tn, ok := o.(*types.TypeName); ok && o.Exported() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var _ *real_.%s\n", name)
				break
			}
		}
	}
	src, err := format.Source(b.Bytes())
	must(err)
	return src
}

func init() {
	// the go command must never reach for the network or another toolchain
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
}

// accessor is a file that lets the harness call the line searcher of package
// index, which is not exported, if it is there.
func accessor(path, mod, name, zbase string, files []*ast.File, info *types.Info) string {
	if path != mod+"/index" {
		return ""
	}
	var scope *types.Scope
	for _, o := range info.Defs {
		if o != nil && o.Pkg() != nil {
			scope = o.Pkg().Scope()
			break
		}
	}
	if scope == nil {
		return ""
	}
	tn, _ := scope.Lookup("grepper").(*types.TypeName)
	if tn == nil {
		return ""
	}
	ms := types.NewMethodSet(types.NewPointer(tn.Type()))
	make := "new(grepper)"
	if fn, _ := scope.Lookup("newGrepper").(*types.Func); fn != nil {
		sig := fn.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			return ""
		}
		make = "newGrepper()"
	} else if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
		return ""
	}
	out := "package " + name + "\n\nimport \"" + zbase + "\"\n\nfunc init() {\n\tzsim.Hooks[\"index.grepper\"] = func() map[string]interface{} {\n\t\tg := " + make + "\n\t\t_ = g\n\t\treturn map[string]interface{}{"
	for _, m := range []string{"grep", "grep2", "fillFrom"} {
		if s := ms.Lookup(tn.Pkg(), m); s != nil {
			out += "\n\t\t\t\"" + m + "\": g." + m + ","
		}
	}
	return out + "\n\t\t}\n\t}\n}\n"
}
