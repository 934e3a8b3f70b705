//go:build go1.22

// Package filepath walks the simulated file system.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/zsim"
	"github.com/hound-search/hound/zsim/shim/os"
)

func Abs(p string) (string, error) { return real.Clean(zsim.Abs(p)), nil }

func EvalSymlinks(p string) (string, error) { return zsim.W.FS.EvalSymlinks(p) }

func names(dir string) ([]string, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	ns, err := f.Readdirnames(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Strings(ns)
	return ns, nil
}

func walk(path string, info fs.FileInfo, fn real.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ns, err := names(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range ns {
		fname := real.Join(path, n)
		fi, err := os.Lstat(fname)
		if err != nil {
			if err := fn(fname, fi, err); err != nil && err != real.SkipDir {
				return err
			}
		} else {
			err = walk(fname, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != real.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func Walk(root string, fn real.WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == real.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == real.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(real.Join(path, e.Name()), e, fn); err != nil {
			if err == real.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

// Glob has the rules of the real one.
func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !hasMeta(dir) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, real.ErrBadPattern
	}
	m, err := Glob(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range m {
		out, err = glob(d, file, out)
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

func glob(dir, pattern string, out []string) ([]string, error) {
	fi, err := os.Stat(dir)
	if err != nil || !fi.IsDir() {
		return out, nil
	}
	d, err := os.Open(dir)
	if err != nil {
		return out, nil
	}
	defer d.Close()
	ns, _ := d.Readdirnames(-1)
	sort.Strings(ns)
	for _, n := range ns {
		ok, err := real.Match(pattern, n)
		if err != nil {
			return out, err
		}
		if ok {
			out = append(out, real.Join(dir, n))
		}
	}
	return out, nil
}
