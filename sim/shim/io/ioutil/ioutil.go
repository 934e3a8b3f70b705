//go:build go1.22

package ioutil

import (
	"io/fs"

	"github.com/hound-search/hound/zsim/shim/os"
)

func ReadFile(p string) ([]byte, error)                    { return os.ReadFile(p) }
func WriteFile(p string, b []byte, perm fs.FileMode) error { return os.WriteFile(p, b, perm) }
func TempFile(dir, pat string) (*os.File, error)           { return os.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)              { return os.MkdirTemp(dir, pat) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(p)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
