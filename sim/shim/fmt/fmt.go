//go:build go1.22

// Package fmt sends what is printed to the simulated standard output.
package fmt

import (
	real "fmt"

	"github.com/hound-search/hound/zsim"
)

func Print(a ...any) (int, error)            { return zsim.Stdout([]byte(real.Sprint(a...))) }
func Println(a ...any) (int, error)          { return zsim.Stdout([]byte(real.Sprintln(a...))) }
func Printf(f string, a ...any) (int, error) { return zsim.Stdout([]byte(real.Sprintf(f, a...))) }
