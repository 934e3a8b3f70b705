//go:build go1.22

// Package flag has one command line per simulated process.
package flag

import (
	real "flag"
	"io"
	"time"

	"github.com/hound-search/hound/zsim"
)

func set() *real.FlagSet {
	p := zsim.CurProc()
	if p == nil {
		return real.CommandLine
	}
	if p.Flags == nil {
		fs := real.NewFlagSet(p.Name, real.ContinueOnError)
		fs.SetOutput(errW{})
		p.Flags = fs
	}
	return p.Flags.(*real.FlagSet)
}

type errW struct{}

func (errW) Write(b []byte) (int, error) { return zsim.Stderr(b) }

var _ io.Writer = errW{}

var Usage = func() { set().PrintDefaults() }

func Parse() {
	if err := set().Parse(zsim.CurProc().Args[1:]); err != nil {
		zsim.Exit(2)
	}
}
func Parsed() bool                                                { return set().Parsed() }
func Arg(i int) string                                            { return set().Arg(i) }
func Args() []string                                              { return set().Args() }
func NArg() int                                                   { return set().NArg() }
func NFlag() int                                                  { return set().NFlag() }
func Lookup(n string) *real.Flag                                  { return set().Lookup(n) }
func Set(n, v string) error                                       { return set().Set(n, v) }
func PrintDefaults()                                              { set().PrintDefaults() }
func Visit(f func(*real.Flag))                                    { set().Visit(f) }
func VisitAll(f func(*real.Flag))                                 { set().VisitAll(f) }
func Bool(n string, v bool, u string) *bool                       { return set().Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)                 { set().BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int                          { return set().Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)                    { set().IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64                    { return set().Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)              { set().Int64Var(p, n, v, u) }
func Uint(n string, v uint, u string) *uint                       { return set().Uint(n, v, u) }
func UintVar(p *uint, n string, v uint, u string)                 { set().UintVar(p, n, v, u) }
func Float64(n string, v float64, u string) *float64              { return set().Float64(n, v, u) }
func String(n, v, u string) *string                               { return set().String(n, v, u) }
func StringVar(p *string, n, v, u string)                         { set().StringVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return set().Duration(n, v, u) }
func Var(v real.Value, n, u string)                               { set().Var(v, n, u) }
func Func(n, u string, f func(string) error)                      { set().Func(n, u, f) }
