//go:build go1.22

// Package log writes to the simulated standard error and ends the simulated
// process where the real one would end.
package log

import (
	"fmt"
	"io"
	real "log"
	"os"

	"github.com/hound-search/hound/zsim"
)

type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

type stderrW struct{}

func (stderrW) Write(b []byte) (int, error) { return zsim.Stderr(b) }

var std = &Logger{w: stderrW{}, flags: real.LstdFlags}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix, flag} }
func Default() *Logger                                 { return std }

func (l *Logger) Output(d int, s string) error {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := l.w.Write([]byte(l.prefix + s))
	return err
}
func (l *Logger) Print(v ...any)            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); zsim.FatalExit(s) }
func (l *Logger) Fatalf(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	zsim.FatalExit(s)
}
func (l *Logger) Fatalln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); zsim.FatalExit(s) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) Flags() int                { return l.flags }
func (l *Logger) SetFlags(f int)            { l.flags = f }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Writer() io.Writer         { return l.w }
func (l *Logger) SetOutput(w io.Writer)     { l.w = w }

func Output(d int, s string) error { return std.Output(d, s) }
func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func Flags() int                   { return std.flags }
func SetFlags(f int)               { std.flags = f }
func Prefix() string               { return std.prefix }
func SetPrefix(p string)           { std.prefix = p }
func Writer() io.Writer            { return std.w }
func SetOutput(w io.Writer)        { std.w = w }

var _ = os.Stderr
