// Package slog stands in for the package-level functions of package log.
package slog

import (
	"io"

	"fmt"

	"verifsim/simrt"
	"verifsim/sos"
)

func out(s string) { std.Output(3, s) }

// Reset restores the standard logger between runs.
func Reset() { std = &Logger{out: stderr{}, flags: LstdFlags} }

// stderr is the current standard error.
type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return sos.Stderr.Write(b) }

func Output(d int, s string) error { return std.Output(d+1, s) }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func SetFlags(f int)               { std.SetFlags(f) }
func Prefix() string               { return std.Prefix() }
func Flags() int                   { return std.Flags() }
func Writer() io.Writer            { return std.Writer() }

func Print(a ...interface{})            { out(fmt.Sprint(a...)) }
func Println(a ...interface{})          { out(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) { out(fmt.Sprintf(f, a...)) }
func Fatal(a ...interface{})            { out(fmt.Sprint(a...)); sos.Exit(1) }
func Fatalln(a ...interface{})          { out(fmt.Sprintln(a...)); sos.Exit(1) }
func Fatalf(f string, a ...interface{}) { out(fmt.Sprintf(f, a...)); sos.Exit(1) }
func Panic(a ...interface{})            { s := fmt.Sprint(a...); out(s); panic(s) }
func Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); out(s); panic(s) }

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func Panicln(a ...interface{}) { s := fmt.Sprintln(a...); out(s); panic(s) }

// Logger has the interface and the locking of log.Logger: what it writes is
// formatted first and then written in one call, with its lock held.  It does
// not print times.
type Logger struct {
	mu     simrt.Mutex
	out    io.Writer
	prefix string
	flags  int
}

func New(out io.Writer, prefix string, flags int) *Logger {
	return &Logger{out: out, prefix: prefix, flags: flags}
}

var std = &Logger{out: stderr{}, flags: LstdFlags}

func Default() *Logger { return std }

func (l *Logger) Output(depth int, s string) error {
	s = l.prefix + s
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write([]byte(s))
	return err
}

func (l *Logger) SetOutput(w io.Writer)             { l.mu.Lock(); l.out = w; l.mu.Unlock() }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) SetFlags(f int)                    { l.flags = f }
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) Flags() int                        { return l.flags }
func (l *Logger) Writer() io.Writer                 { return l.out }
func (l *Logger) Print(a ...interface{})            { l.Output(2, fmt.Sprint(a...)) }
func (l *Logger) Println(a ...interface{})          { l.Output(2, fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { l.Output(2, fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.Print(a...); sos.Exit(1) }
func (l *Logger) Fatalln(a ...interface{})          { l.Println(a...); sos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.Printf(f, a...); sos.Exit(1) }
func (l *Logger) Panic(a ...interface{})            { s := fmt.Sprint(a...); l.Print(s); panic(s) }
func (l *Logger) Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); l.Print(s); panic(s) }
func (l *Logger) Panicln(a ...interface{})          { s := fmt.Sprintln(a...); l.Print(s); panic(s) }
