// Package simlog stands in for package log.
package simlog

import (
	"fmt"
	"io"

	"verif.local/simkit/simos"
)

// Logger is a simulated log.Logger.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{w: simos.Stderr}

// New makes a logger.
func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }

// Default is the standard logger.
func Default() *Logger { return std }

func (l *Logger) put(s string) error {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := l.w.Write([]byte(l.prefix + s))
	return err
}

func (l *Logger) Output(_ int, s string) error      { return l.put(s) }
func (l *Logger) Print(a ...interface{})            { l.put(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { l.put(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...interface{})          { l.put(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.put(fmt.Sprint(a...)); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.put(fmt.Sprintf(f, a...)); simos.Exit(1) }
func (l *Logger) Fatalln(a ...interface{})          { l.put(fmt.Sprintln(a...)); simos.Exit(1) }
func (l *Logger) Panic(a ...interface{})            { s := fmt.Sprint(a...); l.put(s); panic(s) }
func (l *Logger) Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); l.put(s); panic(s) }
func (l *Logger) Panicln(a ...interface{})          { s := fmt.Sprintln(a...); l.put(s); panic(s) }
func (l *Logger) SetFlags(f int)                    { l.flags = f }
func (l *Logger) SetPrefix(s string)                { l.prefix = s }
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Writer() io.Writer                 { return l.w }
func (l *Logger) Flags() int                        { return l.flags }
func (l *Logger) Prefix() string                    { return l.prefix }

func Output(d int, s string) error      { return std.Output(d, s) }
func Print(a ...interface{})            { std.Print(a...) }
func Printf(f string, a ...interface{}) { std.Printf(f, a...) }
func Println(a ...interface{})          { std.Println(a...) }
func Fatal(a ...interface{})            { std.Fatal(a...) }
func Fatalf(f string, a ...interface{}) { std.Fatalf(f, a...) }
func Fatalln(a ...interface{})          { std.Fatalln(a...) }
func Panic(a ...interface{})            { std.Panic(a...) }
func Panicf(f string, a ...interface{}) { std.Panicf(f, a...) }
func Panicln(a ...interface{})          { std.Panicln(a...) }
func SetFlags(f int)                    { std.SetFlags(f) }
func SetPrefix(s string)                { std.SetPrefix(s) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Writer() io.Writer                 { return std.w }
func Flags() int                        { return std.flags }
func Prefix() string                    { return std.prefix }

// Reset puts the standard logger back to its initial state.
func Reset() { std = &Logger{w: simos.Stderr} }
