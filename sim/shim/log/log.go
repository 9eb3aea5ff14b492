// Package simlog is package log writing to the simulated standard error.
package simlog

import (
	"fmt"
	"io"
	real "log"

	"btrsim/simrt"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) {
	if !simrt.Inside() {
		return len(b), nil
	}
	n, e := simrt.Write(2, b)
	if e != 0 {
		return 0, e
	}
	return n, nil
}

var std = real.New(stderr{}, "", real.LstdFlags)

// Reset restores the initial state for a new process.
func resetStd() { std = real.New(stderr{}, "", 0) }

func init() { simrt.OnBoot = append(simrt.OnBoot, resetStd); resetStd() }

func Default() *real.Logger        { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func Writer() io.Writer            { return std.Writer() }
func Flags() int                   { return std.Flags() }
func SetFlags(f int)               { std.SetFlags(f &^ (real.Ldate | real.Ltime | real.Lmicroseconds)) }
func Prefix() string               { return std.Prefix() }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Output(d int, s string) error { return std.Output(d+1, s) }
func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Fatal(v ...any)               { std.Print(v...); simrt.Exit(1) }
func Fatalf(f string, v ...any)    { std.Printf(f, v...); simrt.Exit(1) }
func Fatalln(v ...any)             { std.Println(v...); simrt.Exit(1) }
func Panic(v ...any)               { s := fmt.Sprint(v...); std.Print(s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); std.Print(s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); std.Print(s); panic(s) }
