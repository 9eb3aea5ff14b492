// Package simfmt is package fmt with standard output and input simulated.
package simfmt

import (
	real "fmt"

	simos "btrsim/shim/os"
)

func Print(a ...any) (int, error)            { return real.Fprint(simos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return real.Fprintf(simos.Stdout, f, a...) }
func Println(a ...any) (int, error)          { return real.Fprintln(simos.Stdout, a...) }
func Scan(a ...any) (int, error)             { return real.Fscan(simos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return real.Fscanf(simos.Stdin, f, a...) }
func Scanln(a ...any) (int, error)           { return real.Fscanln(simos.Stdin, a...) }
