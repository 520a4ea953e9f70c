// Package fmt prints to the standard output of shim os.
package fmt

import (
	real "fmt"

	"github.com/crimist/trakx/zzv/s/os"
)

func Print(a ...any) (int, error)                 { return real.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)               { return real.Fprintln(os.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return real.Fprintf(os.Stdout, format, a...) }
