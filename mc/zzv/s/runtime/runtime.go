// Package runtime replaces the standard one in the instrumented tracker.
package runtime

import "github.com/crimist/trakx/zzv/vs"

func Gosched()             { vs.Point("Gosched") }
func NumGoroutine() int    { return 1 }
func Goexit()              { vs.Goexit() }
func GOMAXPROCS(n int) int { return 8 }
func NumCPU() int          { return 8 }
