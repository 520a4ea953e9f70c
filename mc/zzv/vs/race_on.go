//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()    { runtime.RaceDisable() }
func raceEnable()     { runtime.RaceEnable() }
func raceErrors() int { return runtime.RaceErrors() }

//go:norace
func racePtr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

//go:norace
func raceAcquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func raceRelease[T any](p *T) { runtime.RaceRelease(unsafe.Pointer(p)) }

//go:norace
func raceReleaseMerge[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
