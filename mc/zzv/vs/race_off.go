//go:build !race

package vs

import "unsafe"

const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func raceErrors() int { return 0 }

//go:norace
func raceAcquire[T any](p *T) {}

//go:norace
func raceRelease[T any](p *T) {}

//go:norace
func raceReleaseMerge[T any](p *T) {}

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
