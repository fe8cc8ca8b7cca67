//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// Race says that the race detector is on.
const Race = true

// Hide hides the scheduler's own synchronisation from the race detector, so that
// it only sees the program's.
func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Hide and Unhide are for the stand-ins of sync types.
func Hide()   { runtime.RaceDisable() }
func Unhide() { runtime.RaceEnable() }

// Acquire and Release tell the race detector about synchronisation.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
