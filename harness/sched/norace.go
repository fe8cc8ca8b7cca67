//go:build !race

package sched

import "unsafe"

// Race says that the race detector is on.
const Race = false

func hide()   {}
func unhide() {}

func Hide()   {}
func Unhide() {}

func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
