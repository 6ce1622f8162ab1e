//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// What happens between hide and show orders nothing for the race detector;
// acq, rel and relMerge do, exactly as package sync's own locks.
func hide()            { runtime.RaceDisable() }
func show()            { runtime.RaceEnable() }
func acq(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func rel(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func relMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
