//go:build go1.21 && race

package vrt

import (
	"runtime"
	"unsafe"
)

const Race = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquireAddr(p *uint64) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func raceReleaseAddr(p *uint64) { runtime.RaceRelease(unsafe.Pointer(p)) }

//go:norace
func raceReleaseMergeAddr(p *uint64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
