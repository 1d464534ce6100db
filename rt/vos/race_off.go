//go:build go1.21 && !race

package vos

func mcopy(dst, src []byte) int { return copy(dst, src) }
func raceRead(p []byte)         {}
func raceWrite(p []byte)        {}
