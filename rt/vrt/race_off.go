//go:build go1.21 && !race

package vrt

const Race = false

func raceDisable()                   {}
func raceEnable()                    {}
func raceAcquireAddr(p *uint64)      {}
func raceReleaseAddr(p *uint64)      {}
func raceReleaseMergeAddr(p *uint64) {}
