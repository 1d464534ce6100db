//go:build go1.21 && zzattic

package main

import (
	"github.com/go-air/dupi/attic"
	"github.com/go-air/dupi/attic/ibloom"
)

func init() {
	newPosts = func(f ibloom.Filter, ones bool) posts { return zp{attic.ZzNew(f, ones)} }
}

type zp struct{ attic.ZzPosts }

func (z zp) union(o posts) posts { return zp{z.Union(o.(zp).ZzPosts)} }
func (z zp) inter(o posts) posts { return zp{z.Inter(o.(zp).ZzPosts)} }
