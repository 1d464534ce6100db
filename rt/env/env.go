//go:build go1.21

// Package env is what the harness sees of the environment: in the instrumented
// build the file system model and the controlled scheduler, in the plain build
// the real file system and the Go runtime.
package env

import (
	"crypto/sha256"
	"encoding/hex"
	"sort"
	"strings"
)

// LoopMax bounds the loop iterations of one run (instrumented build).
var LoopMax int64 = 300_000_000

// W is the scratch directory of the current case.
func W() string { return work }

// P is a path in the scratch directory.
func P(rel string) string { return work + "/" + rel }

// Norm hides the place of the scratch directory.
func Norm(s string) string {
	if work == "/w" || work == "" {
		return s
	}
	return strings.ReplaceAll(s, work, "/w")
}

// Hash is a short digest of a snapshot.
func Hash(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		h.Write([]byte(Norm(k)))
		h.Write([]byte{0})
		h.Write([]byte(m[k]))
		h.Write([]byte{0})
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func Diff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k)
		}
	}
	sort.Strings(d)
	return d
}
