//go:build go1.21 && zzscale

package env

// Scale is the number of blots of a shard, 0 if it is the true one.
const Scale = 256
