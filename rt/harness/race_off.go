//go:build go1.21 && !race

package main

const raceBuild = false
