//go:build race

package main

var tracing struct {
	on    bool
	fresh bool
	seen  [1 << 16]bool
}
