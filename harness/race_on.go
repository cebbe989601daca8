//go:build race

package main

import "runtime"

const raceEnabled = true

// raceErrors counts the data races reported so far in this process.
func raceErrors() int { return runtime.RaceErrors() }
