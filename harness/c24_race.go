//go:build race

package main

import "runtime"

// raceErrors is the number of data races reported so far.
func raceErrors() int { return runtime.RaceErrors() }
