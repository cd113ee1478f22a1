//go:build race

package main

import "runtime"

// races is how many races were reported so far.
func races() int { return runtime.RaceErrors() }
