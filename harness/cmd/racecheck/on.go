//go:build race

package main

import "runtime"

const raceEnabled = true

func races() int { return runtime.RaceErrors() }
