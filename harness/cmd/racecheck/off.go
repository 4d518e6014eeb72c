//go:build !race

package main

const raceEnabled = false

func races() int { return 0 }
