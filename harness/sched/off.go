//go:build !vhook

package sched

// Controlled is false: the code under test has no scheduling points.
const Controlled = false
