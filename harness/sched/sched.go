// Package sched runs two functions as two goroutines, of which only one runs
// at any time, and switches between them at chosen statements.
//
// It hands the turn over with plain variables that only functions exempt from
// race detection touch. No step of the scheduler thus orders memory accesses
// as far as the race detector is concerned: accesses of the two functions
// conflict, or not, as if they ran in parallel. The processes that use the
// package run with one processor (GOMAXPROCS), so that the other goroutine
// gets to see the variables.
package sched

import (
	"runtime"
	"time"
)

// Switch tells a thread to hand over before its nth statement (from 1).
type Switch struct{ Thread, At int }

var (
	active   bool
	stolen   bool // a thread was blocked in its turn; both run freely
	cur      int
	count    [2]int
	done     [2]bool
	progress int
	plan     []Switch
	step     int
	recorder *[]int
	switched int
)

//go:norace
func point(site int) {
	if recorder != nil {
		*recorder = append(*recorder, site)
		return
	}
	if !active {
		return
	}
	me := cur
	n := count[me] + 1
	count[me] = n
	progress++
	if step < len(plan) && plan[step].Thread == me && plan[step].At == n {
		step++
		if !done[1-me] {
			switched++
			cur = 1 - me
			wait(me)
		}
	}
}

//go:norace
func wait(me int) {
	spins, seen := 0, -1
	var since time.Time
	for active && cur != me {
		runtime.Gosched()
		if progress != seen {
			seen, spins = progress, 0
			continue
		}
		spins++
		if spins == 5000 {
			since = time.Now()
		}
		if spins > 5000 && spins%1000 == 0 && time.Since(since) > 20*time.Millisecond {
			// it waits for something this thread holds
			stolen, active = true, false
		}
	}
}

//go:norace
func enter(me int) { wait(me) }

//go:norace
func leave(me int) {
	done[me] = true
	if active {
		cur = 1 - me
		if done[1-me] {
			active = false
		}
	}
}

//go:norace
func begin(p []Switch) {
	cur, count, done, progress, plan, step, stolen, switched = 0, [2]int{}, [2]bool{}, 0, p, 0, false, 0
	active = true
}

//go:norace
func outcome() (int, bool) {
	active = false
	return switched, stolen
}

// Run runs a and b, a first, switching as planned, and returns the number of
// switches that happened, apart from the one at the end of a thread, and
// whether one of them had to be run in the turn of the other.
func Run(a, b func(), p []Switch) (int, bool) {
	begin(p)
	end := make(chan bool, 2)
	for i, f := range []func(){a, b} {
		i, f := i, f
		go func() {
			enter(i)
			f()
			leave(i)
			end <- true
		}()
	}
	<-end
	<-end
	return outcome()
}

// Record runs f alone and returns the statements it executes.
//
//go:norace
func Record(f func()) []int {
	var sites []int
	recorder = &sites
	f()
	recorder = nil
	return sites
}
