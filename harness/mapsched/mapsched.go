// Package mapsched lets the explorer decide the order in which the code
// under test ranges over its maps. It has an effect only in builds made with
// the instrumentation overlay (build tag vhook).
package mapsched

import "aqwari.net/xml/verif/mc"

// Sorted makes every range over a map visit its keys in sorted order.
func Sorted() { set(nil) }

// Reversed makes every range over a map visit its keys in reverse order.
func Reversed() {
	set(func(site string, n int) []int {
		out := make([]int, n)
		for i := range out {
			out[i] = n - 1 - i
		}
		return out
	})
}

// Chosen lets t choose the order of every range over a map with at least two
// entries, up to max choices; small maps get every permutation, larger ones
// each choice of first entry and the reverse order.
func Chosen(t *mc.T, max int) {
	left := max
	set(func(site string, n int) []int {
		if n < 2 || left <= 0 {
			return nil
		}
		left--
		if n <= 4 {
			return t.Perm("map order "+site, n)
		}
		out := make([]int, n)
		for i := range out {
			out[i] = i
		}
		k := t.Choose("map order "+site, n+1)
		if k == n {
			for i := range out {
				out[i] = n - 1 - i
			}
		} else {
			out[0], out[k] = out[k], out[0]
		}
		return out
	})
}

// Fixed applies one order to every range: k rotates, negative reverses first.
func Fixed(k int, rev bool) {
	set(func(site string, n int) []int {
		out := make([]int, n)
		for i := range out {
			j := (i + k) % n
			if rev {
				j = n - 1 - j
			}
			out[i] = j
		}
		return out
	})
}
