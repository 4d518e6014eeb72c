// Package mc is a small explicit, deviation-bounded explorer for Go code.
//
// A harness is a deterministic function of the answers it gets from
// Choose and Free. The explorer enumerates every answer sequence whose
// number of non-default Choose answers (deviations) is within a bound; Free
// choices cost nothing and are always enumerated completely. Executions run
// the real code of /repo; harnesses compare every one with a reference model.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
)

// T is one execution.
type T struct {
	Thorough bool
	prefix   []int
	choices  []int
	arity    []int
	free     []bool
	labels   []string
	cost     int
	bound    int

	input    string
	states   []uint64
	steps    int
	outcomes []uint64
	sample   string
	skipped  bool
	sub      int // executions or comparisons inside this execution
	replay   bool
}

// Violation is what a failing execution reports.
type Violation struct {
	Harness string   `json:"harness"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels,omitempty"`
	Key     string   `json:"key"`
	Message string   `json:"message"`
	Cost    int      `json:"deviations"`
	Kind    string   `json:"kind"`
}

type failure struct{ key, msg string }
type skip struct{}
type divergence struct{ msg string }

func (t *T) choose(label string, n int, free bool) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("choice %q has no alternatives", label)})
	}
	i := len(t.choices)
	c := 0
	if i < len(t.prefix) {
		c = t.prefix[i]
		if c >= n {
			panic(divergence{fmt.Sprintf("choice %d (%s): recorded answer %d, only %d alternatives", i, label, c, n)})
		}
	}
	t.choices = append(t.choices, c)
	t.arity = append(t.arity, n)
	t.free = append(t.free, free)
	t.labels = append(t.labels, label)
	if c != 0 && !free {
		t.cost++
	}
	return c
}

// Choose answers with a number in [0,n). 0 is the default; any other answer
// is one deviation.
func (t *T) Choose(label string, n int) int { return t.choose(label, n, false) }

// Free answers with a number in [0,n); every answer is always explored.
func (t *T) Free(label string, n int) int { return t.choose(label, n, true) }

// Bool is Choose with two alternatives, default false.
func (t *T) Bool(label string) bool { return t.Choose(label, 2) == 1 }

// FreeBool is Free with two alternatives.
func (t *T) FreeBool(label string) bool { return t.Free(label, 2) == 1 }

// Pick chooses one of the strings; the first is the default.
func (t *T) Pick(label string, opts ...string) string { return opts[t.Choose(label, len(opts))] }

// FreePick is Pick at no cost.
func (t *T) FreePick(label string, opts ...string) string { return opts[t.Free(label, len(opts))] }

// Perm chooses a permutation of n elements, the identity by default.
func (t *T) Perm(label string, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	out := make([]int, 0, n)
	for len(rest) > 0 {
		k := 0
		if len(rest) > 1 {
			k = t.Choose(label, len(rest))
		}
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return out
}

// Input names the input of this execution; it identifies known findings and
// counts as a state.
func (t *T) Input(s string) {
	t.input = s
	t.State(s)
	if t.sample == "" {
		t.sample = s
	}
}

// State records that the execution reached a state, given in canonical form.
func (t *T) State(s string) { t.states = append(t.states, Hash(s)) }

// Step counts one transition of the system under test.
func (t *T) Step() { t.steps++ }

// Compared counts additional comparisons of model and implementation.
func (t *T) Compared(n int) { t.sub += n }

// Outcome records an observed outcome; the number of distinct ones shows
// whether the exploration was vacuous.
func (t *T) Outcome(s string) { t.outcomes = append(t.outcomes, Hash(s)) }

// Sample sets the sample text of this execution.
func (t *T) Sample(s string) { t.sample = s }

// Skip abandons an execution whose choices describe no valid input.
func (t *T) Skip() { panic(skip{}) }

// Fail reports a violation found in this execution.
func (t *T) Fail(format string, v ...interface{}) {
	panic(failure{t.input, fmt.Sprintf(format, v...)})
}

// FailKey is Fail with an explicit identification of the failing input.
func (t *T) FailKey(key, format string, v ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, v...)})
}

// Replaying is true when a recorded execution is run on its own.
func (t *T) Replaying() bool { return t.replay }

// Hash is the state hash.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

type result struct {
	t         *T
	violation *Violation
	err       string // divergence: the harness is not deterministic
}

func runOne(h *Harness, prefix []int, bound int, thorough, replay bool) (r result) {
	t := &T{prefix: prefix, bound: bound, Thorough: thorough, replay: replay}
	r.t = t
	defer func() {
		e := recover()
		viol := func(kind, key, msg string) {
			if key == "" {
				key = "choices=" + strings.Trim(strings.ReplaceAll(fmt.Sprint(t.choices), " ", ","), "[]")
			}
			r.violation = &Violation{Harness: h.Name, Choices: append([]int{}, t.choices...),
				Labels: append([]string{}, t.labels...), Key: Key(h.Name, key), Message: msg, Cost: t.cost, Kind: kind}
		}
		switch e := e.(type) {
		case nil:
			if len(t.choices) < len(prefix) {
				r.err = fmt.Sprintf("harness %s: replay of %v made only %d choices", h.Name, prefix, len(t.choices))
			}
		case skip:
			t.skipped = true
		case failure:
			viol("violation", e.key, e.msg)
		case divergence:
			r.err = "harness " + h.Name + ": " + e.msg
		default:
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			viol("panic", t.input, fmt.Sprintf("panic: %v\n%s", e, buf))
		}
	}()
	h.Run(t)
	return
}

// Key makes the identification of a failing input used in replay files and
// the known-findings file: one line, short, and specific to the input.
func Key(harness, input string) string {
	s := strings.Join(strings.Fields(input), " ")
	if len(s) > 100 {
		s = s[:60] + fmt.Sprintf("...%016x", Hash(input))
	}
	return harness + "|" + s
}

// alternatives lists the unexplored siblings of the choices t made after its
// prefix, within the deviation bound.
func (t *T) alternatives() [][]int {
	var out [][]int
	cost := 0
	for i := range t.choices {
		if i >= len(t.prefix) {
			c := cost
			if !t.free[i] {
				c++
			}
			if c <= t.bound {
				for alt := 1; alt < t.arity[i]; alt++ {
					p := make([]int, i+1)
					copy(p, t.choices[:i])
					p[i] = alt
					out = append(out, p)
				}
			}
		}
		if t.choices[i] != 0 && !t.free[i] {
			cost++
		}
	}
	return out
}

// Enumerate lists the choice sequences of f within a deviation bound, in a
// fixed order: fewest deviations first. Executions that f skips are left out.
func Enumerate(bound int, thorough bool, f func(*T)) ([][]int, error) {
	var out [][]int
	h := &Harness{Name: "enumerate", Run: f}
	for b := 0; b <= bound; b++ {
		stack := [][]int{{}}
		for len(stack) > 0 {
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			r := runOne(h, p, b, thorough, false)
			if r.err != "" {
				return nil, fmt.Errorf("%s", r.err)
			}
			if r.violation != nil {
				return nil, fmt.Errorf("%s", r.violation.Message)
			}
			alts := r.t.alternatives()
			for i := len(alts) - 1; i >= 0; i-- {
				stack = append(stack, alts[i])
			}
			if r.t.cost == b && !r.t.skipped {
				out = append(out, append([]int{}, r.t.choices...))
			}
		}
	}
	return out, nil
}

// Rerun repeats one execution of f.
func Rerun(choices []int, thorough bool, f func(*T)) error {
	r := runOne(&Harness{Name: "rerun", Run: f}, choices, 1<<20, thorough, false)
	switch {
	case r.err != "":
		return fmt.Errorf("%s", r.err)
	case r.violation != nil:
		return fmt.Errorf("%s", r.violation.Message)
	case r.t.skipped:
		return fmt.Errorf("skipped")
	}
	return nil
}
