package mc

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Harness is one closed driver.
type Harness struct {
	Name   string
	About  string // alphabet and oracle, for the evidence file
	Bounds [2]int // deviation bound in the quick and the thorough tier
	Weight float64
	Run    func(*T)
	// Setup runs once per process before the first execution.
	Setup func() error
	// ThoroughOnly harnesses are not part of the quick tier.
	ThoroughOnly bool
	// Serial harnesses run in one child only.
	Serial bool
	// Slack multiplies the CPU time after which an execution counts as hung.
	Slack int
}

// Property is a set of harnesses deciding one property.
type Property struct {
	ID          string
	Harnesses   []Harness
	Assumptions []string
	// Budgets in seconds of exploration, quick and thorough.
	Quick, Thorough int
	// Extra coverage facts for the evidence file.
	Extra map[string]interface{}
	// Before prepares the scratch directory (MC_SCRATCH), once per check. It
	// returns facts for the evidence file. The time it takes does not count.
	Before func(scratch string, thorough bool) (map[string]interface{}, error)
}

type job struct {
	Harness  string  `json:"h"`
	Prefixes [][]int `json:"p"`
	Bound    int     `json:"b"`
	SliceMS  int     `json:"s"`
	Thorough bool    `json:"t"`
	Replay   bool    `json:"r"`
	Skip     [][]int `json:"k,omitempty"`
}

type reply struct {
	Execs      int64        `json:"e"`
	Skipped    int64        `json:"sk"`
	Choices    int64        `json:"c"`
	Steps      int64        `json:"st"`
	Sub        int64        `json:"sub"`
	MaxDepth   int          `json:"d"`
	States     []uint64     `json:"S,omitempty"`
	Outcomes   []uint64     `json:"O,omitempty"`
	Sample     []string     `json:"sm,omitempty"`
	Violations []*Violation `json:"v,omitempty"`
	Rest       [][]int      `json:"r,omitempty"`
	Err        string       `json:"err,omitempty"`
}

const slotSize = 4096

// Main runs the command line shared by all check binaries:
//
//	BIN check ID        explore, write the evidence, report
//	BIN replay FILE     run one recorded execution
func Main(props ...Property) {
	if len(os.Args) >= 2 && os.Args[1] == "child" {
		child(props)
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID | replay FILE")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		only := fs.String("only", "", "run only this harness")
		budget := fs.Int("budget", 0, "seconds")
		keep := fs.Int("max", 1, "stop after this many violations")
		fs.Parse(os.Args[3:])
		for i := range props {
			if props[i].ID == os.Args[2] {
				os.Exit(check(verif, &props[i], *only, *budget, *keep))
			}
		}
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	case "replay":
		var f struct {
			Property  string
			Thorough  bool
			Violation *Violation
		}
		data, err := os.ReadFile(os.Args[2])
		if err == nil {
			err = json.Unmarshal(data, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i := range props {
			if props[i].ID == f.Property {
				if props[i].Before != nil {
					dir, err := os.MkdirTemp("", "mc-"+props[i].ID+"-")
					if err == nil {
						defer os.RemoveAll(dir)
						os.Setenv("TMPDIR", dir)
						os.Setenv("MC_SCRATCH", dir)
						_, err = props[i].Before(dir, f.Thorough)
					}
					if err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(2)
					}
				}
				for j := range props[i].Harnesses {
					h := &props[i].Harnesses[j]
					if h.Name == f.Violation.Harness {
						if h.Setup != nil {
							if err := h.Setup(); err != nil {
								fmt.Fprintln(os.Stderr, err)
								os.Exit(2)
							}
						}
						r := runOne(h, f.Violation.Choices, 1000, f.Thorough, true)
						for k, l := range r.t.labels {
							if r.t.choices[k] != 0 {
								fmt.Printf("  %s = %d of %d\n", l, r.t.choices[k], r.t.arity[k])
							}
						}
						fmt.Println("input:", r.t.input)
						if r.violation != nil {
							fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", f.Property, os.Args[2], r.violation.Message)
							if dir := os.Getenv("MC_SCRATCH"); dir != "" && props[i].Before != nil {
								os.RemoveAll(dir)
							}
							os.Exit(1)
						}
						fmt.Println("no violation", r.err)
						return
					}
				}
			}
		}
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
}

// ---- child ----

func child(props []Property) {
	debug.SetMaxStack(128 << 20)
	debug.SetTraceback("single")
	slot, err := os.OpenFile(os.Args[2], os.O_RDWR, 0)
	if err != nil {
		os.Exit(3)
	}
	out := os.NewFile(3, "replies")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	seenS := map[string]map[uint64]bool{}
	seenO := map[string]map[uint64]bool{}
	setup := map[string]bool{}
	buf := make([]byte, slotSize)
	seq := 0
	for {
		var j job
		if err := in.Decode(&j); err != nil {
			return
		}
		var h *Harness
		for i := range props {
			for k := range props[i].Harnesses {
				if props[i].ID+"/"+props[i].Harnesses[k].Name == j.Harness {
					h = &props[i].Harnesses[k]
				}
			}
		}
		rep := reply{}
		if h == nil {
			rep.Err = "unknown harness " + j.Harness
		} else if h.Setup != nil && !setup[j.Harness] {
			if err := h.Setup(); err != nil {
				rep.Err = "setup: " + err.Error()
			}
			setup[j.Harness] = true
		}
		ss, so := seenS[j.Harness], seenO[j.Harness]
		if ss == nil {
			ss, so = map[uint64]bool{}, map[uint64]bool{}
			seenS[j.Harness], seenO[j.Harness] = ss, so
		}
		stack := j.Prefixes
		start := time.Now()
		keys := map[string]bool{}
		for len(stack) > 0 && rep.Err == "" {
			if rep.Execs > 0 && time.Since(start) > time.Duration(j.SliceMS)*time.Millisecond {
				break
			}
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if contains(j.Skip, p) {
				continue
			}
			seq++
			writeSlot(slot, buf, seq, p)
			r := runOne(h, p, j.Bound, j.Thorough, j.Replay)
			t := r.t
			if r.err != "" {
				rep.Err = r.err
				break
			}
			rep.Execs++
			if t.skipped {
				rep.Skipped++
			}
			rep.Choices += int64(len(t.choices) - len(t.prefix) + 1)
			rep.Steps += int64(t.steps)
			rep.Sub += int64(t.sub)
			if len(t.choices) > rep.MaxDepth {
				rep.MaxDepth = len(t.choices)
			}
			for _, x := range t.states {
				if !ss[x] {
					ss[x] = true
					rep.States = append(rep.States, x)
				}
			}
			for _, x := range t.outcomes {
				if !so[x] {
					so[x] = true
					rep.Outcomes = append(rep.Outcomes, x)
				}
			}
			if t.sample != "" && len(rep.Sample) < 2 && !t.skipped {
				s := t.sample
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				rep.Sample = append(rep.Sample, s)
			}
			if r.violation != nil && !keys[r.violation.Key] && len(rep.Violations) < 50 {
				keys[r.violation.Key] = true
				rep.Violations = append(rep.Violations, r.violation)
			}
			if !j.Replay {
				alts := t.alternatives()
				// deepest alternatives last, so that they are popped first
				stack = append(stack, alts...)
			}
		}
		rep.Rest = stack
		seq++
		writeSlot(slot, buf, -seq, nil)
		if err := enc.Encode(rep); err != nil {
			return
		}
		if w.Flush() != nil {
			return
		}
	}
}

func contains(set [][]int, p []int) bool {
next:
	for _, s := range set {
		if len(s) != len(p) {
			continue
		}
		for i := range s {
			if s[i] != p[i] {
				continue next
			}
		}
		return true
	}
	return false
}

func writeSlot(f *os.File, buf []byte, seq int, p []int) {
	b := buf[:0]
	b = strconv.AppendInt(b, int64(seq), 10)
	for _, x := range p {
		b = append(b, ' ')
		b = strconv.AppendInt(b, int64(x), 10)
	}
	b = append(b, '\n')
	f.WriteAt(b, 0)
}

func readSlot(f *os.File) (seq int, p []int) {
	buf := make([]byte, 1<<16)
	n, _ := f.ReadAt(buf, 0)
	line := string(buf[:n])
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	for i, s := range strings.Fields(line) {
		x, _ := strconv.Atoi(s)
		if i == 0 {
			seq = x
		} else {
			p = append(p, x)
		}
	}
	return
}

// ---- parent ----

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	dec    *json.Decoder
	out    *os.File
	slot   *os.File
	stderr *os.File
}

func startWorker(dir string, n int) (*worker, error) {
	w := &worker{}
	var err error
	if w.slot, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("slot%d", n)), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0644); err != nil {
		return nil, err
	}
	if w.stderr, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("stderr%d", n)), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0644); err != nil {
		return nil, err
	}
	r, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w.cmd = exec.Command(self, "child", w.slot.Name())
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stderr = w.stderr
	gmp := "GOMAXPROCS=2"
	if v := os.Getenv("MC_CHILD_GOMAXPROCS"); v != "" {
		gmp = "GOMAXPROCS=" + v
	}
	w.cmd.Env = append(os.Environ(), gmp, "GOMEMLIMIT=2GiB")
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.out = r
	w.enc = json.NewEncoder(w.in)
	w.dec = json.NewDecoder(bufio.NewReaderSize(r, 1<<16))
	return w, nil
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.in.Close()
	w.cmd.Wait()
	w.out.Close()
	w.slot.Close()
	w.stderr.Close()
}

func (w *worker) cpu() (time.Duration, int64) {
	pid := w.cmd.Process.Pid
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(data)
	if i := strings.LastIndexByte(s, ')'); i > 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond, rss * 4096
}

type death struct {
	kind   string
	prefix []int
	msg    string
}

// call runs one job in the worker, watching for crashes, endless executions
// (by CPU time spent in one execution, so that load does not matter; or ten
// minutes without using any CPU) and memory explosions.
func (w *worker) call(j job, slack int) (*reply, *death) {
	if err := w.enc.Encode(j); err != nil {
		return nil, &death{kind: "crash", msg: "worker gone: " + err.Error()}
	}
	done := make(chan error, 1)
	rep := new(reply)
	go func() { done <- w.dec.Decode(rep) }()
	if slack == 0 {
		slack = 1
	}
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	lastSeq, cpu0 := 0, time.Duration(0)
	t0 := time.Now()
	for {
		select {
		case err := <-done:
			if err == nil {
				return rep, nil
			}
			_, p := readSlot(w.slot)
			w.cmd.Wait()
			return nil, &death{"crash", p, "process died (" + w.cmd.ProcessState.String() + ")\n" + tail(w.stderr)}
		case <-tick.C:
			seq, p := readSlot(w.slot)
			cpu, rss := w.cpu()
			if seq != lastSeq {
				lastSeq, cpu0, t0 = seq, cpu, time.Now()
			}
			var kind string
			switch {
			case rss > 3<<30:
				kind = "memory"
			case cpu-cpu0 > time.Duration(slack)*25*time.Second && seq > 0:
				kind = "hang"
			case time.Since(t0) > time.Duration(slack)*10*time.Minute && seq > 0:
				kind = "stall"
			}
			if kind != "" {
				syscall.Kill(w.cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				return nil, &death{kind, p, kind + ": execution did not finish\n" + tail(w.stderr)}
			}
		}
	}
}

func tail(f *os.File) string {
	data := make([]byte, 1<<20)
	n, _ := f.ReadAt(data, 0)
	s := string(data[:n])
	if len(s) > 5000 {
		s = s[:2500] + "\n...\n" + s[len(s)-2500:]
	}
	return s
}

type harnessStats struct {
	Name       string  `json:"name"`
	About      string  `json:"about"`
	Bound      int     `json:"deviation_bound"`
	Completed  int     `json:"completed_bound"`
	Executions int64   `json:"executions"`
	Skipped    int64   `json:"not_valid_inputs"`
	States     int     `json:"distinct_states"`
	Outcomes   int     `json:"distinct_outcomes"`
	Trans      int64   `json:"transitions"`
	MaxDepth   int     `json:"max_choice_depth"`
	Compared   int64   `json:"comparisons"`
	Exhaustive bool    `json:"exhaustive_within_bound"`
	Left       int     `json:"unexplored_prefixes,omitempty"`
	Seconds    float64 `json:"seconds"`
	Broken     bool    `json:"broken,omitempty"`
}

// known reads the committed list of findings.
func known(verif, property string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: property="+property+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+property+" key=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		out[rest[:i]] = rest[i+4:]
	}
	return out
}

func check(verif string, p *Property, only string, budget, max int) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := p.Quick
	if limit == 0 {
		limit = 30
	}
	if thorough {
		limit = p.Thorough
		if limit == 0 {
			limit = 600
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && v > 0 {
		limit = v
	}
	if budget > 0 {
		limit = budget
	}
	deadline := start.Add(time.Duration(limit) * time.Second)
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	os.Setenv("MC_SCRATCH", dir)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.RemoveAll(dir); os.Exit(3) }()

	var facts map[string]interface{}
	if p.Before != nil {
		if facts, err = p.Before(dir, thorough); err != nil {
			fmt.Println("ERROR: preparation:", err)
			return 2
		}
		deadline = time.Now().Add(time.Duration(limit) * time.Second)
	}

	list := known(verif, p.ID)
	seenKnown := map[string]bool{}
	var violations []*Violation
	var stats []*harnessStats
	var samples []string
	var notes []string
	allStates := map[uint64]bool{}
	exhaustive := true
	broken := false

	var hs []*Harness
	total := 0.0
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if only != "" && h.Name != only || h.ThoroughOnly && !thorough {
			continue
		}
		if h.Weight == 0 {
			h.Weight = 1
		}
		total += h.Weight
		hs = append(hs, h)
	}
	nw := 8
	if v, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	for _, h := range hs {
		remain := time.Until(deadline)
		hd := time.Now().Add(time.Duration(float64(remain) * h.Weight / total))
		total -= h.Weight
		st, viols, sm, nt := exploreHarness(dir, p.ID, h, thorough, hd, nw, list, seenKnown, allStates, max)
		stats = append(stats, st)
		violations = append(violations, viols...)
		if len(sm) > 3 {
			sm = sm[:3]
		}
		for _, s := range sm {
			samples = append(samples, h.Name+": "+s)
		}
		notes = append(notes, nt...)
		if st.Broken {
			broken = true
		}
		if !st.Exhaustive {
			exhaustive = false
		}
		if len(violations) >= max {
			exhaustive = false
			break
		}
	}

	// evidence
	var execs, trans, comps int64
	for _, s := range stats {
		execs += s.Executions - s.Skipped
		trans += s.Trans
		comps += s.Compared
	}
	cov := map[string]interface{}{
		"states":                        len(allStates),
		"transitions":                   trans,
		"traces_validated_against_impl": execs,
		"comparisons_with_model":        comps,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"harnesses":                     stats,
		"explanation": "Every execution runs the code built from /repo's working tree; each is compared with a reference model inside the harness. " +
			"states: distinct hashes of inputs and reached states; transitions: choice edges plus operation steps taken; traces_validated_against_impl: complete executions compared.",
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	for k, v := range p.Extra {
		cov[k] = v
	}
	for k, v := range facts {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(violations),
		"assumptions": p.Assumptions,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range stats {
		fmt.Printf("%s/%s: executions=%d states=%d transitions=%d outcomes=%d bound=%d/%d exhaustive=%v left=%d %.1fs\n", p.ID, s.Name, s.Executions, s.States, s.Trans, s.Outcomes, s.Completed, s.Bound, s.Exhaustive, s.Left, s.Seconds)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	var ks []string
	for k := range list {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if seenKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.ID, list[k], k)
		} else if only == "" {
			fmt.Printf("note: listed finding not met in this run: property=%s [%s]\n", p.ID, k)
		}
	}
	if len(violations) > 0 {
		for i, v := range violations {
			file := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%d.json", p.ID, i+1))
			data, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "thorough": thorough, "violation": v,
				"how": "sh /verif/check.sh replay " + file}, "", " ")
			os.WriteFile(file, append(data, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			fmt.Printf("  harness %s, %s, key %s\n", v.Harness, v.Kind, v.Key)
			for _, l := range strings.Split(strings.TrimSpace(v.Message), "\n") {
				fmt.Println("  " + l)
			}
		}
		return 1
	}
	if broken {
		fmt.Println("ERROR: a harness could not run or diverged during replay; see the notes")
		return 2
	}
	fmt.Printf("OK property=%s states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", p.ID, len(allStates), trans, execs, exhaustive, time.Since(start).Seconds())
	return 0
}

// exploreHarness explores with one deviation bound after the other, so that
// a deadline cuts off the deepest executions and not some arbitrary part.
func exploreHarness(dir, id string, h *Harness, thorough bool, deadline time.Time, nw int, list map[string]string, seenKnown map[string]bool, all map[uint64]bool, max int) (st *harnessStats, viols []*Violation, samples, notes []string) {
	last := h.Bounds[0]
	if thorough {
		last = h.Bounds[1]
	}
	t0 := time.Now()
	states, outcomes := map[uint64]bool{}, map[uint64]bool{}
	completed := -1
	for b := 0; b <= last; b++ {
		x, v, sm, n := exploreBound(dir, id, h, b, thorough, deadline, nw, list, seenKnown, all, states, outcomes, max)
		if st == nil || x.Executions > st.Executions {
			st = x
		} else {
			st.Exhaustive, st.Left, st.Broken = x.Exhaustive, x.Left, st.Broken || x.Broken
		}
		viols = append(viols, v...)
		notes = append(notes, n...)
		if len(samples) < 3 {
			samples = append(samples, sm...)
		}
		if !x.Exhaustive {
			break
		}
		completed = b
		if len(viols) > 0 || time.Now().After(deadline) {
			st.Exhaustive = b == last
			break
		}
	}
	st.Bound, st.Completed = last, completed
	st.Exhaustive = completed == last
	st.States, st.Outcomes = len(states), len(outcomes)
	st.Seconds = time.Since(t0).Seconds()
	return st, viols, samples, notes
}

func exploreBound(dir, id string, h *Harness, bound int, thorough bool, deadline time.Time, nw int, list map[string]string, seenKnown map[string]bool, all, states, outcomes map[uint64]bool, max int) (*harnessStats, []*Violation, []string, []string) {
	st := &harnessStats{Name: h.Name, About: h.About, Bound: bound}
	t0 := time.Now()
	if h.Serial {
		nw = 1
	}
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		queue   = [][]int{{}}
		active  int
		stop    bool
		viols   []*Violation
		deaths  []*death
		samples []string
		notes   []string
		skips   [][]int
		flaky   int
	)
	name := id + "/" + h.Name
	body := func(n int) {
		var w *worker
		defer func() {
			if w != nil {
				w.kill()
			}
		}()
		for {
			mu.Lock()
			for len(queue) == 0 && active > 0 && !stop {
				cond.Wait()
			}
			if stop || len(queue) == 0 || time.Now().After(deadline) {
				cond.Broadcast()
				mu.Unlock()
				return
			}
			k := len(queue)/(2*nw) + 1
			if k > 64 {
				k = 64
			}
			if k > len(queue) {
				k = len(queue)
			}
			slice := 1500
			if len(queue) < 4*nw {
				slice = 40
			}
			ps := append([][]int{}, queue[len(queue)-k:]...)
			queue = queue[:len(queue)-k]
			active++
			sk := append([][]int{}, skips...)
			mu.Unlock()
			if left := time.Until(deadline).Milliseconds(); int64(slice) > left {
				slice = int(left) + 1
			}
			j := job{Harness: name, Prefixes: ps, Bound: st.Bound, SliceMS: slice, Thorough: thorough, Skip: sk}
			var rep *reply
			var d *death
			var err error
			if w == nil {
				w, err = startWorker(dir, n)
			}
			if err == nil {
				rep, d = w.call(j, h.Slack)
			}
			mu.Lock()
			active--
			switch {
			case err != nil:
				notes = append(notes, "worker: "+err.Error())
				stop = true
			case d != nil:
				w.kill()
				w = nil
				deaths = append(deaths, d)
				if d.prefix != nil || d.kind != "crash" {
					skips = append(skips, append([]int{}, d.prefix...))
				} else {
					skips = append(skips, []int{})
				}
				queue = append(queue, ps...)
				if len(deaths) >= 8 {
					stop = true
				}
			default:
				st.Execs(rep)
				for _, x := range rep.States {
					states[x] = true
					all[x] = true
				}
				for _, x := range rep.Outcomes {
					outcomes[x] = true
				}
				if len(samples) < 3 {
					samples = append(samples, rep.Sample...)
				}
				queue = append(queue, rep.Rest...)
				if rep.Err != "" {
					notes = append(notes, rep.Err)
					st.Broken = true
					stop = true
				}
				for _, v := range rep.Violations {
					if _, ok := list[v.Key]; ok {
						seenKnown[v.Key] = true
						continue
					}
					viols = append(viols, v)
				}
				if len(viols) > 0 && len(dedupe(viols)) >= max {
					stop = true
				}
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for n := 0; n < nw; n++ {
		wg.Add(1)
		go func(n int) { defer wg.Done(); body(n) }(n)
	}
	wg.Wait()
	st.Left = len(queue)
	st.Exhaustive = len(queue) == 0 && !stop && len(deaths) == 0
	// confirm crashes and violations in fresh processes
	var confirmed []*Violation
	for i, d := range deaths {
		if len(confirmed) >= max {
			break
		}
		prefix := d.prefix
		if prefix == nil {
			prefix = []int{}
		}
		w, err := startWorker(dir, 100+i)
		if err != nil {
			continue
		}
		rep, d2 := w.call(job{Harness: name, Prefixes: [][]int{prefix}, Bound: st.Bound, SliceMS: 1, Thorough: thorough, Replay: true}, h.Slack)
		w.kill()
		if d2 == nil {
			if rep != nil && rep.Err != "" {
				notes = append(notes, rep.Err)
			}
			notes = append(notes, fmt.Sprintf("%s: a process ended (%s) at choices %v but did not do so again", h.Name, firstLine(d.msg), d.prefix))
			continue
		}
		v := &Violation{Harness: h.Name, Choices: prefix, Key: Key(h.Name, "choices="+strings.Trim(strings.ReplaceAll(fmt.Sprint(prefix), " ", ","), "[]")), Message: d2.msg, Kind: d2.kind}
		if _, ok := list[v.Key]; ok {
			seenKnown[v.Key] = true
			continue
		}
		confirmed = append(confirmed, v)
	}
	viols = dedupe(viols)
	sort.SliceStable(viols, func(i, j int) bool {
		a, b := viols[i], viols[j]
		if a.Cost != b.Cost {
			return a.Cost < b.Cost
		}
		return len(a.Choices) < len(b.Choices)
	})
	for i, v := range viols {
		if len(confirmed) >= max || i > 20+max {
			break
		}
		w, err := startWorker(dir, 200+i)
		if err != nil {
			continue
		}
		same, tries := 0, 5
		for k := 0; k < tries; k++ {
			rep, d := w.call(job{Harness: name, Prefixes: [][]int{v.Choices}, Bound: 1 << 20, SliceMS: 1, Thorough: thorough, Replay: true}, h.Slack)
			if d != nil {
				break
			}
			if len(rep.Violations) > 0 {
				same++
			}
			if k == tries-1 && same == 0 && tries < 20 {
				tries = 20
			}
		}
		w.kill()
		if same > 0 {
			if same < tries {
				v.Message += fmt.Sprintf("\n(reproduced in %d of %d runs: the code behaves differently from run to run)", same, tries)
			}
			confirmed = append(confirmed, v)
		} else {
			flaky++
			notes = append(notes, fmt.Sprintf("%s: a failure was not reproduced and is not believed: %s: %s", h.Name, v.Key, firstLine(v.Message)))
		}
	}
	st.Seconds = time.Since(t0).Seconds()
	return st, confirmed, samples, notes
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func dedupe(v []*Violation) []*Violation {
	seen := map[string]int{}
	var out []*Violation
	for _, x := range v {
		if i, ok := seen[x.Key]; ok {
			if x.Cost < out[i].Cost {
				out[i] = x
			}
			continue
		}
		seen[x.Key] = len(out)
		out = append(out, x)
	}
	return out
}

// Execs adds the counts of one reply.
func (s *harnessStats) Execs(r *reply) {
	s.Executions += r.Execs
	s.Skipped += r.Skipped
	s.Trans += r.Choices + r.Steps
	s.Compared += r.Sub + r.Execs - r.Skipped
	if r.MaxDepth > s.MaxDepth {
		s.MaxDepth = r.MaxDepth
	}
}
