// Command racecheck decides C08: operations on independent data do not
// interfere. It is built with the race detector and with a scheduling point
// before every statement of the packages under test.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/sched"
	"aqwari.net/xml/xsd"
)

func main() {
	mapsched.Sorted()
	if len(os.Args) > 2 && os.Args[1] == "history" {
		history(os.Args[2])
		return
	}
	mc.Main(c08)
}

// solo is what an operation does when it runs alone in a new process.
type solo struct {
	Result string
	Points int
	First  []int // the first execution of every statement
	Second []int // and the second one
	Own    []int // those of First that no operation with less to do executes
	Skip   bool  // it does not give the same result every time
}

// safe runs an operation.
func (o *op) safe(e *env) (s string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 3000)
			s = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
		}
	}()
	return o.run(e)
}

// history runs the operations of a list one after another in this process, and
// prints what each of them gives, along with the statements of the last one.
func history(list string) {
	runtime.GOMAXPROCS(1)
	e := newEnv()
	var results []string
	var sites []int
	for _, f := range strings.Split(list, ",") {
		i, err := strconv.Atoi(f)
		if err != nil || i >= len(ops) {
			os.Exit(2)
		}
		useStandard(ops[i].standard)
		e.prepare(&ops[i])
		if strings.Contains(list, ",") {
			results = append(results, ops[i].safe(e))
		} else {
			sites = sched.Record(func() { results = append(results, ops[i].safe(e)) })
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"results": results, "sites": sites, "races": races()})
}

type histReply struct {
	Results []string
	Sites   []int
	Races   int
}

func runHistory(list []int) (*histReply, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "history", strings.Trim(strings.ReplaceAll(fmt.Sprint(list), " ", ","), "[]"))
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, errs.String())
	}
	r := new(histReply)
	return r, json.Unmarshal(out.Bytes(), r)
}

var standardSchema = xsd.StandardSchema

func useStandard(b bool) {
	xsd.StandardSchema = nil
	if b {
		xsd.StandardSchema = standardSchema
	}
}

// before runs every operation alone.
func before(scratch string, thorough bool) (map[string]interface{}, error) {
	os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(scratch, "race"))
	os.Setenv("MC_CHILD_GOMAXPROCS", "1")
	if err := writeFiles(scratch); err != nil {
		return nil, err
	}
	solos := make([]solo, len(ops))
	errs := make([]error, len(ops))
	firstAt := make([]map[int]int, len(ops))
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			s := &solos[i]
			for k := 0; k < 3; k++ {
				r, err := runHistory([]int{i})
				if err != nil {
					errs[i] = err
					return
				}
				if k > 0 && r.Results[0] != s.Result {
					s.Skip = true
				}
				s.Result = r.Results[0]
				s.Points = len(r.Sites)
				seen := map[int]int{}
				s.First, s.Second = nil, nil
				firstAt[i] = map[int]int{}
				for n, site := range r.Sites {
					seen[site]++
					switch seen[site] {
					case 1:
						s.First = append(s.First, n+1)
						firstAt[i][site] = n + 1
					case 2:
						s.Second = append(s.Second, n+1)
					}
				}
			}
		}(i)
	}
	wg.Wait()
	points := map[string]string{}
	var skipped []string
	for i := range ops {
		if errs[i] != nil {
			return nil, fmt.Errorf("operation %s: %v", ops[i].name, errs[i])
		}
		if strings.HasPrefix(solos[i].Result, "panic") || strings.HasPrefix(solos[i].Result, "error") {
			return nil, fmt.Errorf("operation %s: %s", ops[i].name, solos[i].Result)
		}
		if solos[i].Skip {
			skipped = append(skipped, ops[i].name)
		}
		points[ops[i].name] = fmt.Sprintf("%d statements executed, %d different", solos[i].Points, len(solos[i].First))
	}
	order := make([]int, len(ops))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return solos[order[a]].Points < solos[order[b]].Points })
	covered := map[int]bool{}
	for _, i := range order {
		if solos[i].Skip || ops[i].class == "later" {
			continue
		}
		for site, n := range firstAt[i] {
			if !covered[site] {
				covered[site] = true
				solos[i].Own = append(solos[i].Own, n)
			}
		}
		sort.Ints(solos[i].Own)
	}
	data, _ := json.Marshal(solos)
	if err := os.WriteFile(filepath.Join(scratch, "solo.json"), data, 0666); err != nil {
		return nil, err
	}
	return map[string]interface{}{"operations": points, "operations_left_out": skipped, "race_detector": raceEnabled, "scheduling_points": sched.Controlled, "statements_executed": len(covered)}, nil
}

var (
	solos     []solo
	setupOnce sync.Once
	setupErr  error
)

func setup() error {
	setupOnce.Do(func() {
		runtime.GOMAXPROCS(1)
		data, err := os.ReadFile(filepath.Join(os.Getenv("MC_SCRATCH"), "solo.json"))
		if err == nil {
			err = json.Unmarshal(data, &solos)
		}
		setupErr = err
	})
	return setupErr
}

// report is the end of what the race detector wrote.
func report() string {
	list, _ := filepath.Glob(filepath.Join(os.Getenv("MC_SCRATCH"), fmt.Sprintf("race.%d", os.Getpid())))
	for _, f := range list {
		data, _ := os.ReadFile(f)
		s := string(data)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 2500 {
			s = s[:2500]
		}
		return s
	}
	return ""
}

func describe(p []sched.Switch, a, b *op) string {
	s := a.name + " starts"
	for _, w := range p {
		from, to := a, b
		if w.Thread == 1 {
			from, to = b, a
		}
		s += fmt.Sprintf("; before statement %d of %s, %s goes on", w.At, from.name, to.name)
	}
	return s
}

// pair runs two operations under a schedule.
func pair(t *mc.T, i, j int, p []sched.Switch) {
	a, b := &ops[i], &ops[j]
	if solos[i].Skip || solos[j].Skip {
		t.Skip()
	}
	useStandard(a.standard || b.standard)
	text := describe(p, a, b)
	t.Input(text)
	e := newEnv()
	e.prepare(a)
	e.prepare(b)
	n := races()
	var ra, rb string
	switches, stolen := sched.Run(func() { ra = a.safe(e) }, func() { rb = b.safe(e) }, p)
	t.Step()
	t.State(fmt.Sprintf("%d %d %v", i, j, p))
	t.Outcome(fmt.Sprintf("%d switches, blocked %v", switches, stolen))
	if races() > n {
		t.Fail("data race\n%s\n%s", text, report())
	}
	for k, r := range []string{ra, rb} {
		o, s := a, solos[i].Result
		if k == 1 {
			o, s = b, solos[j].Result
		}
		if r != s {
			t.Fail("%s\nthe result of %s\n%s\nand alone\n%s", text, o.name, clip(r), clip(s))
		}
	}
	t.Compared(2)
	if len(p) > 0 {
		t.Sample(text)
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func class(names ...string) (out []int) {
	for i := range ops {
		for _, n := range names {
			if ops[i].class == n {
				out = append(out, i)
			}
		}
	}
	return
}

// one switches at most once, while the first operation runs. The statements
// before which it does are those that at lists.
func one(at func(t *mc.T, s *solo) []int, classes ...string) func(*mc.T) {
	return func(t *mc.T) {
		list := class(classes...)
		i := list[t.Free("first operation", len(list))]
		j := list[t.Free("second operation", len(list))]
		if ops[i].standard != ops[j].standard {
			t.Skip()
		}
		var p []sched.Switch
		points := at(t, &solos[i])
		if n := t.Free("switch", len(points)+1); n > 0 {
			p = append(p, sched.Switch{Thread: 0, At: points[n-1]})
		}
		pair(t, i, j, p)
	}
}

func nowhere(t *mc.T, s *solo) []int { return nil }

func first(t *mc.T, s *solo) []int { return s.First }

func firstAll(t *mc.T, s *solo) []int {
	if !t.Thorough {
		return s.First
	}
	all := make([]int, s.Points)
	for i := range all {
		all[i] = i + 1
	}
	return all
}

// statements switches before every statement there is, in the operation with
// the least to do that executes it, while another one like it runs.
func statements(t *mc.T) {
	i := t.Free("operation", len(ops))
	if len(solos[i].Own) == 0 {
		t.Skip()
	}
	at := solos[i].Own[t.Free("switch", len(solos[i].Own))]
	p := []sched.Switch{{Thread: 0, At: at}}
	if t.Thorough {
		// the other one hands back before the same statement
		if t.FreeBool("and back") {
			p = append(p, sched.Switch{Thread: 1, At: at})
		}
	}
	pair(t, i, i, p)
}

// two switches twice, at the first execution of statements.
func two(classes ...string) func(*mc.T) {
	return func(t *mc.T) {
		list := class(classes...)
		i := list[t.Free("first operation", len(list))]
		j := list[t.Free("second operation", len(list))]
		if len(solos[i].First) == 0 || len(solos[j].First) == 0 || ops[i].standard != ops[j].standard {
			t.Skip()
		}
		k := solos[i].First[t.Free("switch", len(solos[i].First))]
		l := solos[j].First[t.Free("switch back", len(solos[j].First))]
		pair(t, i, j, []sched.Switch{{Thread: 0, At: k}, {Thread: 1, At: l}})
	}
}

// histories runs operations one after another in a new process.
func histories(n int) func(*mc.T) {
	return func(t *mc.T) {
		var list []int
		var names []string
		for k := 0; k < n; k++ {
			i := t.Free("operation", len(ops))
			if solos[i].Skip {
				t.Skip()
			}
			list = append(list, i)
			names = append(names, ops[i].name)
		}
		text := strings.Join(names, ", then ")
		t.Input(text)
		r, err := runHistory(list)
		if err != nil {
			t.Fail("%s: %v", text, err)
		}
		t.State(text)
		t.Step()
		for k, s := range r.Results {
			if s != solos[list[k]].Result {
				t.Fail("%s\nthe result of operation %d\n%s\nand alone\n%s", text, k+1, clip(s), clip(solos[list[k]].Result))
			}
		}
		t.Compared(n)
		t.Sample(text)
	}
}

var c08 = mc.Property{ID: "C08", Quick: 150, Thorough: 800, Before: before,
	Assumptions: []string{
		"operations share documents, parsed trees, a parsed schema, options and files, which they only read, and otherwise work on data of their own; one Config is not used by two goroutines, but by one after another",
		"a switch happens between statements; unsynchronised accesses that conflict within them are found by the race detector, which does not depend on the order of the two",
		"two goroutines, one or two switches in the middle",
	},
}

func init() {
	h := func(name, about string, weight float64, thorough bool, f func(*mc.T)) {
		c08.Harnesses = append(c08.Harnesses, mc.Harness{Name: name, About: about, Weight: weight, ThoroughOnly: thorough, Setup: setup, Run: f, Slack: 2})
	}
	h("pairs in a row", "every two operations one after another in a new process; the result of each is compared with that in a process of its own", 6, false, histories(2))
	h("trees", "every two operations of package xmltree at once, switching before every statement that the first one executes for the first time (in the thorough tier, every time); with the race detector, and results compared with those alone", 2, false, one(firstAll, "tree"))
	h("packages", "every two operations of the other packages and some of xmltree at once, without a switch", 1, false, one(nowhere, "some", "heavy"))
	h("bundled schemas", "the same with the bundled schemas", 1, false, one(nowhere, "standard"))
	h("statements", "every statement that any operation executes: a switch before its first execution, in the operation with the least to do that has it, while the same operation runs on the other side", 5, false, statements)
	h("packages, one switch", "every two operations of the other packages at once, switching before the first execution of every statement", 3, true, one(first, "some", "heavy"))
	h("trees, two switches", "every two operations of package xmltree, switching before the first execution of every statement of the first one, and back before that of every statement of the second one", 3, true, two("tree"))
	h("triples in a row", "every three operations one after another in a new process", 3, true, histories(3))
}
