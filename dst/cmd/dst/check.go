package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/dst/plan"
)

// Replay is what a check writes for a violation: the minimised plan, which
// together with the code determines the execution, what it violates, and what
// happened in it.
type Replay struct {
	Property  string     `json:"property"`
	Violation Violation  `json:"violation"`
	Found     string     `json:"found"`    // where the search met it
	Original  size       `json:"original"` // size of the plan before minimisation
	Minimised size       `json:"minimised"`
	Hash      string     `json:"hash"`  // of the history
	Sched     string     `json:"sched"` // of the scheduling choices
	Plan      *plan.Plan `json:"plan"`
	Trace     []string   `json:"trace"`
}

type size struct {
	Ops    int `json:"ops"`
	Faults int `json:"faults"`
	Stalls int `json:"stalls"`
}

func sizeOf(p *plan.Plan) size {
	n := len(p.Ops)
	if p.Example != nil {
		for _, r := range p.Example.Rounds {
			n += 1 + r.Matches // the rounds of the service that the example talks to
		}
	}
	return size{n, len(p.Faults), len(p.Sched.Stalls)}
}

// finding is a line of the known-findings file.
type finding struct {
	prop, key, text string
}

var findingRE = regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$`)

func findings(path string) []finding {
	f, err := os.Open(path)
	if err != nil {
		fatal("known findings: %v", err)
	}
	defer f.Close()
	var out []finding
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		if m := findingRE.FindStringSubmatch(s.Text()); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

// planFor is run i of a check: most runs concentrate on the property, the rest
// on the others, whose workloads also bear on it.
func planFor(prop string, seed uint64, i int64, ss []string) *plan.Plan {
	s := seed*1_000_003 + uint64(i)
	focus := prop
	if i%4 == 3 {
		focus = allProps[(int(i/4)*5+int(seed))%len(allProps)]
	}
	return plan.Gen(focus, s, ss)
}

var allProps = func() []string {
	var l []string
	for i := 1; i <= plan.Props; i++ {
		l = append(l, fmt.Sprintf("C%02d", i))
	}
	return l
}()

type tally struct {
	mu        sync.Mutex
	runs      int64
	simMs     int64
	cpu       time.Duration
	maps      map[string]map[string]int
	pairs     map[uint32]int64 // -> run that first saw it
	sites     map[int]bool
	scheds    map[string]bool
	hists     map[string]bool
	nontriv   map[string]bool
	picks     uint64
	yields    uint64
	mmfRuns   int
	logLen    int
	storage   map[string]int
	focus     map[string]int
	failed    []string
	nFailed   int
	rechecked int
	differ    []string
	known     map[string]string
	unknown   map[string]bool
	samples   []any
	others    map[string]int // violations of other properties met
	perRun    []int          // distinct pairs after each block of runs
}

func newTally() *tally {
	return &tally{maps: map[string]map[string]int{}, pairs: map[uint32]int64{}, sites: map[int]bool{}, scheds: map[string]bool{}, hists: map[string]bool{},
		nontriv: map[string]bool{}, storage: map[string]int{}, focus: map[string]int{}, known: map[string]string{}, unknown: map[string]bool{}, others: map[string]int{}}
}

func (t *tally) sum(name string, m map[string]int) {
	d := t.maps[name]
	if d == nil {
		d = map[string]int{}
		t.maps[name] = d
	}
	for k, v := range m {
		d[k] += v
	}
}

// add takes a run into account and says which violations of prop it shows.
func (t *tally) add(prop string, i int64, p *plan.Plan, r *Result) []Violation {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.cpu += r.wall
	if r.crash != "" {
		t.nFailed++
		if len(t.failed) < 5 {
			t.failed = append(t.failed, fmt.Sprintf("run %d (%s seed %d): %.300s", i, p.Prop, p.Seed, r.crash))
		}
		return nil
	}
	t.simMs += r.SimMs
	t.sum("checks", r.Checks)
	t.sum("calls", r.Calls)
	t.sum("faults", r.Faults)
	t.sum("hits", r.Hits)
	for _, x := range r.Pairs {
		if _, ok := t.pairs[x]; !ok {
			t.pairs[x] = i
		}
	}
	if t.runs%100 == 0 {
		t.perRun = append(t.perRun, len(t.pairs))
	}
	for _, s := range r.Sites {
		t.sites[s] = true
	}
	t.scheds[r.Sched] = true
	t.hists[r.Hash] = true
	n := 0
	for _, v := range r.Faults {
		n += v
	}
	if r.Checks[prop] > 0 && (n > 0 || r.Picks > 1000) {
		t.nontriv[r.Sched] = true
	}
	t.picks += r.Picks
	t.yields += r.Yields
	t.mmfRuns += r.Runs
	t.logLen += r.LogLen
	t.storage[fmt.Sprintf("%s, %d instances at start", p.Cfg.Storage, max(1, p.Cfg.Cores))]++
	t.focus[p.Prop]++
	for _, u := range r.Unknown {
		t.unknown[u] = true
	}
	for _, k := range r.Known {
		if k.of(prop) && t.known[k.Key] == "" {
			t.known[k.Key] = k.Msg
		}
	}
	if len(t.samples) < 3 && i%7 == 0 && r.Checks[prop] > 0 {
		t.samples = append(t.samples, sample(i, prop, p, r))
	}
	var vs []Violation
	for _, v := range r.Violations {
		if v.of(prop) {
			vs = append(vs, v)
		} else {
			t.others[fmt.Sprintf("%s %s", strings.Join(v.Props, ","), v.Key)]++
		}
	}
	return vs
}

func sample(i int64, prop string, p *plan.Plan, r *Result) any {
	var ops []string
	for k, o := range p.Ops {
		if k == 12 {
			ops = append(ops, fmt.Sprintf("... and %d more", len(p.Ops)-k))
			break
		}
		s := fmt.Sprintf("%d ms: %s on instance %d", o.AtMs, o.Kind, o.Node)
		if o.Via != "" {
			s += " via " + o.Via
		}
		if len(o.T) > 0 {
			s += fmt.Sprintf(" tickets %v", o.T)
		}
		if o.Inv != nil {
			s += fmt.Sprintf(" (%d pools, %d functions)", len(o.Inv.Pools), len(o.Inv.MMFs))
		}
		ops = append(ops, s)
	}
	var fs []string
	for _, f := range p.Faults {
		fs = append(fs, fmt.Sprintf("%d ms for %d ms: %s (instance %d) %s", f.AtMs, f.DurMs, f.Kind, f.Node, f.Text))
	}
	return map[string]any{"run": i, "focus": p.Prop, "seed": p.Seed, "config": p.Cfg, "sched": p.Sched, "ops": ops, "faults": fs,
		"simulated_ms": r.SimMs, "scheduling_choices": r.Picks, "history_hash": r.Hash, "schedule_hash": r.Sched,
		"obligations_of_" + prop: r.Checks[prop], "faults_fired": r.Faults}
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed of the search")
	runs := fs.Int64("runs", 0, "number of runs (default by tier)")
	limit := fs.Duration("limit", 0, "stop searching after this (default by tier)")
	evid := fs.String("evidence", "", "evidence file")
	out := fs.String("out", "", "directory for replay files")
	known := fs.String("known", "", "known findings")
	fs.Parse(args)
	ok := false
	for _, p := range allProps {
		ok = ok || p == *prop
	}
	if !ok {
		fatal("no property %q", *prop)
	}
	n, lim, shrink := int64(1400), 210*time.Second, 75*time.Second
	if *tier == "thorough" {
		n, lim, shrink = 60000, 40*time.Minute, 5*time.Minute
	}
	if *runs > 0 {
		n = *runs
	}
	if *limit > 0 {
		lim = *limit
	}
	var list []finding
	for _, f := range findings(*known) {
		if f.prop == *prop {
			list = append(list, f)
		}
	}
	listed := func(key string) bool {
		for _, f := range list {
			if f.key == key {
				return true
			}
		}
		return false
	}
	ss := sites()
	t := newTally()
	t0 := time.Now()
	var found *Replay
	var mu sync.Mutex
	unstable := 0
	pool(runtime.NumCPU(), func(i int64) bool {
		mu.Lock()
		stop := found != nil
		mu.Unlock()
		if i >= n || stop || time.Since(t0) > lim {
			return false
		}
		p := planFor(*prop, *seed, i, ss)
		r := simulate(p, "-pairs")
		vs := t.add(*prop, i, p, r)
		for _, k := range r.Known {
			if k.of(*prop) && !listed(k.Key) {
				vs = append(vs, k)
			}
		}
		if i%40 == 7 && r.crash == "" {
			// The same seed is the same execution.
			r2 := simulate(p)
			t.mu.Lock()
			t.rechecked++
			if r2.crash == "" && (r2.Hash != r.Hash || r2.Sched != r.Sched) {
				t.differ = append(t.differ, fmt.Sprintf("%s seed %d", p.Prop, p.Seed))
			}
			t.mu.Unlock()
		}
		if len(vs) == 0 {
			return true
		}
		// Once more, to be sure.
		r2 := simulate(p)
		for _, v := range vs {
			if w := r2.has(*prop, v.Key); w != nil {
				mu.Lock()
				if found == nil {
					found = &Replay{Property: *prop, Violation: *w, Plan: p, Original: sizeOf(p), Found: fmt.Sprintf("run %d of %s check with seed %d (focus %s, plan seed %d)", i, *tier, *seed, p.Prop, p.Seed)}
				}
				mu.Unlock()
				return false
			}
		}
		mu.Lock()
		unstable++
		mu.Unlock()
		return true
	})
	search := time.Since(t0)
	if found != nil {
		fmt.Printf("found: %s: %s\n", found.Violation.Key, found.Violation.Msg)
		minimise(found, shrink)
		path := filepath.Join(*out, fmt.Sprintf("%s-%s.json", *prop, strings.Map(safe, found.Violation.Key)))
		if err := save(path, found); err != nil {
			fatal("%v", err)
		}
		writeEvidence(*evid, *prop, *tier, *seed, t, ss, search, found, path, unstable)
		fmt.Printf("%s\nminimised from %+v to %+v\nVIOLATION property=%s replay=%s\n", found.Violation.Msg, found.Original, found.Minimised, *prop, path)
		os.Exit(1)
	}
	writeEvidence(*evid, *prop, *tier, *seed, t, ss, search, nil, "", unstable)
	for _, f := range list {
		if t.known[f.key] != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.text)
		} else {
			fmt.Printf("known finding %s of %s was not met in this run\n", f.key, *prop)
		}
	}
	fmt.Printf("%s: %d runs, %d obligations, %.0f s of simulated time in %.1f s, %d distinct schedules, no violation\n", *prop, t.runs, t.maps["checks"][*prop], float64(t.simMs)/1000, search.Seconds(), len(t.scheds))
	switch {
	case t.runs == 0 || int64(t.nFailed)*10 > t.runs:
		fatal("%d of %d runs failed inside the simulator, e.g. %v", t.nFailed, t.runs, t.failed)
	case t.maps["checks"][*prop] == 0:
		fatal("no obligation of %s was evaluated", *prop)
	case len(t.unknown) > 0:
		fatal("the storage model does not know %v", t.unknown)
	}
}

func safe(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
		return r
	}
	return '_'
}

func (r *Result) has(prop, key string) *Violation {
	for _, l := range [][]Violation{r.Violations, r.Known} {
		for i := range l {
			if l[i].of(prop) && l[i].Key == key {
				return &l[i]
			}
		}
	}
	return nil
}

func save(path string, v any) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func writeEvidence(path, prop, tier string, seed uint64, t *tally, ss []string, wall time.Duration, found *Replay, replay string, unstable int) {
	if path == "" {
		return
	}
	hit := map[string]int{}
	tot := map[string]int{}
	for i, s := range ss {
		f, _, _ := strings.Cut(s, ":")
		tot[f]++
		if t.sites[i] {
			hit[f]++
		}
	}
	cover := map[string]string{}
	for f, n := range tot {
		cover[f] = fmt.Sprintf("%d of %d", hit[f], n)
	}
	late := 0
	for _, i := range t.pairs {
		if i >= t.runs*9/10 {
			late++
		}
	}
	growth := t.perRun
	if len(growth) > 40 {
		var g []int
		for i := 0; i < 40; i++ {
			g = append(g, growth[i*(len(growth)-1)/39])
		}
		growth = g
	}
	hours := wall.Hours()
	viol := 0
	var first any
	if found != nil {
		viol = 1
		first = map[string]any{"key": found.Violation.Key, "message": found.Violation.Msg, "replay": replay, "found": found.Found}
	}
	others := t.others
	if len(others) > 20 {
		others = map[string]int{"classes": len(others)}
	}
	if len(t.differ) > 10 {
		t.differ = t.differ[:10]
	}
	samples := t.samples
	if len(samples) == 0 {
		samples = []any{"no run of this check evaluated an obligation before it stopped"}
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": math.Round(wall.Seconds()*10) / 10, "violations": viol,
		"coverage": map[string]any{
			"evaluations":         t.runs,
			"distinct_nontrivial": len(t.nontriv),
			"rule": "One evaluation is one simulated execution of the complete deployment, determined by its seed: the generator draws a deployment, a workload, a schedule policy and a fault sequence (three of four runs concentrate on this property, the others on the remaining ones), " +
				"the simulator executes it on virtual time and judges the history. Counted as distinct and non-trivial: executions with a schedule (hash over every scheduling choice) seen in no other run, in which at least one obligation of the property was evaluated and either an injected fault fired or more than 1000 scheduling choices were made.",
			"samples":                        samples,
			"obligations_evaluated":          t.maps["checks"][prop],
			"obligations_of_all_properties":  t.maps["checks"],
			"simulated_seconds":              math.Round(float64(t.simMs) / 1000),
			"runs_per_hour":                  math.Round(float64(t.runs) / math.Max(hours, 1e-9)),
			"seeds_per_hour":                 math.Round(float64(t.runs) / math.Max(hours, 1e-9)),
			"simulated_seconds_per_second":   math.Round(float64(t.simMs) / 1000 / math.Max(wall.Seconds(), 1e-9)),
			"seeds":                          fmt.Sprintf("%d*1000003+i for i in [0,%d)", seed, t.runs),
			"faults_injected":                t.maps["faults"],
			"situations_reached":             t.maps["hits"],
			"calls_by_outcome":               t.maps["calls"],
			"mmf_runs":                       t.mmfRuns,
			"log_entries":                    t.logLen,
			"deployments":                    t.storage,
			"runs_by_focus":                  t.focus,
			"scheduling_choices":             t.picks,
			"forced_switches_at_statements":  t.yields,
			"distinct_schedules":             len(t.scheds),
			"distinct_histories":             len(t.hists),
			"distinct_switch_pairs":          len(t.pairs),
			"switch_pair_rule":               "a switch pair is (statement at which one goroutine of the code under test was suspended, statement at which the next one continued)",
			"switch_pairs_by_100_runs":       growth,
			"switch_pairs_new_in_last_tenth": late,
			"statements_reached_by_file":     cover,
			"determinism_rechecks":           t.rechecked,
			"determinism_mismatches":         t.differ,
			"unreproduced_violations":        unstable,
			"simulator_failures":             t.failed,
			"simulator_failures_count":       t.nFailed,
			"known_findings_met":             t.known,
			"violations_of_other_properties": others,
			"violation":                      first,
			"real_code":                      []string{"om-core (core/...: gRPC server, gateway, ticket cache, filters, replicators, config, logging, metrics), one copy per simulated instance, statements instrumented with scheduling points", "generated API packages (pkg/pb/v2)", "sample functions and the MMF server library (functions/golang/..., mmf/server)", "grpc-go, grpc-gateway, redigo, net/http, otel, viper and the Go runtime's goroutines, channels, timers and locks (scheduler choices and clock replaced)"},
			"stubs":                          []string{"network: in-memory TCP with latency, windows, fragmentation, resets, partitions, refusal", "Redis: in-process RESP server with streams (XADD, XREAD, XTRIM, ...), optional replica, failures", "clock and timers: virtual time, per-host wall-clock skew", "environment variables, signals, process exit and crash", "DNS", "scripted matchmaking functions and clients"},
		},
		"assumptions": []string{"interleavings are explored at statement granularity of the code under test and at blocking operations of everything else; data races below that granularity are not modelled",
			"the Redis stub follows the documented behaviour of the commands om-core sends; redis itself is not run"},
	}
	if err := save(path, e); err != nil {
		fatal("%v", err)
	}
}

// replay executes a replay file.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "print the trace")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fatal("usage: dst replay [-v] FILE")
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%s: %v", fs.Arg(0), err)
	}
	r := simulate(rp.Plan, "-trace")
	if *verbose {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.crash != "" {
		fatal("the simulator failed: %s", r.crash)
	}
	same := "the same execution"
	if r.Hash != rp.Hash || r.Sched != rp.Sched {
		same = "a different execution (the code differs from the one that was checked)"
	}
	fmt.Printf("replayed %s: %s\n", fs.Arg(0), same)
	if v := r.has(rp.Property, rp.Violation.Key); v != nil {
		fmt.Println(v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
		os.Exit(1)
	}
	fmt.Printf("no violation of class %s\n", rp.Violation.Key)
	var keys []string
	for _, v := range r.Violations {
		keys = append(keys, v.Key)
	}
	sort.Strings(keys)
	if len(keys) > 0 {
		fmt.Println("other violations:", keys)
	}
}
