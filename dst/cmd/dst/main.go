// Command dst drives simulated runs: it searches seeds for violations of a
// property, minimises and stores what it finds, replays it, and writes evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/dst/plan"
)

// Result is what cmd/sim reports.
type Result struct {
	Violations []Violation    `json:"violations"`
	Known      []Violation    `json:"known"`
	Hash       string         `json:"hash"`
	Sched      string         `json:"sched"`
	SimMs      int64          `json:"sim_ms"`
	Faults     map[string]int `json:"faults"`
	Hits       map[string]int `json:"hits"`
	Checks     map[string]int `json:"checks"`
	Calls      map[string]int `json:"calls"`
	Pairs      []uint32       `json:"pairs"`
	Sites      []int          `json:"sites"`
	Picks      uint64         `json:"picks"`
	Yields     uint64         `json:"yields"`
	Runs       int            `json:"mmf_runs"`
	LogLen     int            `json:"log_len"`
	End        string         `json:"end"`
	Unknown    []string       `json:"unknown"`
	Trace      []string       `json:"trace"`

	crash string // the simulator itself failed
	wall  time.Duration
}

type Violation struct {
	Props []string `json:"props"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
}

func (v *Violation) of(prop string) bool {
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

var simBin string

// simulate performs one run in a process of its own.
func simulate(p *plan.Plan, args ...string) *Result {
	in, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	// The shell sets limits: processor time, so that a run that spins ends.
	sh := "ulimit -t 90; ulimit -c 0; exec \"$0\" \"$@\""
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", sh, simBin}, args...)...)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1500MiB", "GODEBUG=asyncpreemptoff=1", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC"}
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = "/"
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	t := time.Now()
	runtime.LockOSThread() // Pdeathsig is bound to the thread
	err = cmd.Run()
	runtime.UnlockOSThread()
	r := &Result{wall: time.Since(t)}
	if e := json.Unmarshal(out.Bytes(), r); e != nil || err != nil {
		msg := errb.String()
		if len(msg) > 6000 {
			msg = msg[:6000]
		}
		r.crash = fmt.Sprintf("%v: %s", err, msg)
	}
	return r
}

// pool runs f(i) for i = 0, 1, ... on all processors until f says stop.
func pool(workers int, f func(i int64) bool) {
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				if !f(next.Add(1) - 1) {
					stop.Store(true)
				}
			}
		}()
	}
	wg.Wait()
}

func sites() []string {
	b, err := exec.Command(simBin, "-sites").Output()
	if err != nil {
		fatal("cannot run the simulator: %v", err)
	}
	var s struct{ All, Hot []string }
	if err := json.Unmarshal(b, &s); err != nil {
		fatal("%v", err)
	}
	plan.Hot = s.Hot
	return s.All
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "dst: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: dst check|replay|hunt|gen ...")
	}
	self, _ := os.Executable()
	simBin = filepath.Join(filepath.Dir(self), "sim")
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "hunt":
		hunt(os.Args[2:])
	case "trace":
		trace(os.Args[2:])
	case "gen":
		gen(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func gen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	b, _ := json.MarshalIndent(plan.Gen(*prop, *seed, sites()), "", " ")
	fmt.Println(string(b))
}

// trace is for development: it prints one run.
func trace(args []string) {
	fs := flag.NewFlagSet("trace", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	seed := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	p := plan.Gen(*prop, *seed, sites())
	r := simulate(p, "-trace")
	c, _ := json.Marshal(p.Cfg)
	sc, _ := json.Marshal(p.Sched)
	fmt.Printf("cfg %s\nsched %s\n", c, sc)
	for _, t := range r.Trace {
		fmt.Println(t)
	}
	for _, v := range r.Violations {
		fmt.Println("VIOLATION", v.Props, v.Key, v.Msg)
	}
	fmt.Println("end", r.End, r.crash)
}

// hunt is for development: it reports every class of violation that occurs.
func hunt(args []string) {
	fs := flag.NewFlagSet("hunt", flag.ExitOnError)
	props := fs.String("props", "", "properties (default all)")
	n := fs.Int64("n", 400, "runs")
	base := fs.Uint64("seed", 1, "first seed")
	twice := fs.Bool("twice", false, "run each seed twice and compare")
	own := fs.Bool("own", false, "only violations of the property the run concentrates on")
	fs.Parse(args)
	var list []string
	if *props == "" {
		for i := 1; i <= plan.Props; i++ {
			list = append(list, fmt.Sprintf("C%02d", i))
		}
	} else {
		list = strings.Split(*props, ",")
	}
	ss := sites()
	type class struct {
		n    int
		by   map[string]int
		ex   string
		msg  string
		prop []string
	}
	var mu sync.Mutex
	classes := map[string]*class{}
	checks, calls, faults, hits := map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	var simMs, wall, done, diff int64
	var slow []string
	crashes := 0
	t0 := time.Now()
	pool(runtime.NumCPU(), func(i int64) bool {
		if i >= *n {
			return false
		}
		prop := list[int(i)%len(list)]
		seed := *base + uint64(i)/uint64(len(list))
		p := plan.Gen(prop, seed, ss)
		r := simulate(p)
		if *twice {
			if r2 := simulate(p); r2.Hash != r.Hash || r2.Sched != r.Sched {
				mu.Lock()
				diff++
				fmt.Printf("NONDETERMINISTIC %s %d history %v\n", prop, seed, r2.Hash != r.Hash)
				mu.Unlock()
			}
		}
		mu.Lock()
		defer mu.Unlock()
		done++
		simMs += r.SimMs
		wall += int64(r.wall)
		if r.wall > 3*time.Second {
			slow = append(slow, fmt.Sprintf("%s:%d %.1fs", prop, seed, r.wall.Seconds()))
		}
		if r.crash != "" {
			crashes++
			if crashes <= 5 {
				fmt.Printf("SIMULATOR FAILED %s %d: %s\n", prop, seed, r.crash)
			}
			return true
		}
		for k, v := range r.Checks {
			checks[k] += v
		}
		for k, v := range r.Calls {
			calls[k] += v
		}
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Hits {
			hits[k] += v
		}
		for _, v := range r.Violations {
			if *own && !v.of(prop) {
				continue
			}
			c := classes[v.Key]
			if c == nil {
				c = &class{by: map[string]int{}, ex: fmt.Sprintf("%s:%d", prop, seed), msg: v.Msg, prop: v.Props}
				classes[v.Key] = c
			}
			c.n++
			c.by[prop]++
		}
		for _, u := range r.Unknown {
			fmt.Printf("UNKNOWN redis command %s %d: %s\n", prop, seed, u)
		}
		return true
	})
	keys := make([]string, 0, len(classes))
	for k := range classes {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return classes[keys[i]].n > classes[keys[j]].n })
	for _, k := range keys {
		c := classes[k]
		fmt.Printf("%5d %-40s %v e.g. %s  by %v\n      %s\n", c.n, k, c.prop, c.ex, c.by, c.msg)
	}
	el := time.Since(t0)
	fmt.Printf("runs %d crashes %d nondet %d in %.1fs (%.0f/h), sim %.0fs, cpu/run %.0f ms\n", done, crashes, diff, el.Seconds(), float64(done)/el.Hours(), float64(simMs)/1000, float64(wall)/1e6/float64(max(done, 1)))
	fmt.Println("checks", checks)
	fmt.Println("calls", calls)
	fmt.Println("faults", faults)
	fmt.Println("hits", hits)
	fmt.Println("slow", slow)
}
