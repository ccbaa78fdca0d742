package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/simredis"
	"verif.local/insts"
)

// Result is what a run reports.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Known      []Violation    `json:"known,omitempty"`
	Hash       string         `json:"hash"`  // of the whole history
	Sched      string         `json:"sched"` // of every scheduling choice
	SimMs      int64          `json:"sim_ms"`
	Faults     map[string]int `json:"faults,omitempty"`
	Hits       map[string]int `json:"hits,omitempty"`
	Checks     map[string]int `json:"checks,omitempty"` // oracle obligations evaluated
	Calls      map[string]int `json:"calls,omitempty"`
	Pairs      []uint32       `json:"pairs,omitempty"`
	Sites      []int          `json:"sites,omitempty"`
	Picks      uint64         `json:"picks"`
	Yields     uint64         `json:"yields"`
	Runs       int            `json:"mmf_runs"`
	LogLen     int            `json:"log_len"`
	End        string         `json:"end,omitempty"`
	Unknown    []string       `json:"unknown,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
}

// Options are not part of the plan.
type Options struct {
	Trace bool
	Pairs bool
	Log   bool
	Out   io.Writer
}

// Main performs a run in the current process, which ends with it.
func Main(p *Plan, o Options) {
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if !o.Log {
		os.Stdout = devnull
		logrus.SetOutput(io.Discard)
	}
	log.SetOutput(io.Discard)
	runtime.DSTRun(p.Seed, func() {
		w := newWorld(p)
		w.echo = o.Log
		done := false
		w.onFinish = func() {
			if done {
				return
			}
			done = true
			runtime.DSTSetNode(0)
			w.ended = true
			res := w.result(o)
			enc := json.NewEncoder(o.Out)
			if err := enc.Encode(res); err != nil {
				panic(err)
			}
			os.Exit(0)
		}
		w.run()
		w.judge()
		w.onFinish()
	})
}

// finish ends the run early, from any simulated process.
func (w *World) finish() {
	runtime.DSTSetNode(0)
	w.endReason = "cut short"
	w.onFinish()
}

func (w *World) msec(n int64) time.Duration { return time.Duration(n) * time.Millisecond }

// run sets the deployment up and drives it through all phases.
func (w *World) run() {
	p := w.P
	c := &p.Cfg
	w.H.Created = map[int]*Created{}
	w.H.ByID = map[string]*Created{}
	w.install()

	// Hosts.
	rh := w.Net.AddHost("redis")
	rp := w.newProc("redis", rh, 0)
	w.Redis = simredis.New(w.Net, rh, nil, p.Seed^0x5151)
	w.Redis.Port, w.Redis.RPort = 6379, 6379
	if c.Port > 0 {
		w.Redis.Port = c.Port
	}
	if c.ReadPort > 0 {
		w.Redis.RPort = c.ReadPort
	}
	if c.Accounts {
		w.Redis.User, w.Redis.Password = "om-writer", "write-secret"
		w.Redis.ReadUser, w.Redis.ReadPassword = "om-reader", "read secret"
	}
	if c.Replica {
		w.Redis.Replica = w.Net.AddHost("replica")
	}
	lagRng := rand.New(rand.NewPCG(p.Seed, 991))
	w.Redis.LagMs = func() int64 {
		if c.ReplicaLag <= 0 {
			return 0
		}
		return lagRng.Int64N(c.ReplicaLag + 1)
	}
	w.Redis.Seq = w.nextSeq
	w.Redis.Now = w.now
	w.Redis.SkewNs = c.RedisSkewMs * 1e6
	w.Redis.OnFault = func(kind, from string) {
		w.event("redis-fault", "%s %s", kind, from)
	}
	w.Redis.OnAppend = func(e *simredis.Entry) {
		f := e.Fields
		t := f[0]
		if len(f) > 1 && f[0] != "ticket" {
			t += " " + f[1]
		}
		w.H.Events = append(w.H.Events, Event{e.Seq, e.T, "append", e.ID + " " + t + " from " + e.From})
	}
	w.phase = "setup"
	w.spawnWait(rp, func() {
		if err := w.Redis.Start(rp.ID); err != nil {
			panic(err)
		}
	})
	ctlHost := w.Net.AddHost("observer")
	ctlProc := w.newProc("client", ctlHost, 1000)
	w.ctl = ctlProc
	for i := 0; i < max(1, c.MMFHosts); i++ {
		h := &mmfHost{host: w.Net.AddHost(fmt.Sprintf("mmf%d", i)), idx: i}
		w.mmfs = append(w.mmfs, h)
		w.startMMF(h)
	}
	for i := 0; i < max(1, c.Clients); i++ {
		w.newClient(fmt.Sprintf("client%d", i), i)
	}
	if w.needSamples() {
		w.startSamples()
	}
	w.preload()
	for i := 0; i < max(1, c.Cores); i++ {
		w.addCoreHost()
		w.startCore(i)
	}
	runtime.DSTSetNode(ctlProc.ID)
	for i := range w.cores {
		if !w.waitReady(i) {
			w.violate([]string{"C14", "C10", "C19"}, "not-ready", "core%d does not serve 20 s after its start: %s", i, w.cores[i].cur.Death)
			w.endReason = "not ready"
			return
		}
	}
	w.t0 = w.now()
	w.phase = "work"
	if p.Example != nil {
		w.runExample()
		return
	}

	// Workload and faults.
	ops := append([]*Op(nil), p.Ops...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].AtMs < ops[j].AtMs })
	faultsDone := 0
	for _, f := range p.Faults {
		w.spawn(ctlProc, func() {
			w.until(f.AtMs)
			w.fault(f)
			faultsDone++
		})
	}
	for _, op := range ops {
		w.until(op.AtMs)
		w.startOp(op)
	}
	w.until(p.WorkMs)
	w.drain()
	for i := 0; faultsDone < len(p.Faults) && i < 20000; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	w.phase = "settle"
	w.stalls = map[int]*stallState{} // faults stop here
	w.settle()
	w.finalPhase()
}

// spawnWait runs f on a process and waits for it.
func (w *World) spawnWait(p *Proc, f func()) {
	ch := make(chan bool)
	w.spawn(p, func() {
		f()
		close(ch)
	})
	<-ch
}

func (w *World) until(ms int64) {
	if d := w.t0 + ms*1e6 - w.now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// drain waits for every client task and MMF to end.
func (w *World) drain() {
	for i := 0; w.live > 0 && i < 60000; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if w.live > 0 {
		w.event("drain", "%d tasks still running", w.live)
	}
}

func (w *World) newClient(name string, idx int) *clientHost {
	h := w.Net.AddHost(name)
	cl := &clientHost{proc: w.newProc("client", h, idx), conns: map[int]*grpc.ClientConn{}}
	cl.http = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4, DisableKeepAlives: w.P.Cfg.NoReuse}}
	w.clis = append(w.clis, cl)
	return cl
}

func (w *World) addCoreHost() *coreHost {
	ch := &coreHost{host: w.Net.AddHost(fmt.Sprintf("core%d", len(w.cores)))}
	w.cores = append(w.cores, ch)
	return ch
}

func (w *World) needSamples() bool {
	for _, op := range w.P.Ops {
		if op.Kind == "sample" {
			return true
		}
		if op.Inv != nil {
			for i := range op.Inv.MMFs {
				if op.Inv.MMFs[i].Sample != "" {
					return true
				}
			}
		}
	}
	return false
}

// preload puts what an earlier deployment wrote into the log.
func (w *World) preload() {
	pre := w.P.Cfg.Preload
	if pre == nil || w.P.Cfg.Storage != "redis" {
		return
	}
	ttl := time.Duration(w.P.Cfg.TTL) * time.Second
	var ids []*Created
	for i := 0; i < pre.N; i++ {
		label := -1 - i
		t := &pb.Ticket{Extensions: nil, Attributes: &pb.Ticket_FilterableData{Tags: []string{"pre"}}}
		if pre.Size > 0 {
			t.Attributes.StringArgs = map[string]string{"p": string(padAny(pre.Size, i).Value[:pre.Size])}
		}
		created := w.now() - pre.AgeMs*1e6
		t.Attributes.CreationTime = tsAt(created)
		t.ExpirationTime = tsAt(created + int64(ttl))
		b, err := proto.Marshal(t)
		if err != nil {
			panic(err)
		}
		e := w.Redis.Preload(pre.AgeMs, []string{"ticket", string(b)})
		cr := &Created{Label: label, Req: t, ID: e.ID, Preload: true, PreAct: i < pre.Active, ExpT: created + int64(ttl)}
		w.H.Created[label] = cr
		w.H.ByID[e.ID] = cr
		ids = append(ids, cr)
	}
	for _, cr := range ids {
		if cr.PreAct {
			w.Redis.Preload(pre.AgeMs, []string{"activate", cr.ID})
		}
	}
}

// ---- bounds ----

func (w *World) updatesTotal() int64 {
	var n int64
	for _, op := range w.P.Ops {
		n += int64(len(op.T) + len(op.Raw))
		if op.Inv != nil {
			for _, m := range op.Inv.MMFs {
				for _, ms := range m.Matches {
					n += int64(ms.Rosters*ms.Size + len(ms.Labels) + 3)
				}
				if m.Sample != "" {
					n += int64(len(w.P.Tickets))
				}
			}
		}
	}
	return n
}

func (w *World) rttMs() int64 { return 4*(w.P.Cfg.LatUS+w.P.Cfg.JitterUS)/1000 + 3 }

// stallMs is how much all injected stalls can delay anything.
func (w *World) stallMs() int64 { return w.stallSum / 1e6 }

// callBoundMs: how long an update call may take while nothing is impaired.
func (w *World) callBoundMs() int64 {
	c := &w.P.Cfg
	u := w.updatesTotal() + 64
	b := 2*int64(c.OutWait) + (u/int64(c.OutMax)+3)*(w.rttMs()+2) + 2000 + w.stallBudget()
	if c.Storage == "memory" {
		b += (u/int64(c.InMax) + 3) * int64(c.InWait) * 2
	}
	return b + 2*w.xferMs(w.bytesTotal())
}

// bytesTotal: the payload everybody together sends to the log.
func (w *World) bytesTotal() int64 {
	var n int64
	for i := range w.P.Tickets {
		n += int64(w.P.Tickets[i].Pad) + 100
	}
	if pre := w.P.Cfg.Preload; pre != nil {
		n += int64(pre.N) * int64(pre.Size+100)
	}
	return n
}

func (w *World) stallBudget() int64 {
	var b int64
	for _, s := range w.P.Sched.Stalls {
		b += int64(s.Max) * s.MaxMs
	}
	return b
}

// lagMs: how long an update takes at most to show on a healthy instance.
func (w *World) lagMs() int64 {
	c := &w.P.Cfg
	n := int64(w.logLen())
	b := (4+2*(n/int64(max(1, c.InMax))))*(int64(c.InWait)+w.rttMs()) + 1000
	if c.Replica {
		b += c.ReplicaLag
	}
	return b + w.xferMs(w.bytesTotal())
}

func (w *World) logLen() int {
	if w.P.Cfg.Storage == "redis" {
		return len(w.Redis.Log)
	}
	return int(w.updatesTotal()) + 100
}

// stallsOverlap sums the stalls of an instance that began in [from, to].
func (w *World) stalledMs(inc int32, from, to int64) int64 {
	p := w.procs[uint8(inc)]
	if p == nil {
		return 0
	}
	var s int64
	for _, x := range p.Stalls {
		if x.From <= to && x.To >= from {
			s += (x.To - x.From) / 1e6
		}
	}
	return s
}

// ---- faults ----

func (w *World) coreAt(i int) (*coreHost, bool) {
	if i < 0 || i >= len(w.cores) {
		return nil, false
	}
	return w.cores[i], true
}

func (w *World) fault(f *Fault) {
	w.FaultsOn++
	defer func() { w.FaultsOn-- }()
	w.event("fault", "%s node=%d mmf=%d dur=%d %s", f.Kind, f.Node, f.Mmf, f.DurMs, f.Text)
	ch, okCore := w.coreAt(f.Node)
	var mh *mmfHost
	if f.Mmf >= 0 && f.Mmf < len(w.mmfs) {
		mh = w.mmfs[f.Mmf]
	}
	count := func(name string) { w.Fired[name]++ }
	switch f.Kind {
	case "core-crash", "core-stop":
		if !okCore || ch.cur == nil || ch.cur.Dead || ch.busy {
			return
		}
		ch.busy = true
		defer func() { ch.busy = false }()
		p := ch.cur
		im := w.impair("core", f.Node, -1, true, f.Kind)
		if f.Kind == "core-crash" {
			count("core-crash")
			w.crash(p, f.Silent)
		} else {
			sig := syscall.SIGTERM
			if f.Sig == "INT" {
				sig = syscall.SIGINT
			}
			count("core-sig" + strings.ToLower(sig.String()))
			w.stopCore(f.Node, sig)
		}
		if f.DownMs < 0 {
			return // stays down
		}
		time.Sleep(w.msec(f.DownMs))
		if f.Silent {
			w.Net.Revive(ch.host)
		}
		if w.startCore(f.Node) {
			if !w.waitReady(f.Node) && !w.impaired("redis replica", f.Node, -1, im.From, w.now(), true) {
				w.violate([]string{"C14", "C10"}, "not-ready-again", "core%d does not serve 20 s after its restart", f.Node)
			}
			im.To = w.now()
		}
	case "core-pause":
		if !okCore || ch.cur == nil || ch.cur.Dead {
			return
		}
		count("core-pause")
		im := w.impair("core", f.Node, -1, false, f.Kind)
		ch.cur.pauseTo = w.now() + f.DurMs*1e6
		ch.cur.Stalls = append(ch.cur.Stalls, Span{w.now(), ch.cur.pauseTo})
		time.Sleep(w.msec(f.DurMs))
		im.To = w.now()
	case "redis-down":
		if w.redisDown {
			return
		}
		w.redisDown = true
		defer func() { w.redisDown = false }()
		count("redis-down")
		im := w.impair("redis", -1, -1, true, f.Kind)
		w.Redis.Stop(f.Silent)
		time.Sleep(w.msec(f.DurMs))
		if f.Silent {
			w.Net.Revive(w.Redis.Host)
			if w.Redis.Replica != nil {
				w.Net.Revive(w.Redis.Replica)
			}
		}
		np := w.newProc("redis", w.Redis.Host, 0)
		w.spawnWait(np, func() {
			if err := w.Redis.Start(np.ID); err != nil {
				panic(err)
			}
		})
		im.To = w.now()
	case "part-redis", "part-replica", "part-client", "part-mmf", "reset-redis", "reset-replica", "reset-client", "reset-mmf",
		"slow-redis", "slow-replica", "slow-client", "slow-mmf":
		if !okCore {
			return
		}
		a := ch.host
		kind, to, _ := strings.Cut(f.Kind, "-")
		b := w.Redis.Host
		switch to {
		case "replica":
			if b = w.Redis.Replica; b == nil {
				return
			}
		case "client":
			b = w.clis[f.Mmf%len(w.clis)].proc.Host
		case "mmf":
			if mh == nil {
				return
			}
			b = mh.host
		}
		im := w.impair(to, f.Node, -1, kind != "slow", f.Kind)
		if to == "mmf" {
			im.Mmf = f.Mmf
		}
		switch kind {
		case "part":
			count("partition-" + to)
			w.Net.Partition(a, b)
			time.Sleep(w.msec(f.DurMs))
			w.Net.Heal(a, b, f.Reset)
		case "reset":
			count("reset-" + to)
			w.Net.Reset(a, b)
		case "slow":
			count("slow-link-" + to)
			w.Net.Slow(a, b, w.msec(f.Ms))
			time.Sleep(w.msec(f.DurMs))
			w.Net.Slow(a, b, 0)
		}
		im.To = w.now()
	case "redis-rule":
		from := ""
		core := -1
		if f.Node >= 0 && okCore {
			from, core = ch.host.Name, f.Node
		}
		class := "redis"
		hard := true
		switch f.Text {
		case "slow":
			hard = false
		case "xtrim-error":
			class = "trim"
		case "xread-error":
			class = "replica" // reading, not writing
		case "xadd-error":
			class = "reject"
		}
		im := w.impair(class, core, -1, hard, "redis-"+f.Text)
		r := &simredis.Rule{Kind: f.Text, Prob: f.Prob, From: from, Max: f.Max, Ms: f.Ms, Text: f.Sig}
		w.Redis.AddRule(r)
		time.Sleep(w.msec(f.DurMs))
		w.Redis.RemoveRule(r)
		im.To = w.now()
	case "redis-foreign":
		if w.Redis == nil {
			return
		}
		for i := 0; i < max(1, f.Max); i++ {
			count("redis-foreign")
			w.hasForeign = true
			w.Redis.Foreign(foreign[(int(f.Ms)+i)%len(foreign)])
		}
	case "replica-stall":
		if w.Redis.Replica == nil {
			return
		}
		im := w.impair("replica", -1, -1, true, f.Kind)
		w.Redis.StallReplica(true)
		time.Sleep(w.msec(f.DurMs))
		w.Redis.StallReplica(false)
		im.To = w.now()
	case "mmf-crash":
		if mh == nil || mh.cur.Dead {
			return
		}
		count("mmf-crash")
		im := w.impair("mmf", -1, f.Mmf, true, f.Kind)
		w.crash(mh.cur, f.Silent)
		time.Sleep(w.msec(f.DurMs))
		if f.Silent {
			w.Net.Revive(mh.host)
		}
		w.startMMF(mh)
		im.To = w.now()
	case "client-gone":
		// A client machine loses power: its connections go silent.
		cl := w.clis[f.Mmf%len(w.clis)]
		count("client-gone")
		im := w.impair("client", -1, -1, true, f.Kind)
		w.Net.Kill(cl.proc.Host, cl.proc.ID, f.Silent)
		time.Sleep(w.msec(f.DurMs))
		if f.Silent {
			w.Net.Revive(cl.proc.Host)
		}
		im.To = w.now()
	case "clock":
		if !okCore || ch.cur == nil {
			return
		}
		count("clock-jump")
		w.impair("clock", f.Node, -1, false, f.Kind).To = w.now()
		runtime.DSTSetSkew(ch.cur.ID, w.skewNs(f.Node)+f.Ms*1e6)
	case "redis-clock":
		count("redis-clock-jump")
		w.Redis.SkewNs += f.Ms * 1e6
	default:
		panic("unknown fault " + f.Kind)
	}
}

// Entries which no om-core instance writes, but any client of redis can.
var foreign = [][]string{
	{"assign", "1-0"},
	{"heartbeat", "1"},
	{"activate", ""},
	{"deactivate", "no id"},
	{"ticket", ""},
	{"ticket", "\xff\x00not a ticket"},
	{"assign", "", "connection", "\xff\xff"},
	{"", ""},
	{"assign", "2-0", "connection", "\n\x01a", "ttl", "7"},
	{"activate", "99-99999999999999999999"},
	{"ticket", "\n\x03odd", "version", "2"},
}

// stopCore sends a signal and watches the process end.
func (w *World) stopCore(idx int, sig syscall.Signal) {
	p := w.cores[idx].cur
	if p == nil || p.Dead {
		return
	}
	w.event("signal", "core%d#%d %s", idx, p.ID, sig)
	from := w.now()
	w.signal(p, sig)
	limit := from + (5000+w.stallBudget())*1e6
	limit = max(limit, p.pauseTo+5e9)
	for !p.Dead && w.now() < limit {
		time.Sleep(10 * time.Millisecond)
	}
	w.check("C19")
	if !p.Dead {
		w.violate([]string{"C19"}, "stop-hang", "core%d still runs %d ms after %s", idx, (w.now()-from)/1e6, sig)
		w.crash(p, false)
	}
}

// ---- reactions inside stalls ----

func (w *World) extraOp(kind string, node int) *Op {
	w.nextExtra++
	return &Op{ID: w.nextExtra, Kind: kind, Node: node, AtMs: w.ms()}
}

// reactive looks at, or stirs up, a core while one of its goroutines is stalled.
func (w *World) reactive(p *Proc, kind string, ms int64) {
	w.spawn(w.ctl, func() {
		time.Sleep(w.msec(1 + ms/5))
		if p.Dead || w.ended {
			return
		}
		switch kind {
		case "probe":
			w.Hits["probe-in-stall"]++
			w.startProbe(p.Idx, "stall")
		case "traffic":
			w.Hits["traffic-in-stall"]++
			w.live++
			defer func() { w.live-- }()
			label := len(w.P.Tickets)
			w.P.Tickets = append(w.P.Tickets, Spec{Tags: []string{"extra"}})
			op := w.extraOp("create", p.Idx)
			op.T = []int{label}
			c := w.startOp(op)
			w.await(c)
			act := w.extraOp("activate", p.Idx)
			act.T = []int{label}
			w.startOp(act)
		}
	})
}

func (w *World) await(c *Call) {
	for i := 0; !c.Ended && i < 40000; i++ {
		time.Sleep(10 * time.Millisecond)
	}
}

// startProbe asks a core for a pool of everything.
func (w *World) startProbe(idx int, phase string) *Call {
	op := w.extraOp("invoke", idx)
	op.Inv = &Invoke{Pools: []Pool{{Key: "all", Name: "everything"}}, MMFs: []MMFCall{{Host: 0}}}
	c := w.startOp(op)
	c.Probe, c.Phase = true, phase
	return c
}

// ---- evaluation helpers ----

func (w *World) check(prop string) {
	if w.checks == nil {
		w.checks = map[string]int{}
	}
	w.checks[prop]++
}

func (w *World) result(o Options) *Result {
	r := &Result{Faults: map[string]int{}, Hits: w.Hits, Checks: w.checks, Calls: map[string]int{}, SimMs: w.ms(), Runs: len(w.H.Runs), End: w.endReason}
	for _, v := range w.H.Violations {
		if v.known {
			r.Known = append(r.Known, v)
		} else {
			r.Violations = append(r.Violations, v)
		}
	}
	for k, v := range w.Fired {
		r.Faults[k] += v
	}
	for k, v := range w.Net.Fired {
		r.Faults["net-"+k] += v
	}
	if w.Redis != nil {
		for k, v := range w.Redis.Fired {
			r.Faults[k] += v
		}
		r.LogLen = len(w.Redis.Log)
		r.Unknown = w.Redis.Unknown
	}
	h := fnv.New64a()
	evs := append([]Event(nil), w.H.Events...)
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].Seq < evs[j].Seq })
	for _, e := range evs {
		fmt.Fprintf(h, "%d %d %s %s\n", e.Seq, e.T, e.Kind, e.Text)
	}
	rh, picks, _, yields := runtime.DSTStats()
	r.Sched = fmt.Sprintf("%016x", rh)
	r.Hash = fmt.Sprintf("%016x", h.Sum64())
	r.Picks, r.Yields = picks, yields
	for _, c := range w.H.Calls {
		k := c.Kind
		if c.Via == "rest" {
			k = "rest-" + k
		}
		if c.Skipped != "" {
			k = "skipped"
		} else if !c.Ended {
			k += "-unfinished"
		} else if !c.OK {
			k += "-" + c.Code
		}
		r.Calls[k]++
	}
	if o.Pairs {
		for p := range w.pairs {
			r.Pairs = append(r.Pairs, p)
		}
		sort.Slice(r.Pairs, func(i, j int) bool { return r.Pairs[i] < r.Pairs[j] })
		for i, n := range w.siteHits {
			if n > 0 {
				r.Sites = append(r.Sites, i)
			}
		}
	}
	if o.Trace {
		evs = append(append([]Event(nil), evs...), w.poolEvents()...)
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].Seq < evs[j].Seq })
		for _, e := range evs {
			r.Trace = append(r.Trace, fmt.Sprintf("%9.3f %s %s", float64(e.T-w.t0)/1e6, e.Kind, e.Text))
		}
	}
	return r
}

var _ = insts.Sites
