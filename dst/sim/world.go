package sim

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/rt"
	"verif.local/dst/simnet"
	"verif.local/dst/simredis"
	"verif.local/insts"
)

// Proc is one simulated process (an incarnation of a program on a host).
type Proc struct {
	ID      int32
	Kind    string // core, mmf, client, redis
	Host    *simnet.Host
	Idx     int // index among hosts of its kind
	Copy    int // copy of the program (core)
	env     map[string]string
	mux     *http.ServeMux
	sigs    []sigReg
	ignored map[os.Signal]bool
	Dead    bool
	Asked   bool // told to stop or crashed on purpose
	StartT  int64
	ReadyT  int64
	AskT    int64
	DeadT   int64
	Death   string
	pauseTo int64
	StallNs int64
	Stalls  []Span
	goBase  int
	dials   map[string][]int64 // failed connection attempts of the last second
}

// Span is a stretch of simulated time.
type Span struct{ From, To int64 }

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Impair records that something the system depends on was not healthy.
type Impair struct {
	Class string // redis, replica, mmf, client, core, clock
	Core  int    // -1: all
	Mmf   int    // -1: all
	From  int64
	To    int64
	Hard  bool // connections were lost or silent, as opposed to slow
	Kind  string
}

type coreHost struct {
	host *simnet.Host
	cur  *Proc
	all  []*Proc
	busy bool // being stopped and restarted
}

// World is one run.
type World struct {
	twins    map[int]*pb.Ticket // content of tickets that several clients submit
	twinIDs  map[string]int     // which creation a stored one belongs to
	P        *Plan
	Net      *simnet.Net
	Redis    *simredis.Server
	rng      *rand.Rand // harness decisions made while running
	procs    [256]*Proc
	nprocs   int32
	cores    []*coreHost
	copies   int
	mmfs     []*mmfHost
	clis     []*clientHost
	ctl      *Proc // the observer client
	t0       int64
	seq      int64
	H        History
	Impairs  []*Impair
	FaultsOn int

	// hook state
	hookRng    uint64
	yieldMax   uint64
	stalls     map[int]*stallState
	lastNow    int64
	spin       int
	lastSite   int
	lastGoid   uint64
	pairs      map[uint32]struct{}
	siteHits   []uint32
	probesLeft int
	live       int // harness goroutines in flight
	hasForeign bool
	Fired      map[string]int
	Hits       map[string]int // rare-condition probes
	ended      bool
	redisDown  bool
	stallSum   int64
	echo       bool
	nextExtra  int
	sample     *Proc
	ex         *exRun
	settledT   int64
	expiredT   int64
	trimCheckT int64
	callByOp   map[int]*Call
	phase      string
	endReason  string
	onFinish   func()
	checks     map[string]int
}

type stallState struct {
	Stall
	n int
}

func newWorld(p *Plan) *World {
	w := &World{P: p, Net: simnet.New(p.Seed ^ 0xabcdef), rng: rand.New(rand.NewPCG(p.Seed, 4242)),
		hookRng: p.Seed*0x9e3779b97f4a7c15 + 99, stalls: map[int]*stallState{}, pairs: map[uint32]struct{}{},
		siteHits: make([]uint32, len(insts.Sites)), Fired: map[string]int{}, Hits: map[string]int{}, nextExtra: 100000, callByOp: map[int]*Call{}}
	w.Net.Def = simnet.LinkParams{LatUS: p.Cfg.LatUS, JitterUS: p.Cfg.JitterUS, Frag: p.Cfg.Frag, Window: p.Cfg.Window}
	w.yieldMax = uint64(p.Sched.Yield * (1 << 32))
	w.probesLeft = p.Sched.Probes
	site := map[string]int{}
	for i, s := range insts.Sites {
		site[s] = i
	}
	for _, s := range p.Sched.Stalls {
		if i, ok := site[s.Site]; ok {
			w.stalls[i] = &stallState{Stall: s}
		}
	}
	return w
}

// ---- time and events ----

func (w *World) now() int64 { return runtime.DSTNow() }

// ms is simulated time since the start of the workload.
func (w *World) ms() int64 { return (w.now() - w.t0) / 1e6 }

func (w *World) nextSeq() int64 { w.seq++; return w.seq }

func (w *World) proc() *Proc { return w.procs[uint8(runtime.DSTGetNode())] }

func (w *World) newProc(kind string, h *simnet.Host, idx int) *Proc {
	w.nprocs++
	if w.nprocs >= 255 {
		panic("too many simulated processes")
	}
	p := &Proc{ID: w.nprocs, Kind: kind, Host: h, Idx: idx, StartT: w.now(), mux: http.NewServeMux(), env: map[string]string{}}
	w.procs[p.ID] = p
	return p
}

// spawn runs f as a goroutine of a simulated process.
func (w *World) spawn(p *Proc, f func()) {
	go func() {
		runtime.DSTSetNode(p.ID)
		f()
	}()
}

func park() { select {} }

// install connects the simulator to the patched runtime and libraries.
func (w *World) install() {
	w.Net.NodeHost = func() (*simnet.Host, int32, bool) {
		p := w.proc()
		if p == nil {
			return nil, 0, false
		}
		return p.Host, p.ID, p.Dead
	}
	w.Net.OnDialFail = w.dialFailed
	w.Net.OnDial = w.dialed
	net.DSTDial = w.Net.Dial
	net.DSTListen = w.Net.Listen
	net.DSTLookup = w.Net.Lookup
	os.DSTLookupEnv = func(key string) (string, bool, bool) {
		p := w.proc()
		if p == nil {
			return "", false, false
		}
		v, ok := p.env[key]
		return v, ok, true
	}
	os.DSTExit = func(code int) {
		p := w.proc()
		if p == nil {
			return
		}
		if p.Kind != "core" && p.Kind != "mmf" && p.Kind != "example" {
			panic("harness process exits")
		}
		w.procEnd(p, fmt.Sprintf("exit status %d", code), string(debug.Stack()))
		park()
	}
	runtime.DSTPanic = func(e any) {
		p := w.proc()
		if p == nil || p.Kind != "core" && p.Kind != "mmf" && p.Kind != "example" {
			return
		}
		st := string(debug.Stack())
		if p.Kind == "mmf" && !strings.Contains(st, "open-match.dev/") {
			return // a bug of the harness
		}
		w.procEnd(p, fmt.Sprintf("panic: %v", e), st)
		park()
	}
	signal.DSTNotify = func(c chan<- os.Signal, sig []os.Signal) bool {
		p := w.proc()
		if p == nil {
			return false
		}
		p.sigs = append(p.sigs, sigReg{c, append([]os.Signal(nil), sig...)})
		for _, s := range sig {
			delete(p.ignored, s)
		}
		return true
	}
	signal.DSTCancel = func(sig []os.Signal, ignore bool) bool {
		p := w.proc()
		if p == nil {
			return false
		}
		if len(sig) == 0 {
			sig = []os.Signal{syscall.SIGTERM, syscall.SIGINT}
			p.sigs = nil
		}
		for _, s := range sig {
			for i := range p.sigs {
				r := &p.sigs[i]
				if len(r.sigs) == 0 {
					r.sigs = []os.Signal{syscall.SIGTERM, syscall.SIGINT}
				}
				r.sigs = slices.DeleteFunc(r.sigs, func(x os.Signal) bool { return x == s })
			}
			p.sigs = slices.DeleteFunc(p.sigs, func(r sigReg) bool { return len(r.sigs) == 0 })
			if p.ignored == nil {
				p.ignored = map[os.Signal]bool{}
			}
			p.ignored[s] = ignore
		}
		return true
	}
	signal.DSTStop = func(c chan<- os.Signal) bool {
		p := w.proc()
		if p == nil {
			return false
		}
		for i := 0; i < len(p.sigs); i++ {
			if p.sigs[i].c == c {
				p.sigs = append(p.sigs[:i], p.sigs[i+1:]...)
				i--
			}
		}
		return true
	}
	http.DSTServeMux = func() *http.ServeMux {
		if p := w.proc(); p != nil {
			return p.mux
		}
		return nil
	}
	rt.Hook = w.hook
	rt.Fatal = func(why string) {
		if p := w.proc(); p != nil && !p.Dead {
			w.procEnd(p, "fatal error: "+why, string(debug.Stack()))
			park()
		}
	}
}

// dialed checks that a process without redis does not look for one.
func (w *World) dialed(node int32, host string, port int) {
	p := w.procs[uint8(node)]
	if p == nil || p.Kind != "core" || p.Dead || w.P.Cfg.Storage == "redis" {
		return
	}
	w.check("C23")
	if host == "redis" || host == "replica" || port == w.Redis.Port {
		w.violate([]string{"C23"}, "contacts-redis", "core%d connects to %s:%d although it is configured to use memory", p.Idx, host, port)
	}
}

// dialFailed checks that a process does not hammer a peer it cannot reach.
func (w *World) dialFailed(node int32, address string) {
	p := w.procs[uint8(node)]
	if p == nil || p.Kind != "core" || p.Dead || w.ended {
		return
	}
	if p.dials == nil {
		p.dials = map[string][]int64{}
	}
	now := w.now()
	ts := append(p.dials[address], now)
	for ts[0] < now-1e9 {
		ts = ts[1:]
	}
	p.dials[address] = ts
	w.check("C14")
	c := &w.P.Cfg
	limit := 60 + 4*1000/max(1, c.InWait) + 4*1000/max(1, c.OutWait) + int(w.updatesTotal())
	for _, op := range w.P.Ops {
		if op.Inv != nil {
			limit += 4 * len(op.Inv.MMFs)
		}
	}
	if len(ts) > limit {
		w.violate([]string{"C14"}, "dial-storm", "core%d tried to connect to %s %d times within a second although every attempt failed", p.Idx, address, len(ts))
	}
}

// signal delivers a signal to a process, with the default action if it
// registered no handler.
func (w *World) signal(p *Proc, sig syscall.Signal) {
	if p.Dead {
		return
	}
	p.Asked = true
	p.AskT = w.now()
	handled := false
	for _, r := range p.sigs {
		ok := len(r.sigs) == 0
		for _, s := range r.sigs {
			if s == sig {
				ok = true
			}
		}
		if ok {
			handled = true
			select {
			case r.c <- sig:
			default:
			}
		}
	}
	if !handled && !p.ignored[sig] {
		w.procEnd(p, "killed by "+sig.String(), "")
	}
}

// procEnd marks the end of a process: the kernel closes its sockets, its
// goroutines never run another statement.
func (w *World) procEnd(p *Proc, why, stack string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.DeadT = w.now()
	p.Death = why
	w.Net.Kill(p.Host, p.ID, false)
	w.event("proc-end", "%s%d#%d %s", p.Kind, p.Idx, p.ID, why)
	if p.Kind == "core" {
		if !p.Asked {
			w.Impairs = append(w.Impairs, &Impair{Class: "selfdeath", Core: p.Idx, Mmf: -1, From: p.DeadT, To: forever, Kind: why})
			w.violate([]string{"C10"}, "crash:"+crashKey(why, stack), "om-core instance core%d ended by itself at %d ms: %s\n%s", p.Idx, w.ms(), why, trimStack(stack))
		}
	} else if p.Kind == "example" && !p.Asked && !w.ex.failedREST() {
		w.violate([]string{"C24"}, "example-crash:"+crashKey(why, stack), "the example matchmaker ended by itself at %d ms: %s\n%s", w.ms(), why, trimStack(stack))
	} else if p.Kind == "mmf" && !p.Asked {
		w.violate([]string{"C21"}, "mmfcrash:"+crashKey(why, stack), "sample MMF process ended by itself at %d ms: %s\n%s", w.ms(), why, trimStack(stack))
	}
}

const forever = int64(1) << 62

func crashKey(why, stack string) string {
	if i := strings.IndexByte(why, '\n'); i >= 0 {
		why = why[:i]
	}
	if len(why) > 80 {
		why = why[:80]
	}
	return why
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "open-match.dev/") || strings.HasPrefix(l, "panic(") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// crash kills a process without warning.
func (w *World) crash(p *Proc, silent bool) {
	if p == nil || p.Dead {
		return
	}
	p.Asked, p.AskT = true, w.now()
	p.Dead = true
	p.DeadT = w.now()
	p.Death = "crashed by the simulator"
	w.Net.Kill(p.Host, p.ID, silent)
	w.event("crash", "%s%d#%d", p.Kind, p.Idx, p.ID)
}

// ---- scheduling points ----

func (w *World) hrand() uint64 {
	w.hookRng += 0x9e3779b97f4a7c15
	z := w.hookRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const spinLimit = 3_000_000

func (w *World) hook(site int) {
	p := w.procs[uint8(runtime.DSTGetNode())]
	if p == nil {
		return
	}
	if p.Dead {
		park()
	}
	w.siteHits[site]++
	now := runtime.DSTNow()
	if now != w.lastNow {
		w.lastNow, w.spin = now, 0
	} else if w.spin++; w.spin > spinLimit {
		w.spin = 0
		w.violate([]string{"C14", "C24"}, "spin", "%s%d runs forever without waiting at %d ms, around %s", p.Kind, p.Idx, w.ms(), insts.Sites[site])
		w.finish()
	}
	if g := runtime.DSTGoid(); g != w.lastGoid {
		if w.lastGoid != 0 {
			w.pairs[uint32(w.lastSite)<<16|uint32(site)] = struct{}{}
		}
		w.lastGoid = g
	}
	w.lastSite = site
	if p.pauseTo > now {
		time.Sleep(time.Duration(p.pauseTo - now))
		if p.Dead {
			park()
		}
	}
	if len(w.stalls) > 0 {
		if s := w.stalls[site]; s != nil && s.n < s.Max && float64(w.hrand()>>11)/(1<<53) < s.Prob && !w.ended {
			s.n++
			d := s.MinMs
			if s.MaxMs > s.MinMs {
				d += int64(w.hrand() % uint64(s.MaxMs-s.MinMs+1))
			}
			w.stall(p, s, d, site)
		}
	}
	if w.yieldMax > 0 && w.hrand()>>32 < w.yieldMax {
		runtime.DSTYield()
		if p.Dead {
			park()
		}
	}
}

func (w *World) stall(p *Proc, s *stallState, ms int64, site int) {
	from := w.now()
	w.Fired["goroutine-stall"]++
	w.event("stall", "%s%d %s %dms", p.Kind, p.Idx, insts.Sites[site], ms)
	p.StallNs += ms * 1e6
	w.stallSum += ms * 1e6
	p.Stalls = append(p.Stalls, Span{from, from + ms*1e6})
	if s.Probe != "" && w.probesLeft > 0 && p.Kind == "core" && p.ReadyT != 0 {
		w.probesLeft--
		w.reactive(p, s.Probe, ms)
	}
	time.Sleep(time.Duration(ms) * time.Millisecond)
	if p.Dead {
		park()
	}
}

// ---- core processes ----

func (w *World) coreEnv(idx int) map[string]string {
	c := &w.P.Cfg
	read := "redis"
	if c.Replica {
		read = "replica"
	}
	e := map[string]string{
		"PORT":                                    "8080",
		"OM_LOGGING_LEVEL":                        c.LogLevel,
		"OM_MATCH_TICKET_DEACTIVATION_WAIT":       strconv.FormatBool(c.DeactWait),
		"OM_MAX_STATE_UPDATES_PER_CALL":           strconv.Itoa(c.MaxUpd),
		"OM_MMF_TIMEOUT_SECS":                     strconv.Itoa(c.MMFTimeout),
		"OM_STATE_STORAGE_TYPE":                   c.Storage,
		"OM_REDIS_POOL_MAX_IDLE":                  strconv.Itoa(c.PoolIdle),
		"OM_REDIS_POOL_MAX_ACTIVE":                strconv.Itoa(c.PoolActive),
		"OM_REDIS_POOL_IDLE_TIMEOUT":              c.IdleTimeout,
		"OM_REDIS_WRITE_HOST":                     "redis",
		"OM_REDIS_WRITE_PORT":                     strconv.Itoa(w.Redis.Port),
		"OM_REDIS_READ_HOST":                      read,
		"OM_REDIS_READ_PORT":                      strconv.Itoa(w.Redis.Port),
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL":        strconv.Itoa(c.InMax),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":             strconv.Itoa(c.InWait),
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD":        strconv.Itoa(c.OutMax),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":            strconv.Itoa(c.OutWait),
		"OM_CACHE_TICKET_TTL_SECS":                strconv.Itoa(c.TTL),
		"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": strconv.Itoa(c.AssignTTL),
	}
	if c.Replica {
		e["OM_REDIS_READ_PORT"] = strconv.Itoa(w.Redis.RPort)
	}
	if c.Accounts {
		e["OM_REDIS_WRITE_USER"], e["OM_REDIS_WRITE_PASSWORD"] = w.Redis.User, w.Redis.Password
		e["OM_REDIS_READ_USER"], e["OM_REDIS_READ_PASSWORD"] = w.Redis.ReadUser, w.Redis.ReadPassword
	}
	if c.LogFormat != "" {
		e["OM_LOGGING_FORMAT"] = c.LogFormat
	}
	if c.Verbose {
		e["OM_VERBOSE"] = "true"
	}
	return e
}

func (w *World) skewNs(idx int) int64 {
	if idx < len(w.P.Cfg.SkewMs) {
		return w.P.Cfg.SkewMs[idx] * 1e6
	}
	return 0
}

// startCore starts an om-core process on a core host; false if no copy is left.
func (w *World) startCore(idx int) bool {
	if w.copies >= len(insts.Core) {
		return false
	}
	ch := w.cores[idx]
	p := w.newProc("core", ch.host, idx)
	p.Copy = w.copies
	w.copies++
	p.env = w.coreEnv(idx)
	ch.cur = p
	ch.all = append(ch.all, p)
	runtime.DSTSetSkew(p.ID, w.skewNs(idx))
	w.event("core-start", "core%d#%d copy %d", idx, p.ID, p.Copy)
	w.spawn(p, func() {
		insts.Core[p.Copy]()
		if !p.Asked {
			w.procEnd(p, "main returned", "")
		} else {
			w.procEnd(p, "stopped", "")
		}
		park()
	})
	return true
}

// waitReady waits until the gRPC and HTTP servers listen.
func (w *World) waitReady(idx int) bool {
	p := w.cores[idx].cur
	limit := w.now() + 20e9
	for w.now() < limit && !p.Dead {
		if p.Host.Listening(8080) && p.Host.Listening(58081) {
			p.ReadyT = w.now()
			p.goBase = runtime.DSTNodeGoroutines(p.ID)
			w.event("core-ready", "core%d#%d", idx, p.ID)
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (w *World) coreAlive(idx int) bool {
	if idx < 0 || idx >= len(w.cores) {
		return false
	}
	p := w.cores[idx].cur
	return p != nil && !p.Dead && p.ReadyT != 0
}

// ---- bookkeeping ----

// Event is one line of the run's log.
type Event struct {
	Seq  int64
	T    int64
	Kind string
	Text string
}

func (w *World) event(kind, format string, a ...any) {
	if w.echo {
		println(w.ms(), kind, fmt.Sprintf(format, a...))
	}
	w.H.Events = append(w.H.Events, Event{w.nextSeq(), w.now(), kind, fmt.Sprintf(format, a...)})
}

// Violation is one broken obligation.
type Violation struct {
	Props []string `json:"props"`
	Key   string   `json:"key"` // class: which obligation, not which instance
	Msg   string   `json:"msg"`
	known bool
}

func (w *World) violate(props []string, key, format string, a ...any) {
	for _, v := range w.H.Violations {
		if v.Key == key {
			return // one per class is enough
		}
	}
	w.H.Violations = append(w.H.Violations, Violation{Props: props, Key: key, Msg: fmt.Sprintf(format, a...)})
}

func (w *World) impair(class string, core, mmf int, hard bool, kind string) *Impair {
	im := &Impair{Class: class, Core: core, Mmf: mmf, From: w.now(), To: forever, Hard: hard, Kind: kind}
	w.Impairs = append(w.Impairs, im)
	return im
}

// impaired reports whether a dependency was impaired at some time in
// [from, to], counting grace after its end (proportional to its length).
func (w *World) impaired(classes string, core, mmf int, from, to int64, grace bool) bool {
	for _, im := range w.Impairs {
		if !strings.Contains(" "+classes+" ", " "+im.Class+" ") {
			continue
		}
		if im.Core >= 0 && core >= 0 && im.Core != core {
			continue
		}
		if im.Mmf >= 0 && mmf >= 0 && im.Mmf != mmf {
			continue
		}
		end := im.To
		if grace && end < forever {
			end += 3e9 + (im.To - im.From)
			if im.Class == "client" {
				end += 5e9 // a connection attempt cut off by it takes that long to fail
			}
		}
		if im.From <= to && end >= from {
			return true
		}
	}
	return false
}

// lastImpairEnd is when the last impairment (of these classes) ended, with grace.
func (w *World) lastImpairEnd(classes string) int64 {
	var t int64
	for _, im := range w.Impairs {
		if strings.Contains(" "+classes+" ", " "+im.Class+" ") && im.To < forever {
			t = max(t, im.To+3e9+(im.To-im.From))
			if im.Class == "client" {
				t = max(t, im.To+8e9+(im.To-im.From))
			}
		}
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = context.Background
