package plan

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
)

// Props is the number of properties.
const Props = 24

// Hot are scheduling points in or next to code that differs from the code the
// checks were written for. Goroutines are held there more often.
var Hot []string

// Gen generates the plan of one run that concentrates on a property. The plan is
// a function of the arguments.
func Gen(prop string, seed uint64, sites []string) *Plan {
	h := uint64(14695981039346656037)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	g := &gen{r: rand.New(rand.NewPCG(seed, h)), prop: prop, sites: sites}
	g.p = &Plan{Seed: seed*2654435761 + h%1000003, Prop: prop}
	g.config()
	if prop == "C24" {
		g.example()
		return g.p
	}
	g.tuneFor()
	g.workload()
	g.faults()
	g.sched()
	g.final()
	return g.p
}

type gen struct {
	r     *rand.Rand
	p     *Plan
	prop  string
	sites []string

	w             weights
	nOps          int
	maxT          int // tickets per activation
	burst         float64
	rest          float64
	fkinds        []string
	fmax          int
	matchP        float64 // probability that an MMF returns matches
	bigTix        bool
	wide, wideTix int // pools of a wide profile, tickets in them so far
	flap          bool
	samePad       int // every ticket is this large
	probeMs       int64
	bulk          bool // many tickets per call, per pool and per match
	large         bool // single tickets of nearly the largest size that fits
	hangers       bool // calls of many functions, most of which hang
	bodyPad       int
	mono          string // one kind of operation again and again
	monoBad       int
	monoEnd       int
	stallP        float64
	live          float64
	expire        float64
	join          float64
	stop          float64

	created []labelAt
	active  []int
	nextID  int
}

type labelAt struct {
	l  int
	at int64
}

type weights struct {
	create, activate, deactivate, invoke, assign, watch, bad, metrics, sample int
}

func (g *gen) n(n int) int {
	if n <= 0 {
		return 0
	}
	return g.r.IntN(n)
}
func (g *gen) between(a, b int) int { return a + g.n(b-a+1) }
func (g *gen) b64(a, b int64) int64 { return a + g.r.Int64N(b-a+1) }
func (g *gen) p1(p float64) bool    { return g.r.Float64() < p }
func pick[T any](g *gen, xs ...T) T { return xs[g.n(len(xs))] }
func (g *gen) is(props ...string) bool {
	for _, p := range props {
		if p == g.prop {
			return true
		}
	}
	return false
}

func (g *gen) config() {
	c := &g.p.Cfg
	*c = Cfg{
		Storage: "redis", Cores: pick(g, 1, 2, 2, 2, 3),
		InWait: pick(g, 20, 50, 50, 100, 200, 500), InMax: pick(g, 3, 10, 100, 100, 10000),
		OutWait: pick(g, 5, 20, 50, 100, 500), OutMax: pick(g, 1, 2, 5, 10, 50),
		TTL: pick(g, 30, 60, 600), AssignTTL: pick(g, 30, 60, 600), MaxUpd: pick(g, 20, 50, 500),
		MMFTimeout: pick(g, 2, 5, 10, 500), PoolIdle: pick(g, 1, 2, 5, 500), PoolActive: pick(g, 2, 5, 20, 500),
		IdleTimeout: pick(g, "0", "5s", "60s"), DeactWait: g.p1(0.5),
		LogLevel: pick(g, "error", "error", "info", "debug", "trace"), LogFormat: pick(g, "", "json", "text"),
		LatUS: pick(g, int64(50), 300, 1000, 5000), JitterUS: pick(g, int64(0), 200, 1000, 8000),
		Frag: g.p1(0.3), Window: pick(g, 4096, 65536, 65536, 1<<20), MMFHosts: pick(g, 1, 2, 3), Clients: pick(g, 1, 2, 4),
		NoReuse: g.p1(0.2),
	}
	if c.OutWait == 500 && g.p1(0.6) {
		c.OutWait = 50
	}
	mem := 0.12
	switch g.prop {
	case "C20":
		mem = 1
	case "C05", "C13", "C19", "C17":
		mem = 0
	case "C21", "C07":
		mem = 0.3
	}
	if g.p1(mem) {
		c.Storage, c.Cores = "memory", 1
	} else if g.p1(0.2) {
		c.Replica = true
		c.ReplicaLag = pick(g, int64(0), 2, 20, 150)
	}
}

// tuneFor sets the emphasis of a run.
func (g *gen) tuneFor() {
	c := &g.p.Cfg
	g.w = weights{create: 30, activate: 20, deactivate: 8, invoke: 14, assign: 8, watch: 6, bad: 2, metrics: 1}
	g.nOps = g.between(20, 70)
	g.p.WorkMs = g.b64(1500, 6000)
	g.maxT = 6
	g.burst = 0.3
	g.rest = 0.12
	g.matchP = 0.6
	g.fmax = 2
	g.stallP = 0.5
	g.live, g.join, g.stop, g.expire = 0.5, 0.3, 0.15, 0.05
	g.fkinds = []string{"core-crash", "core-stop", "core-pause", "redis-down", "part-redis", "part-mmf", "part-client", "reset-redis", "reset-client", "reset-mmf",
		"slow-redis", "slow-client", "slow-mmf", "rule", "rule", "mmf-crash", "client-gone", "clock"}
	switch g.prop {
	case "C01":
		g.w.create, g.w.activate = 60, 25
		g.burst = 0.6
		g.fkinds = []string{"rule", "rule", "redis-down", "core-crash", "reset-redis", "part-redis", "redis-clock", "clock", "core-stop"}
	case "C02":
		g.w.create, g.w.activate, g.w.invoke = 40, 12, 25
		g.stallP = 0.85
		g.probeMs = pick(g, int64(0), 40, 150)
		g.fmax = 1
		if g.p1(0.3) {
			// Tickets that never became active also end.
			c.TTL = pick(g, 3, 4, 6)
			g.p.WorkMs = int64(c.TTL)*1000 + g.b64(1000, 4000)
			g.w.activate = 4
			g.probeMs = pick(g, int64(40), 150)
		}
	case "C03":
		g.w.activate, g.w.invoke, g.w.deactivate, g.w.assign, g.w.watch = 25, 14, 4, 3, 2
		g.probeMs = pick(g, int64(100), 300, 800)
		g.matchP = 0.25
	case "C04":
		g.w.deactivate, g.w.invoke, g.w.assign, g.w.watch = 14, 22, 3, 2
		c.MaxUpd = pick(g, 3, 5, 20, 500)
		g.probeMs = pick(g, int64(100), 300, 800)
		g.matchP = 0.85
		g.stallP = 0.6
	case "C05":
		g.w.activate, g.w.deactivate, g.w.assign, g.w.watch = 30, 20, 2, 2
		g.nOps = g.between(30, 120)
		g.probeMs = pick(g, int64(0), 50, 200)
		c.Cores = pick(g, 2, 2, 3)
		g.join = 0.7
		g.fmax = 4
		g.fkinds = []string{"core-crash", "core-crash", "core-stop", "core-pause", "redis-down", "part-redis", "reset-redis", "slow-redis", "rule", "rule", "part-replica", "replica-stall", "redis-clock"}
		c.InMax = pick(g, 1, 3, 3, 10, 100)
	case "C06":
		g.w.invoke, g.w.create = 30, 50
		g.matchP = 0.1
		g.fmax = 1
		g.nOps = g.between(40, 140)
		g.maxT = 20
	case "C07":
		g.w.invoke, g.w.create, g.w.deactivate = 14, 50, 3
		g.matchP = 0.2
		g.fkinds = []string{"part-mmf", "reset-mmf", "mmf-crash", "slow-mmf", "core-pause"}
		g.bigTix = g.p1(0.5)
		if g.p1(0.25) {
			// Chunks with the same number of tickets.
			g.samePad = pick(g, 700_000, 1_200_000, 1_900_000, 2_500_000)
			g.nOps = min(g.nOps, 40)
		}
		g.maxT = 20
		g.fmax = 1
		if c.MaxUpd < 50 {
			c.MaxUpd = 50
		}
		if g.p1(0.06) {
			// Profiles whose pools themselves weigh something.
			g.wide, g.bigTix, g.samePad = pick(g, 300, 600, 900), false, 0
			g.nOps = min(g.nOps, 40)
		}
	case "C08":
		g.w.invoke, g.w.assign, g.w.watch = 40, 3, 2
		g.matchP = 0.9
		g.stallP = 0.75
		g.bigTix = g.p1(0.04)
		g.fkinds = []string{"part-mmf", "reset-mmf", "mmf-crash", "slow-mmf", "slow-client", "core-pause", "rule", "slow-redis"}
		g.fmax = 1
	case "C09":
		g.w.invoke, g.w.assign, g.w.watch = 40, 2, 2
		g.matchP = 0.8
		c.MMFTimeout = pick(g, 1, 2, 2, 5)
		if g.p1(0.12) {
			g.bigTix, c.MMFTimeout = true, 5
		}
		g.fkinds = []string{"part-mmf", "part-mmf", "reset-mmf", "mmf-crash", "mmf-crash", "slow-mmf", "core-pause", "rule"}
		g.fmax = 2
		g.stallP = 0.6
		c.MMFHosts = pick(g, 2, 3, 4)
		if !g.bigTix && g.p1(0.12) {
			g.hangers = true
			c.MMFTimeout = pick(g, 2, 5, 10)
			g.nOps = min(g.nOps, 40)
		}
	case "C10":
		g.w = weights{create: 22, activate: 15, deactivate: 10, invoke: 25, assign: 10, watch: 12, bad: 8, metrics: 3}
		g.stallP = 0.8
		g.fmax = 4
		g.rest = 0.25
		c.MMFTimeout = pick(g, 1, 2, 5)
	case "C11":
		c.TTL = pick(g, 3, 4, 6, 8)
		g.p.WorkMs = int64(c.TTL)*1000 + g.b64(1000, 7000)
		g.nOps = g.between(30, 90)
		g.w.activate, g.w.invoke = 25, 18
		g.matchP = 0.1
		g.probeMs = pick(g, int64(150), 400)
		g.join = 0.6
		g.fmax = 1
		g.fkinds = []string{"core-crash", "core-stop", "part-redis", "core-pause", "rule", "redis-down"}
		g.stallP = 0.4
	case "C12":
		c.TTL, c.AssignTTL = pick(g, 3, 5, 8), pick(g, 1, 3, 6)
		g.w.watch, g.w.assign = 12, 12
		g.expire = 1
		g.fmax = 1
		g.fkinds = []string{"core-crash", "core-pause", "part-redis", "rule", "client-gone", "part-client", "part-mmf", "redis-down"}
	case "C13":
		g.w.invoke, g.w.watch = 5, 1
		g.fmax = 4
		g.fkinds = []string{"rule", "rule", "rule", "rule", "core-crash", "core-crash", "redis-down", "reset-redis", "part-redis", "core-stop", "slow-redis"}
		g.burst = 0.6
		g.maxT = 15
	case "C14":
		g.fmax = 4
		g.live = 1
		c.PoolActive, c.PoolIdle = pick(g, 2, 3, 5, 10), pick(g, 1, 2, 5)
		g.fkinds = []string{"redis-down", "redis-down", "part-redis", "part-redis", "part-client", "part-mmf", "client-gone", "client-gone", "reset-redis", "slow-redis", "rule", "rule", "core-pause", "mmf-crash", "part-replica", "replica-stall"}
		if g.p1(0.3) {
			g.nOps = g.between(100, 300)
			g.p.WorkMs = 15000
			if g.p1(0.6) {
				// Nothing leaks, whatever happens again and again.
				g.mono = pick(g, "bad", "bad", "invoke", "invoke", "invoke", "watch", "create", "activate", "assign")
				g.monoBad, g.monoEnd = g.n(12), g.n(10)
				g.nOps = g.between(150, 260)
				c.MMFTimeout = pick(g, 1, 2, 5)
				switch n := 400; g.mono {
				case "bad":
					g.w.bad = n
				case "invoke":
					g.w.invoke = n
				case "watch":
					g.w.watch = n
				case "create":
					g.w.create = n
				case "activate":
					g.w.activate = n
				case "assign":
					g.w.assign = n
				}
			}
		}
		if c.Storage == "redis" && g.p1(0.2) {
			g.flap = true
			g.p.WorkMs = 25000
			g.nOps = g.between(60, 150)
		}
	case "C15":
		g.w = weights{create: 30, activate: 10, deactivate: 4, invoke: 3, assign: 28, watch: 30, bad: 1, metrics: 1}
		g.fkinds = []string{"core-crash", "core-pause", "part-redis", "reset-redis", "part-client", "reset-client", "client-gone", "rule", "slow-redis", "slow-client", "redis-down"}
		if g.p1(0.4) {
			c.TTL = pick(g, 3, 5, 8)
			c.AssignTTL = pick(g, 2, 5, 60)
			g.expire = 0.4
		}
		g.maxT = 8
	case "C16":
		g.w = weights{create: 25, activate: 20, deactivate: 12, invoke: 8, assign: 10, watch: 3, bad: 30, metrics: 1}
		c.MaxUpd = pick(g, 2, 3, 5, 8)
		g.fmax = 1
		g.burst = 0.5
	case "C17":
		g.w = weights{create: 35, activate: 35, deactivate: 20, invoke: 4, assign: 12, bad: 6}
		g.burst = 0.9
		g.nOps = g.between(30, 120)
		c.OutMax = pick(g, 2, 3, 5, 10, 50)
		c.OutWait = pick(g, 20, 50, 100)
		g.fkinds = []string{"rule", "rule", "rule", "core-pause", "reset-redis"}
		g.fmax = 3
		g.maxT = 10
		c.Clients = pick(g, 2, 4, 6)
	case "C18":
		g.rest = 0.85
		g.w.bad, g.w.watch = 8, 8
		g.matchP = 0.7
		if g.p1(0.1) {
			g.bodyPad = pick(g, 40_000, 70_000, 300_000, 1_100_000)
		}
	case "C19":
		c.Cores = pick(g, 2, 2, 3)
		g.fkinds = []string{"core-stop", "core-stop", "core-stop", "core-stop", "slow-redis", "rule", "core-pause"}
		g.fmax = 3
		g.join = 0.6
		g.stop = 0.8
		g.burst = 0.5
		g.stallP = 0.7
	case "C20":
		c.Storage, c.Cores = "memory", 1
		g.fkinds = []string{"clock", "clock", "clock", "core-pause", "part-mmf", "mmf-crash", "client-gone", "slow-client", "reset-mmf", "part-client"}
		g.fmax = 2
		g.nOps = g.between(40, 140)
		g.burst = 0.6
		g.maxT = 15
		g.w.watch, g.w.assign = 10, 12
		g.probeMs = pick(g, int64(0), 60, 300)
		c.InMax = pick(g, 1, 3, 10, 50, 10000)
		g.expire = 0.1
		if g.p1(0.2) {
			c.TTL, c.AssignTTL = pick(g, 5, 8), pick(g, 3, 8)
			g.p.WorkMs = int64(c.TTL)*1000 + 3000
			g.expire = 0.6
		}
	case "C22":
		g.w = weights{create: 24, activate: 18, deactivate: 8, invoke: 16, assign: 12, watch: 12, bad: 6, metrics: 5}
		c.TTL = pick(g, 4, 8, 8, 20, 60)
		g.rest = 0.25
		g.fmax = 1
		g.stallP = 0.3
		g.live = 0.2
	case "C23":
		if c.Storage == "redis" {
			c.Replica = g.p1(0.5)
			c.ReplicaLag = pick(g, int64(0), 2, 20)
		}
		g.w = weights{create: 40, activate: 30, deactivate: 12, invoke: 6, assign: 10, watch: 2, bad: 2, metrics: 1}
		c.OutMax, c.OutWait = pick(g, 1, 2, 3, 5, 10, 25, 50), pick(g, 5, 50, 100, 300, 500, 1000)
		c.InMax, c.InWait = pick(g, 1, 2, 3, 5, 10, 100, 10000), pick(g, 20, 50, 200, 500, 1500)
		c.PoolActive, c.PoolIdle = pick(g, 1, 1, 2, 3), pick(g, 1, 1, 2)
		c.LatUS, c.JitterUS = min(c.LatUS, 1000), min(c.JitterUS, 1000)
		g.burst = pick(g, 0, 0.1, 0.5, 0.9)
		g.nOps = g.between(20, 100)
		g.maxT = pick(g, 1, 3, 20)
		g.fkinds = []string{"core-crash", "redis-down", "reset-redis", "rule", "part-redis", "slow-redis", "core-stop", "part-client"}
		g.fmax = 2
		g.stallP = 0.3
		if g.p1(0.5) {
			g.fmax = 0
		}
		if g.p1(0.3) {
			n := g.between(5, 120)
			c.Preload = &Preload{N: n, Size: 50, Active: n / 2, AgeMs: 2000}
		}
	case "C21":
		g.w = weights{create: 30, activate: 20, invoke: 6, deactivate: 3, sample: 25}
		if g.p1(0.12) && c.Storage == "redis" {
			n := pick(g, 99, 100, 120, 200, 310)
			c.Preload = &Preload{N: n, Size: pick(g, 0, 100), Active: n, AgeMs: 2000}
			g.nOps = min(g.nOps, 30)
		}
		g.fkinds = []string{"part-mmf", "slow-mmf", "core-pause"}
		g.fmax = 0
		g.stallP = 0.5
	}
	if g.p1(0.05) && g.wide == 0 && !g.bigTix && c.Preload == nil && !g.is("C21") {
		g.bulk = true
		c.MaxUpd = pick(g, 60, 100, 150, 500)
		c.OutMax, c.OutWait = pick(g, 20, 50, 200), min(c.OutWait, 50)
		c.InMax, c.InWait = pick(g, 10, 50, 100, 10000), min(c.InWait, 100)
		g.maxT = min(c.MaxUpd, 120)
		g.nOps = min(g.nOps, 25)
		g.stallP = min(g.stallP, 0.4)
	}
	if g.p1(0.015) && g.wide == 0 && !g.bigTix && !g.bulk || g.is("C07") && g.bigTix && g.samePad == 0 && g.p1(0.3) {
		g.bigTix, g.large = true, true
		g.nOps = min(g.nOps, 25)
	}
	if c.Replica && g.p1(0.4) {
		g.fkinds = append(g.fkinds, "part-replica", "replica-stall", "reset-replica")
	}
	if g.is("C05", "C10", "C12", "C14") && g.p1(0.35) {
		g.fkinds = append(g.fkinds, "redis-foreign", "redis-foreign")
	}
	// One run in a few is calm: every obligation applies.
	if g.p1(0.3) && !g.is("C14", "C19") {
		g.fmax = 0
	}
	if g.is("C19", "C14") && g.p1(0.1) {
		g.fmax = 1
	}
	if c.Storage == "redis" && (g.is("C23") && g.p1(0.7) || g.p1(0.1)) {
		c.Accounts = true
	}
	if c.Storage == "redis" && (g.is("C23") && g.p1(0.5) || g.p1(0.1)) {
		c.Port, c.ReadPort = pick(g, 6379, 6380, 7000), pick(g, 6379, 6381)
	}
	g.fixConfig()
}

// fixConfig keeps a run within what the oracles can bound.
func (g *gen) fixConfig() {
	c := &g.p.Cfg
	if c.Storage == "memory" {
		c.Cores, c.Replica, c.ReplicaLag = 1, false, 0
		if c.InMax < 10 && c.InWait > 50 {
			c.InWait = 50
		}
	}
	if c.InMax <= 3 && c.InWait > 100 {
		c.InWait = pick(g, 20, 50, 100)
	}
	if g.bigTix || g.wide > 0 {
		// A batch of large tickets has to get through within a read timeout.
		c.Window = 1 << 20
		c.LatUS, c.JitterUS = min(c.LatUS, 500), min(c.JitterUS, 200)
		c.Frag = false
	}
	if c.IdleTimeout == "5s" && c.InWait > 1000 {
		c.IdleTimeout = "0"
	}
}

// ---- tickets ----

func (g *gen) newTicket() int {
	twin := 0.02
	if g.is("C01") {
		twin = 0.08
	}
	if n := len(g.p.Tickets); n > 0 && g.p1(twin) {
		// The same again, as a client that tries again would send it.
		l := n - 1 - g.n(min(n, 3))
		t := g.p.Tickets[l]
		if t.Twin == 0 {
			t.Twin = l + 1
		}
		g.p.Tickets = append(g.p.Tickets, t)
		return n
	}
	s := Spec{}
	for _, t := range []string{"a", "b", "c"} {
		if g.p1(0.4) {
			s.Tags = append(s.Tags, t)
		}
	}
	if g.p1(0.05) {
		s.Tags = append(s.Tags, "", "a")
	}
	if g.p1(0.6) {
		s.Str = map[string]string{}
		if g.p1(0.7) {
			s.Str["mode"] = pick(g, "x", "y", "")
		}
		if g.p1(0.4) {
			s.Str["map"] = pick(g, "p", "q")
		}
	}
	if g.is("C06") && g.p1(0.25) {
		// Almost what a filter asks for.
		if s.Str == nil {
			s.Str = map[string]string{}
		}
		s.Str[pick(g, "mode", "mode", "Mode", "mode ", "mod")] = pick(g, "x ", " x", "X", "xx", "x\t", "ｘ", "y\u0301", "ý", "0", "00")
		s.Tags = append(s.Tags, pick(g, "A", "a ", " a", "aa", "á", "a\n", "ab"))
	}
	if g.is("C21") && g.p1(0.9) {
		if s.Str == nil {
			s.Str = map[string]string{}
		}
		s.Str["mode"] = pick(g, "x", "y", "z", "z", "z")
	}
	if g.p1(0.7) {
		s.Dbl = map[string]float64{"mmr": g.dbl()}
		if g.p1(0.3) {
			s.Dbl["lat"] = g.dbl()
		}
	}
	if g.p1(0.06) {
		s = Spec{NoAttr: true}
	}
	if g.p1(0.15) {
		s.Pad = pick(g, 1, 100, 2000)
	}
	if g.wide > 0 && g.wideTix < 3 && g.p1(0.4) {
		g.wideTix++
		s.NoAttr = false
		s.Tags = append(s.Tags, "wide")
		s.Pad = pick(g, 5000, 9000, 14_000)
	}
	if g.bodyPad > 0 && g.p1(0.3) {
		s.Pad = g.bodyPad
	}
	if g.p1(0.03) {
		s.Many = pick(g, 1, 3, 8, 17, 40)
		if g.is("C01") {
			s.Many = pick(g, 9, 33, 70, 130)
		}
	}
	if g.bigTix && g.samePad > 0 {
		s.Pad = g.samePad
	} else if g.large && g.p1(0.3) {
		s.Pad = pick(g, 2_200_000, 3_000_000, 3_900_000, 4_000_000)
	} else if g.bigTix && g.p1(0.5) {
		s.Pad = pick(g, 50_000, 200_000, 400_000, 900_000, 1_500_000)
	}
	if g.p1(0.2) && !s.NoAttr {
		v := -pick(g, int64(0), 1, 500, 1000, 1500, 2000)
		s.Create = &v
	}
	exp := 0.12
	if g.is("C11", "C01", "C12") {
		exp = 0.45
	}
	if g.p1(exp) {
		v := g.b64(400, int64(g.p.Cfg.TTL)*1000+3000)
		if v > 20000 {
			v = g.b64(400, 8000)
		}
		if g.p1(0.08) {
			v = -g.b64(0, 3000)
		}
		s.Expire = &v
	}
	if g.p1(0.04) {
		s.BadTimes, s.Create, s.Expire = true, nil, nil
	}
	if g.p1(0.08) {
		s.GiveID = pick(g, "x", "1-1", "0-0")
	}
	g.p.Tickets = append(g.p.Tickets, s)
	return len(g.p.Tickets) - 1
}

func (g *gen) dbl() float64 {
	if g.p1(0.08) {
		return pick(g, NaN, NaN, Inf, -Inf, NegZero)
	}
	return pick(g, 0, 1, 2, 3, 4, 5, -1, 0.1, 0.30000000000000004, 2.5, 0, 1e300, -1e300, 5e-324)
}

// ---- operations ----

func (g *gen) op(at int64, kind string) *Op {
	g.nextID++
	o := &Op{ID: g.nextID, AtMs: at, Kind: kind, Node: g.n(g.p.Cfg.Cores), Client: g.n(g.p.Cfg.Clients)}
	if g.p1(g.rest) && kind != "metrics" && kind != "sample" {
		o.Via = "rest"
	}
	g.p.Ops = append(g.p.Ops, o)
	return o
}

func (g *gen) some(from []int, most int) []int {
	if len(from) == 0 {
		return nil
	}
	k := 1 + g.n(most)
	if g.p1(0.3) {
		k = 1
	}
	var out []int
	for i := 0; i < k; i++ {
		out = append(out, from[g.n(len(from))])
	}
	// Mostly distinct; a repeated id within a call is legal too.
	if !g.p1(0.1) {
		seen := map[int]bool{}
		j := 0
		for _, x := range out {
			if !seen[x] {
				seen[x] = true
				out[j] = x
				j++
			}
		}
		out = out[:j]
	}
	return out
}

func (g *gen) labels(at int64, lag int64) []int {
	var out []int
	for _, c := range g.created {
		if c.at+lag <= at {
			out = append(out, c.l)
		}
	}
	return out
}

func (g *gen) workload() {
	c := &g.p.Cfg
	times := make([]int64, g.nOps)
	var last int64 = 50
	for i := range times {
		if i > 0 && g.p1(g.burst) {
			times[i] = last + int64(g.n(3))
			continue
		}
		times[i] = g.b64(30, g.p.WorkMs)
		last = times[i]
	}
	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
	// A first stock, so that there is something to work on.
	stock := g.between(1, 12)
	if g.bulk {
		stock = g.between(50, 180)
	}
	for i := 0; i < stock; i++ {
		o := g.op(int64(20+g.n(60)), "create")
		l := g.newTicket()
		o.T = []int{l}
		g.created = append(g.created, labelAt{l, o.AtMs})
	}
	w := g.w
	if c.MaxUpd > 1 {
		o := g.op(150+int64(c.OutWait), "activate")
		o.T = g.some(g.labels(o.AtMs, 0), min(c.MaxUpd, max(12, g.maxT)))
		if g.bulk {
			o.AtMs += 100
			o.T = g.labels(o.AtMs, 0)
			o.T = o.T[:min(len(o.T), g.between(min(c.MaxUpd, 30), c.MaxUpd))]
		}
		g.active = append(g.active, o.T...)
	}
	total := w.create + w.activate + w.deactivate + w.invoke + w.assign + w.watch + w.bad + w.metrics + w.sample
	for _, at := range times {
		x := g.n(total)
		lag := int64(0)
		if g.p1(0.7) {
			lag = int64(c.OutWait)
		}
		sub := func(n int) bool {
			x -= n
			return x < 0
		}
		limit := min(g.maxT, c.MaxUpd)
		switch {
		case sub(w.create):
			o := g.op(at, "create")
			l := g.newTicket()
			o.T = []int{l}
			g.created = append(g.created, labelAt{l, at})
			g.custom(o)
			if g.p1(0.35) && at+int64(c.OutWait)+50 < g.p.WorkMs {
				a := g.op(at+int64(c.OutWait)+int64(g.n(200)), "activate")
				a.T = []int{l}
				g.active = append(g.active, l)
			}
		case sub(w.activate):
			ls := g.labels(at, lag)
			if len(ls) == 0 {
				continue
			}
			o := g.op(at, "activate")
			o.T = g.some(ls, limit)
			g.active = append(g.active, o.T...)
			g.mixInvalid(o, 0.12)
			g.custom(o)
		case sub(w.deactivate):
			ls := g.active
			if len(ls) == 0 || g.p1(0.15) {
				ls = g.labels(at, lag)
			}
			if len(ls) == 0 {
				continue
			}
			o := g.op(at, "deactivate")
			o.T = g.some(ls, min(limit, 4))
			if g.bulk {
				o.T = g.some(ls, limit)
			}
			g.mixInvalid(o, 0.12)
			g.custom(o)
		case sub(w.invoke):
			o := g.op(at, "invoke")
			o.Inv = g.invoke()
			if g.p1(0.1) {
				o.SlowMs = pick(g, int64(5), 50, 300)
				for i := range o.Inv.MMFs {
					if len(o.Inv.MMFs[i].Matches) > 40 {
						o.SlowMs = 0 // it would take longer than clients wait
					}
				}
			}
			if g.p1(0.08) {
				o.Cancel = g.b64(1, 800)
			} else if g.mono == "invoke" && g.monoEnd == 9 {
				o.Cancel = g.b64(1, 300)
			}
		case sub(w.assign):
			ls := g.labels(at, lag)
			if len(ls) == 0 {
				continue
			}
			o := g.op(at, "assign")
			o.T = g.some(ls, limit)
			if g.p1(0.12) {
				// The limit of updates per call is none of assignments.
				o.T = g.some(ls, max(limit, 60))
			}
			if c.MaxUpd <= 50 && len(ls) > c.MaxUpd && g.p1(0.25) {
				o.T = ls[:c.MaxUpd+1+g.n(len(ls)-c.MaxUpd)]
			}
			o.Conn = fmt.Sprintf("10.0.%d.%d:7777", g.n(250), o.ID)
			if g.p1(0.06) || g.is("C17") && g.p1(0.3) {
				o.Conn = ""
			}
			if g.p1(0.06) || g.is("C12") && g.p1(0.2) {
				o.Bad = "oddassign"
				o.Raw = append(o.Raw, pick(g, "not-an-id", "garbage", "abc-1", "x1-1", "é1-1", "-1", "player 1"))
			}
			if g.p1(0.04) && o.Bad == "" {
				o.Many = pick(g, 2, 10, 40, 100)
			}
			g.custom(o)
			if g.p1(0.12) && o.Bad == "" && len(o.T) > 0 {
				// Somewhere else after all, right away.
				n := g.op(at+g.b64(1, 300), "assign")
				n.T, n.Conn, n.Many = o.T, fmt.Sprintf("10.1.%d.%d:7777", g.n(250), n.ID), o.Many
				if g.p1(0.5) {
					n.T, n.Node = o.T[:1], o.Node
				}
			}
		case sub(w.watch):
			ls := g.labels(at, lag)
			if len(ls) == 0 {
				continue
			}
			o := g.op(at, "watch")
			o.T = g.some(ls, 5)
			if g.p1(0.12) {
				o.T = g.some(ls, g.between(10, 40))
			}
			if g.bulk && g.p1(0.5) {
				o.T = g.some(ls, g.between(30, 150))
			}
			switch {
			case g.p1(0.25):
				o.Cancel = g.b64(20, 1500)
			case g.p1(0.6) || c.TTL > 60:
				o.Cancel = g.b64(1500, 9000)
			}
			if g.p1(0.1) {
				o.Raw = append(o.Raw, g.invalidID())
			}
			if g.p1(0.1) {
				o.SlowMs = pick(g, int64(5), 50, 300)
			}
		case sub(w.bad):
			g.bad(at)
		case sub(w.metrics):
			g.op(at, "metrics")
		case sub(w.sample):
			g.sample(at)
		}
	}
	if g.probeMs > 0 {
		for t := 200 + g.b64(0, 200); t < g.p.WorkMs+500; t += g.probeMs {
			for n := 0; n < c.Cores; n++ {
				if g.p1(0.25) {
					continue
				}
				o := g.op(t, "invoke")
				o.Node, o.Via = n, ""
				o.Inv = &Invoke{Pools: []Pool{{Key: "all", Name: "all"}}, MMFs: []MMFCall{{Host: g.n(c.MMFHosts)}}}
			}
		}
	}
	if g.prop == "C07" && g.p1(0.012) {
		g.hugePools()
	}
}

// custom sometimes gives a call a deadline of its own, or lets its client give up.
func (g *gen) custom(o *Op) {
	t, c := 0.05, 0.03
	if g.mono == o.Kind {
		t, c = 0.1*float64(g.monoEnd%4), 0.1*float64(g.monoEnd/4)
	}
	if g.p1(t) {
		o.Timeout = g.b64(5, 400)
	}
	if g.p1(c) {
		o.Cancel = g.b64(1, 300)
	}
}

func (g *gen) invalidID() string {
	return pick(g, "not-an-id", "abc-1", "1-", "-1", "x1-1", "1-1x", "1-1-1", " 1-1", "1_1", "1700000000000-0 ", "ticket/1-0", "é1-1", "0x1-1",
		"1-1\n", "a1717200000000-0b", "1717200000000", strings.Repeat("9", 300), "x17172000000000-1", "-", "*", "$", "+")
}

func (g *gen) mixInvalid(o *Op, p float64) {
	if g.is("C16", "C17", "C10", "C13") {
		p *= 3
	}
	if !g.p1(p) {
		return
	}
	for i, n := 0, g.between(1, 2); i < n && len(o.T)+len(o.Raw) < g.p.Cfg.MaxUpd; i++ {
		o.Raw = append(o.Raw, g.invalidID())
	}
}

func (g *gen) bad(at int64) {
	c := &g.p.Cfg
	ls := g.labels(at, int64(c.OutWait))
	kind := g.n(12)
	if g.mono == "bad" && g.p1(0.9) {
		kind = g.monoBad
	}
	switch kind {
	case 0:
		g.op(at, "create").Bad = "noticket"
	case 1:
		o := g.op(at, pick(g, "activate", "deactivate"))
		o.Bad = "noids"
	case 2, 3:
		// More ids than allowed.
		if c.MaxUpd > 60 && !(g.bulk && c.MaxUpd <= 150) {
			return
		}
		o := g.op(at, pick(g, "activate", "activate", "deactivate"))
		o.Bad = "toomany"
		valid := pick(g, 0.95, 0.9, 0.3)
		for i := 0; i < c.MaxUpd+1+g.n(3); i++ {
			if len(ls) > 0 && g.p1(valid) {
				o.T = append(o.T, ls[g.n(len(ls))])
			} else if valid < 0.5 {
				o.Raw = append(o.Raw, g.invalidID())
			} else {
				o.Raw = append(o.Raw, "1-1")
			}
		}
		if len(o.T)+len(o.Raw) <= c.MaxUpd {
			o.Bad = ""
		}
		// Only ids that exist by then count.
		for len(o.Raw) <= c.MaxUpd {
			o.Raw = append(o.Raw, fmt.Sprintf("%d-%d", 2+len(o.Raw), 3))
		}
	case 4:
		o := g.op(at, "assign")
		o.Bad = "noroster"
	case 5:
		o := g.op(at, "assign")
		o.Bad = "noassignment"
		o.T = g.some(ls, 3)
	case 6:
		o := g.op(at, "invoke")
		o.Bad = "noprofile"
		o.Inv = g.invoke()
	case 7:
		o := g.op(at, "invoke")
		o.Bad = "nommfs"
		o.Inv = g.invoke()
	case 8, 9, 10:
		// Invalid and valid ids together.
		o := g.op(at, pick(g, "activate", "deactivate"))
		if len(ls) > 0 {
			o.T = g.some(ls, max(1, min(g.maxT, c.MaxUpd)-2))
		}
		for i, n := 0, g.between(1, 3); i < n && len(o.T)+len(o.Raw) < c.MaxUpd; i++ {
			o.Raw = append(o.Raw, g.invalidID())
		}
		if g.p1(0.2) {
			o.Raw = append(o.Raw, "")
		}
		if len(o.T)+len(o.Raw) > c.MaxUpd {
			o.Raw = o.Raw[:max(0, c.MaxUpd-len(o.T))]
		}
	case 11:
		o := g.op(at, "assign")
		if g.p1(0.5) {
			o.Bad = "emptyassign"
			return
		}
		o.T = g.some(ls, 3)
		o.Raw = []string{""}
		o.Conn = fmt.Sprintf("bad-%d", o.ID)
	}
}

// ---- invocations ----

func (g *gen) pools() []Pool {
	n := pick(g, 1, 1, 2, 3, 5)
	var out []Pool
	filters := 0.45
	if g.is("C06") {
		filters = 0.9
		n = g.between(1, 6)
	}
	for i := 0; i < n; i++ {
		p := Pool{Key: fmt.Sprintf("p%d", i), Name: fmt.Sprintf("p%d", i)}
		if g.p1(0.15) {
			p.Name = pick(g, "", "other", "p0", "all")
		}
		if g.p1(filters) {
			if g.p1(0.4) {
				p.Tags = append(p.Tags, pick(g, "a", "b", "c", "zz", ""))
				if g.is("C06") && g.p1(0.1) {
					p.Tags[0] = pick(g, "A", "a ", " a", "aa")
				}
				if g.p1(0.3) {
					p.Tags = append(p.Tags, pick(g, "a", "b", "c"))
				}
			}
			if g.p1(0.35) {
				p.Str = append(p.Str, [2]string{pick(g, "mode", "map", "none"), pick(g, "x", "y", "p", "q", "")})
				if g.is("C06") && g.p1(0.1) {
					p.Str[0] = [2]string{pick(g, "mode", "mode", "Mode", "mode "), pick(g, "x ", " x", "X", "ý", "00")}
				}
				if g.p1(0.2) {
					p.Str = append(p.Str, [2]string{"map", pick(g, "p", "q")})
				}
			}
			if g.p1(0.45) {
				p.Dbl = append(p.Dbl, g.dblFilter())
				if g.p1(0.25) {
					p.Dbl = append(p.Dbl, g.dblFilter())
				}
			}
			if g.p1(0.06) && g.is("C06", "C10", "C20", "C18") {
				s, e := g.b64(-3000, 3000), g.b64(-2000, 6000)
				p.Time = &TimeFilter{StartMs: &s, EndMs: &e, Bounds: g.n(4)}
			}
			if g.p1(0.05) {
				p.BadTS = pick(g, "start", "end")
			}
		}
		if g.p1(0.15) {
			p.Ext = pick(g, 1, 50, 3000)
		}
		if g.p1(0.02) {
			p = Pool{Key: p.Key, Nil: true}
		}
		if g.p1(0.05) {
			p.PreTix = true
		}
		out = append(out, p)
	}
	return out
}

func (g *gen) dblFilter() DblFilter {
	a, b := g.dbl(), g.dbl()
	if a > b && !g.p1(0.1) {
		a, b = b, a
	}
	if g.p1(0.2) {
		b = a
	}
	return DblFilter{Arg: pick(g, "mmr", "mmr", "mmr", "lat", "none"), Min: a, Max: b, Bounds: g.n(4)}
}

func (g *gen) invoke() *Invoke {
	c := &g.p.Cfg
	inv := &Invoke{Pools: g.pools()}
	if g.p1(0.3) {
		inv.Ext = pick(g, 1, 100, 20_000)
	}
	if g.wide > 0 && g.p1(0.5) {
		name := strings.Repeat("n", pick(g, 20, 120, 220))
		inv.Pools = nil
		for i := 0; i < g.wide; i++ {
			k := fmt.Sprintf("%s%d", name, i)
			inv.Pools = append(inv.Pools, Pool{Key: k, Name: k, Tags: []string{"wide"}})
		}
	}
	if g.is("C07") && g.p1(0.2) {
		inv.Ext = pick(g, 100_000, 500_000)
	}
	if g.p1(0.04) {
		inv.Many = pick(g, 2, 10, 40, 100)
	}
	if g.large {
		// Any ticket has to fit into a chunk, next to the profile.
		inv.Ext = min(inv.Ext, 100_000)
	}
	if g.p1(0.35) {
		inv.Name = pick(g, "ranked", "ranked", "casual", "", "1v1")
	}
	if g.p1(0.3) {
		s := pick(g, "mmf", "mmf", "")
		inv.MMFName = &s
	}
	n := pick(g, 1, 1, 2, 3)
	if g.is("C08", "C09") {
		n = g.between(1, 4)
		if g.p1(0.06) {
			n = g.between(5, 12)
		}
		if g.hangers && g.p1(0.7) {
			n = g.between(5, 16)
		}
	}
	for i := 0; i < n; i++ {
		m := MMFCall{Host: g.n(c.MMFHosts), End: "ok"}
		if inv.MMFName != nil && i > 0 && g.p1(0.5) {
			m.Host = inv.MMFs[0].Host
		}
		if g.p1(0.05) {
			m.NoPort = true
		}
		if g.p1(g.matchP) {
			k := pick(g, 1, 1, 2, 4, 8)
			if g.is("C08", "C09", "C04") && g.p1(0.15) {
				k = g.between(10, 40)
			}
			many := g.is("C08", "C04") && !g.large && g.p1(0.04)
			if many {
				k = g.between(90, 400)
			}
			from := 0
			// Functions of one call take different tickets most of the time.
			if g.p1(0.6) {
				from = i * 3
			}
			for j := 0; j < k; j++ {
				ms := MatchSpec{Rosters: pick(g, 1, 1, 2, 3), Size: pick(g, 1, 1, 2, 3), From: from, Pool: inv.Pools[g.n(len(inv.Pools))].Key}
				if g.p1(0.5) {
					from += ms.Rosters * ms.Size
				}
				if g.p1(0.4) {
					ms.DelayMs = pick(g, int64(1), 10, 100, 400)
				}
				weird := 0.05
				if g.is("C10") {
					weird = 0.25
				}
				if g.p1(weird) {
					ms.Weird = pick(g, "nil", "none", "emptyid", "nilroster", "unknown", "dup", "bare")
				}
				if g.p1(0.1) {
					ms.Pad = pick(g, 10, 3000, 60_000)
				}
				if g.is("C08") && g.p1(0.02) {
					ms.Pad = 2_500_000
				}
				if g.p1(0.02) {
					ms.Many = pick(g, 2, 10, 40)
				}
				if g.p1(0.2) && len(g.created) > 0 {
					ms.Any = true
					for x, y := 0, 1+g.n(4); x < y; x++ {
						ms.Labels = append(ms.Labels, g.created[g.n(len(g.created))].l)
					}
				}
				if g.p1(0.08) {
					ms.Size = pick(g, 5, 8, 12)
				}
				if g.bulk && g.p1(0.4) {
					ms.Rosters, ms.Size = pick(g, 1, 1, 2, 4, 9), pick(g, 10, 20, 33, 65, 70)
				}
				if g.p1(0.2) {
					ms.Names = g.between(1, 5)
				}
				if g.p1(0.04) {
					ms.Same = true
				}
				ms.NoID = g.p1(0.04)
				if many {
					ms.Rosters, ms.Size, ms.Pad, ms.From = 1, pick(g, 1, 1, 2), 0, j%max(1, 3*k/4)
					if ms.DelayMs != 1 {
						ms.DelayMs = 0
					}
				}
				m.Matches = append(m.Matches, ms)
			}
		}
		bad := 0.07
		if g.is("C09", "C10") {
			bad = 0.4
		}
		kind := g.n(10)
		if g.mono == "invoke" {
			bad, kind = 0.9, g.monoEnd
		}
		if g.hangers {
			bad, kind = 0.6, 7
		}
		if g.p1(bad) {
			switch kind {
			case 0:
				m.Host = -1
			case 1:
				m.Host = -2
			case 2:
				m.Type = "rest"
			case 3, 4, 5:
				m.End = "error"
			case 6:
				m.End = "abort"
			case 7:
				if c.MMFTimeout <= 10 {
					m.End = "hang"
				}
			case 8:
				m.StopRecv = pick(g, 1, 2)
			case 9:
				m.Early = true
			}
		}
		if g.p1(0.2) {
			m.EndDelayMs = pick(g, int64(1), 50, 500)
		}
		if g.p1(0.08) {
			m.RecvDelay = pick(g, int64(5), 100)
		}
		m.Helper = g.p1(0.25)
		if g.is("C08", "C09") && g.p1(0.06) {
			m.Early = true
		}
		if m.Inter = g.p1(0.04) || g.is("C07", "C08", "C09") && g.p1(0.08); m.Inter && g.p1(0.5) {
			// More than fits into the windows of the connection.
			for k := range m.Matches {
				m.Matches[k].Pad = max(m.Matches[k].Pad, pick(g, 70000, 300000, 1500000))
			}
		}
		inv.MMFs = append(inv.MMFs, m)
	}
	if g.is("C21") || g.p1(0.03) {
		fn := pick(g, "soloduel", "battleroyale", "teamshooter")
		inv.MMFs = []MMFCall{{Host: 0}, {Sample: fn}}
		// Pools that share no ticket: one, or a partition by mode.
		if g.p1(0.5) {
			inv.Pools = []Pool{{Key: "all", Name: "all"}}
		} else {
			inv.Pools = []Pool{{Key: "x", Name: "x", Str: [][2]string{{"mode", "x"}}}, {Key: "y", Name: "y", Str: [][2]string{{"mode", "y"}}}}
		}
		mode := func(key, m string) Pool { return Pool{Key: key, Name: key, Str: [][2]string{{"mode", m}}} }
		switch {
		case fn == "battleroyale" && g.p1(0.8):
			inv.Pools = []Pool{{Key: "competitive", Name: "competitive"}}
			if c.Preload == nil && g.p1(0.3) {
				inv.Pools = []Pool{mode("competitive", "z"), mode("casual", "x")}
			}
		case fn == "teamshooter" && g.p1(0.8):
			inv.Pools = []Pool{mode("tank", "x"), mode("healer", "y"), mode("dps", "z")}
		}
	}
	return inv
}

// hugePools: very many small tickets, where what a ticket adds to a message
// besides its content matters.
func (g *gen) hugePools() {
	c := &g.p.Cfg
	c.Storage = "redis"
	c.Preload = &Preload{N: 60000, Size: pick(g, 0, 4), Active: 60000, AgeMs: 2000}
	c.InMax, c.InWait, c.Cores = 10000, 50, 1
	c.TTL = 600
	c.LogLevel = "error"
	c.Frag = false
	c.LatUS, c.JitterUS = 300, 200
	c.Window = 1 << 20
	g.p.Faults = nil
	g.fmax = 0
	g.stallP = 0
	g.p.Note = "huge"
	g.p.Ops = nil
	o := g.op(3000, "invoke")
	o.Inv = &Invoke{Pools: []Pool{{Key: "all", Name: "all"}}, MMFs: []MMFCall{{Host: 0}}}
	o.Node = 0
	g.p.WorkMs = 6000
	g.live, g.join, g.expire, g.stop = 0, 0, 0, 0
}

// ---- sample functions ----

func (g *gen) sample(at int64) {
	o := g.op(at, "sample")
	s := &Sample{Fn: pick(g, "soloduel", "battleroyale", "teamshooter"), Pools: map[string]int{}, Chunks: pick(g, 1, 1, 2, 3, 5, 9),
		Order: pick(g, "", "random", "shuffle"), Empty: pick(g, "", "roster", "bare"), Cut: g.n(1 << 20)}
	for i, n := 0, pick(g, 1, 1, 2, 3, 5); i < n; i++ {
		k := pick(g, 0, 1, 2, 3, 7, 8, 9, 12, 16, 25, 40)
		if s.Fn == "battleroyale" {
			k = pick(g, 0, 1, 50, 99, 100, 101, 130, 200, 250)
		}
		s.Pools[fmt.Sprintf("pool%d", i)] = k
	}
	if g.p1(0.85) {
		// The pools each function reads.
		switch s.Fn {
		case "battleroyale":
			if g.p1(0.6) {
				clear(s.Pools)
			}
			s.Pools["competitive"] = pick(g, 0, 1, 50, 99, 100, 100, 101, 199, 200, 201, 300, 330)
		case "teamshooter":
			if g.p1(0.6) {
				clear(s.Pools)
			}
			m := pick(g, 0, 1, 2, 3, 5, 12)
			s.Pools["tank"] = max(0, 2*m+pick(g, 0, 0, 0, 1, 2, -1, 7))
			s.Pools["healer"] = max(0, 2*m+pick(g, 0, 0, 0, 1, 2, -1, 7))
			s.Pools["dps"] = max(0, 6*m+pick(g, 0, 0, 0, 1, 3, 5, 6, -1, 20))
			if g.p1(0.1) {
				delete(s.Pools, pick(g, "tank", "healer", "dps"))
			}
		}
	}
	if g.p1(0.2) {
		s.Pad = pick(g, 10, 1000)
	}
	if g.p1(0.12) && s.Chunks > 1 {
		s.Break = 1 + g.n(s.Chunks-1)
	}
	if g.p1(0.2) {
		s.GapMs = pick(g, int64(1), 20)
	}
	if g.p1(0.15) {
		s.SlowMs = pick(g, int64(1), 30)
	}
	o.Smp = s
}

// ---- faults ----

func (g *gen) faults() {
	c := &g.p.Cfg
	if g.fmax == 0 {
		return
	}
	if g.flap {
		g.flaps()
		return
	}
	n := 1 + g.n(g.fmax)
	maxDur := int64(2500)
	for i := 0; i < n; i++ {
		kind := g.fkinds[g.n(len(g.fkinds))]
		f := &Fault{AtMs: g.b64(50, max(100, g.p.WorkMs-300)), DurMs: g.b64(20, maxDur), Kind: kind, Node: g.n(c.Cores), Mmf: g.n(c.MMFHosts)}
		if len(g.p.Ops) > 0 && g.p1(0.5) {
			// Near an operation.
			f.AtMs = max(20, g.p.Ops[g.n(len(g.p.Ops))].AtMs+g.b64(-5, 40))
		}
		if g.p1(0.3) {
			f.DurMs = g.b64(5, 200)
		}
		if g.is("C14") && g.p1(0.3) {
			f.DurMs = g.b64(3000, 25000)
		}
		if g.is("C13") && g.p1(0.15) {
			f.DurMs = g.b64(4000, 12000)
		}
		redis := strings.Contains(kind, "redis") || kind == "rule" || strings.Contains(kind, "replica")
		if redis && c.Storage == "memory" {
			continue
		}
		switch kind {
		case "rule":
			f.Kind = "redis-rule"
			f.Text = pick(g, "xadd-error", "xadd-error", "xread-error", "xtrim-error", "any-error", "drop-before", "drop-after", "torn", "slow", "hang")
			if g.is("C17") {
				f.Text = pick(g, "xadd-error", "xadd-error", "xadd-error", "xtrim-error", "drop-after", "torn", "slow")
			}
			f.Prob = pick(g, 0.02, 0.1, 0.3, 1)
			f.Max = pick(g, 1, 2, 5, 1000)
			if g.p1(0.3) {
				f.Node = -1
			}
			f.Sig = pick(g, "OOM command not allowed when used memory > 'maxmemory'.", "READONLY You can't write against a read only replica.", "LOADING Redis is loading the dataset in memory", "ERR simulated")
			if f.Text == "slow" || f.Text == "hang" {
				f.Ms = pick(g, int64(20), 200, 1500)
				if g.is("C13") && g.p1(0.3) {
					f.Ms = g.b64(4000, 8000)
				}
			}
		case "redis-foreign":
			f.Ms, f.Max = g.b64(0, 10), g.between(1, 12)
		case "core-crash", "core-stop":
			if c.Storage == "memory" {
				continue // its state is gone with it, as documented
			}
			f.DownMs = g.b64(0, 2500)
			if g.p1(0.15) && c.Cores > 1 {
				f.DownMs = -1
			}
			if kind == "core-stop" {
				f.Sig = pick(g, "TERM", "INT")
			} else {
				f.Silent = g.p1(0.2)
			}
		case "redis-down":
			f.Silent = g.p1(0.3)
		case "part-redis", "part-replica", "part-client", "part-mmf":
			f.Reset = g.p1(0.5)
		case "slow-redis", "slow-replica", "slow-client", "slow-mmf":
			f.Ms = pick(g, int64(10), 50, 300)
		case "mmf-crash", "client-gone":
			f.Silent = g.p1(0.4)
		case "clock":
			f.Ms = pick(g, int64(-1500), -700, -50, 50, 700, 1500)
			if c.TTL < 10 {
				f.Ms = pick(g, int64(-50), 50)
			}
		case "redis-clock":
			f.Ms = pick(g, int64(-1500), -300, 300, 1500)
			if c.TTL < 10 {
				continue
			}
		}
		if kind == "part-client" || kind == "reset-client" || kind == "slow-client" || kind == "client-gone" {
			f.Mmf = g.n(c.Clients)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
	// At most one clock step: the bounds of the oracles assume it.
	seen := false
	k := 0
	for _, f := range g.p.Faults {
		if f.Kind == "clock" || f.Kind == "redis-clock" {
			if seen && !g.is("C20") {
				continue
			}
			seen = true
		}
		g.p.Faults[k] = f
		k++
	}
	g.p.Faults = g.p.Faults[:k]
}

// flaps: the same trouble again and again, with good spells in between.
func (g *gen) flaps() {
	c := &g.p.Cfg
	at := g.b64(300, 2000)
	kinds := []string{"redis-down", "part-redis", "reset-redis", "any-error", "xread-error", "xadd-error", "drop-after", "torn"}
	if c.Replica {
		kinds = append(kinds, "part-replica", "reset-replica")
	}
	kind := ""
	for i, n := 0, g.between(3, 7); i < n; i++ {
		if kind == "" || g.p1(0.4) {
			kind = kinds[g.n(len(kinds))]
		}
		f := &Fault{AtMs: at, DurMs: g.b64(600, 3000), Kind: kind, Node: g.n(c.Cores), Reset: g.p1(0.5)}
		switch kind {
		case "any-error", "xread-error", "xadd-error", "drop-after", "torn":
			f.Kind, f.Text = "redis-rule", kind
			f.Prob, f.Max = pick(g, 0.5, 1, 1), 1000
			f.Sig = "LOADING Redis is loading the dataset in memory"
			if g.p1(0.5) {
				f.Node = -1
			}
		case "redis-down":
			f.Silent = g.p1(0.2)
		}
		g.p.Faults = append(g.p.Faults, f)
		at += f.DurMs + g.b64(2500, 6000)
	}
}

// ---- scheduling ----

func (g *gen) sched() {
	s := &g.p.Sched
	s.Yield = pick(g, 0, 0.002, 0.01, 0.05, 0.2)
	if g.p.Note == "huge" {
		s.Yield = 0
		return
	}
	if len(Hot) > 0 {
		g.stallP = max(g.stallP, 0.75)
	}
	if !g.p1(g.stallP) || len(g.sites) == 0 {
		return
	}
	n := 1 + g.n(3)
	for i := 0; i < n; i++ {
		site := g.site()
		if site == "" {
			continue
		}
		st := Stall{Site: site, Prob: pick(g, 0.02, 0.1, 0.5, 1), Max: pick(g, 1, 2, 5), MinMs: 1, MaxMs: pick(g, int64(5), 30, 150, 600)}
		if st.MaxMs > 100 {
			st.MinMs = st.MaxMs / 3
			st.Max = min(st.Max, 2)
		}
		if i == 0 && (g.p1(0.08) || g.is("C03", "C05") && g.p1(0.08)) {
			// A pause of the kind that timeouts are made for.
			st.Max, st.MinMs, st.MaxMs = 1, 4000, pick(g, int64(6500), 12000)
			if g.p1(0.5) {
				for k := 0; k < 2000; k++ {
					if x := g.sites[g.n(len(g.sites))]; strings.Contains(x, "replicatedticketcache.go") {
						st.Site = x
						break
					}
				}
			}
		}
		pr := 0.4
		if g.is("C02", "C05", "C03", "C04") {
			pr = 0.7
		}
		if g.p1(pr) {
			st.Probe = pick(g, "probe", "traffic")
		}
		s.Stalls = append(s.Stalls, st)
	}
	s.Probes = 6
}

func (g *gen) site() string {
	if len(Hot) > 0 && g.p1(0.5) {
		return Hot[g.n(len(Hot))]
	}
	for i := 0; i < 40; i++ {
		s := g.sites[g.n(len(g.sites))]
		if g.p1(0.04) {
			return s
		}
		if strings.Contains(s, "/config/") || strings.Contains(s, "/logging/") || strings.Contains(s, "metrics.go") {
			continue
		}
		if strings.HasPrefix(s, "open-match.dev/core/") || g.prop == "C21" {
			return s
		}
	}
	return ""
}

func (g *gen) final() {
	c := &g.p.Cfg
	f := &g.p.Final
	f.Live = g.p1(g.live)
	f.Join = g.p1(g.join) && c.Storage == "redis" && c.Cores < 4
	f.Metrics = g.is("C22") || g.p1(0.04)
	f.Stop = g.p1(g.stop)
	f.Expire = g.p1(g.expire) && c.TTL+c.AssignTTL <= 90
	if g.p.Note == "" && c.TTL >= 10 && g.p1(0.15) {
		for i := 0; i < c.Cores; i++ {
			c.SkewMs = append(c.SkewMs, pick(g, int64(0), -800, -100, 100, 800))
		}
	}
}

// example plans a run of the example matchmaker.
func (g *gen) example() {
	c := &g.p.Cfg
	c.Storage, c.Cores, c.Clients, c.MMFHosts = "redis", 1, 1, 1
	c.MaxUpd, c.OutMax, c.InMax, c.InWait, c.OutWait = 500, pick(g, 10, 50, 100), pick(g, 100, 500, 10000), pick(g, 50, 100), pick(g, 20, 50, 100)
	c.PoolIdle, c.PoolActive, c.IdleTimeout, c.MMFTimeout, c.TTL, c.AssignTTL = 500, 500, "60s", 60, 600, 600
	c.LogLevel, c.Window = "error", 65536
	e := &Example{Conn: pick(g, "", "http", "grpc", "grpc"), Tix: pick(g, 1, 2, 5, 10, 20, 40), MaxMs: 60000}
	g.p.Example = e
	e.Dur = pick(g, 0, 1, 2, 3, 5, 8)
	e.IgnoreEmpty = g.p1(0.2)
	e.Real = g.p1(0.2)
	if g.p1(0.1) && !e.Real {
		e.Tix = pick(g, 300, 499, 500, 501, 700)
		e.Dur = pick(g, 1, 2)
	}
	if g.p1(0.6) {
		e.Cycles = g.between(1, 8)
	}
	if e.IgnoreEmpty && e.Cycles == 0 || g.p1(0.1) {
		e.MaxMs = g.b64(3000, 20000)
	}
	if e.Dur == 0 && e.MaxMs > 20000 {
		e.MaxMs = 20000
	}
	if e.Real {
		e.Tix = pick(g, 5, 10, 40, 60)
		e.MaxMs = min(e.MaxMs, 20000)
		if e.Cycles == 0 {
			e.Cycles = g.between(2, 8)
		}
	} else {
		e.NoSim = g.p1(0.25)
		if e.NoSim {
			e.Tix = 0
		}
		for i := g.n(7); i > 0; i-- {
			r := ExRound{Matches: pick(g, 0, 1, 10, 50, 100, 200, 400), Rosters: g.between(1, 3), Size: pick(g, 1, 1, 2, 5, 8)}
			if g.p1(0.3) {
				r.DelayMs = pick(g, int64(50), 500, 3000)
			}
			if g.p1(0.2) {
				r.GapMs = pick(g, int64(10), 100)
			}
			r.Err = e.Conn == "grpc" && g.p1(0.15)
			e.Rounds = append(e.Rounds, r)
		}
		if g.p1(0.15) {
			// Many rejected tickets at once.
			r := ExRound{Matches: g.between(300, 900), Rosters: g.between(1, 4), Size: g.between(10, 60)}
			e.Rounds = append(e.Rounds, r)
		}
		if e.Conn == "grpc" && g.p1(0.05) {
			// More rejected tickets than the example expects to see.
			e.Rounds = append(e.Rounds, ExRound{Matches: g.between(800, 1200), Rosters: 4, Size: 250})
		}
		if g.p1(0.3) {
			e.CreateErr = pick(g, 0.02, 0.2, 0.8)
		}
	}
	if g.p1(0.5) {
		e.CreateMs = pick(g, int64(20), 300, 2500)
	}
	if g.p1(0.6) {
		e.ActMs = pick(g, int64(20), 300, 2500)
	}
	s := &g.p.Sched
	s.Yield = pick(g, 0, 0.001, 0.01, 0.1, 0.4)
	if g.p1(0.5) {
		for i := g.between(1, 3); i > 0; i-- {
			site := ""
			if len(Hot) > 0 && g.p1(0.4) {
				site = Hot[g.n(len(Hot))]
			} else {
				for k := 0; k < 4000 && site == ""; k++ {
					if x := g.sites[g.n(len(g.sites))]; strings.HasPrefix(x, "open-match.dev/matchmaker-sample/") {
						site = x
					}
				}
			}
			if site != "" {
				s.Stalls = append(s.Stalls, Stall{Site: site, Prob: pick(g, 1, 0.3, 0.02), Max: pick(g, 1, 2, 4), MinMs: 5, MaxMs: pick(g, int64(20), 300, 1500)})
			}
		}
	}
}
