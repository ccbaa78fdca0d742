// mkoverlay writes patched copies of a few Go standard library files (for the
// exact toolchain installed in the sandbox) and a `go build -overlay` file that
// substitutes them. The patches put every source of nondeterminism that the
// simulated programs can reach (goroutine scheduling, select/semaphore/timer
// ties, random numbers, map iteration, clocks, sockets, name resolution,
// environment, signals) under the control of the simulator. Nothing in GOROOT
// or in /repo is modified.
//
// usage: mkoverlay OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type rep struct {
	old, new string
	n        int // expected number of occurrences (0 means 1)
}

var patches = map[string][]rep{
	"runtime/panic.go": {
		// An unrecovered panic ends the simulated process, not this one.
		{old: `	// ran out of deferred calls - old-school panic now
`, new: `	if dstOn && DSTPanic != nil {
		runningPanicDefers.Add(-1)
		DSTPanic(e)
		runningPanicDefers.Add(1)
	}

	// ran out of deferred calls - old-school panic now
`},
		// So does a fatal error that is the program's own fault.
		{old: `
func sync_fatal(s string) {
`, new: `
func sync_fatal(s string) {
	dstFatal(s)
`},
		{old: `
func maps_fatal(s string) {
`, new: `
func maps_fatal(s string) {
	dstFatal(s)
`},
		{old: `
func internal_sync_fatal(s string) {
`, new: `
func internal_sync_fatal(s string) {
	dstFatal(s)
`},
	},
	"runtime/proc.go": {
		// No sysmon: no preemption by real time, no runnext inheritance.
		{old: `const haveSysmon = GOARCH != "wasm"`, new: `const haveSysmon = false`},
		{old: `func runqgrab(pp *p, batch *[256]guintptr,`, new: `func runqgrab(pp *p, batch *[1024]guintptr,`},
		// Gosched stays on the local queue so that the picker sees it.
		{old: `		lock(&sched.lock)
		globrunqput(gp)
		unlock(&sched.lock)
	}

	if mainStarted {`, new: `		if dstOn {
			runqput(pp, gp, false)
		} else {
			lock(&sched.lock)
			globrunqput(gp)
			unlock(&sched.lock)
		}
	}

	if mainStarted {`},
		// Seeded choice of the next goroutine.
		{old: `		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain`, new: `		if dstOn {
			dstPick(pp, h, t)
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain`},
		// Background work of the runtime does not displace anything.
		{old: `func runqput(pp *p, gp *g, next bool) {
`, new: `func runqput(pp *p, gp *g, next bool) {
	if dstOn && gp.bubble == nil {
		next = false
	}
`},
		// Goroutines inherit the simulated node of their creator.
		{old: `	newg.parentGoid = callergp.goid
`, new: `	newg.parentGoid = callergp.goid
	newg.dstNode = callergp.dstNode
	newg.dstID = 0
	if dstOn && callergp.dstID != 0 {
		dstIDs++
		newg.dstID = dstIDs
	}
`},
	},
	"runtime/runtime2.go": {
		{old: `	coroarg *coro // argument during coroutine transfers
`, new: `	coroarg *coro // argument during coroutine transfers
	dstNode int32 // simulated node this goroutine belongs to
	dstID   uint64 // number within the simulation, in order of creation
`},
		{old: `	runq     [256]guintptr`, new: `	runq     [1024]guintptr`},
		// The whole process is one bubble: every blocking reason except a
		// system call counts as idle.
		{old: `	waitReasonSynctestSelect:        true,
}`, new: `	waitReasonSynctestSelect:        true,

	waitReasonSelect:             true,
	waitReasonChanReceive:        true,
	waitReasonChanSend:           true,
	waitReasonSemacquire:         true,
	waitReasonSyncMutexLock:      true,
	waitReasonSyncRWMutexRLock:   true,
	waitReasonSyncRWMutexLock:    true,
	waitReasonSyncWaitGroupWait:  true,
}`},
	},
	// A busy loop that makes channels (a gRPC client retrying a stream on a
	// transport that is about to close does) lets others run at times, as
	// preemption does on a real machine.
	"runtime/chan.go": {
		{old: `func makechan(t *chantype, size int) *hchan {
`, new: `func makechan(t *chantype, size int) *hchan {
	if dstOn {
		dstSpin()
	}
`},
	},
	"runtime/select.go": {
		{old: `		j := cheaprandn(uint32(norder + 1))`, new: `		j := dstRandn(uint32(norder + 1))`},
	},
	"runtime/sema.go": {
		{old: `	s.ticket = cheaprand() | 1`, new: `	s.ticket = dstRand32() | 1`},
	},
	"runtime/time.go": {
		{old: `			t.rand = cheaprand()`, new: `			t.rand = dstRand32()`},
		{old: `		sec = bubble.now / (1000 * 1000 * 1000)
		nsec = int32(bubble.now % (1000 * 1000 * 1000))
		// Don't return a monotonic time inside a synctest bubble.
		// If we return a monotonic time based on the fake clock,
		// arithmetic on times created inside/outside bubbles is confusing.
		// If we return a monotonic time based on the real monotonic clock,
		// arithmetic on times created in the same bubble is confusing.
		// Simplest is to omit the monotonic time within a bubble.
		return sec, nsec, 0`, new: `		// Wall clock = simulated time + this node's skew; the monotonic
		// reading is simulated time itself, as on a real machine.
		wall := bubble.now + dstSkew[uint32(getg().dstNode)%dstMaxNode]
		sec = wall / (1000 * 1000 * 1000)
		nsec = int32(wall % (1000 * 1000 * 1000))
		return sec, nsec, bubble.now`},
	},
	"runtime/synctest.go": {
		{old: `	const synctestBaseTime = 946684800000000000 // midnight UTC 2000-01-01`,
			new: `	const synctestBaseTime = 1717200000000000000 // 2024-06-01`},
	},
	"runtime/rand.go": {
		{old: `	mp := getg().m
	c := &mp.chacha8
	for {`, new: `	if dstOn {
		return dstRand64()
	}
	mp := getg().m
	c := &mp.chacha8
	for {`},
		{old: `	seed := &globalRand.seed
	if len(startupRand) >= 16 &&`, new: `	seed := &globalRand.seed
	for i := range seed {
		seed[i] = byte(i*7 + 1)
	}
	if false && len(startupRand) >= 16 &&`},
		{old: `		if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {`, new: `		if false {`},
		{old: `	bootstrapRandReseed() // erase key we just extracted
`, new: ``},
	},
	"internal/sync/mutex.go": {
		{old: `			starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs
`, new: `			_ = starvationThresholdNs
`},
		{old: `				waitStartTime = runtime_nanotime()`, new: `				waitStartTime = 1`},
	},
	"time/time.go": {
		{old: `var startNano int64 = runtimeNano() - 1`, new: `var startNano int64 = 1`},
	},
	"time/sleep.go": {
		{old: `	return newTimer(when(d), 0, goFunc, f, nil)`, new: `	return newTimer(when(d), 0, goFunc, dstWrap(f), nil)`},
	},
	"os/env.go": {
		{old: `	v, _ := syscall.Getenv(key)
	return v
}`, new: `	v, _ := LookupEnv(key)
	return v
}

// DSTLookupEnv, when set, answers environment lookups of simulated processes.
var DSTLookupEnv func(key string) (val string, found bool, ok bool)
`},
		{old: `	testlog.Getenv(key)
	return syscall.Getenv(key)`, new: `	testlog.Getenv(key)
	if DSTLookupEnv != nil {
		if v, found, ok := DSTLookupEnv(key); ok {
			return v, found
		}
	}
	return syscall.Getenv(key)`},
	},
	"os/file.go": {},
	"os/proc.go": {
		{old: `func Exit(code int) {
`, new: `func Exit(code int) {
	if DSTExit != nil {
		DSTExit(code)
	}
`},
		{old: `// Getuid returns`, new: `// DSTExit, when set, intercepts Exit (it does not return for simulated processes).
var DSTExit func(code int)

// Getuid returns`},
	},
	"os/signal/signal.go": {
		{old: `func Notify(c chan<- os.Signal, sig ...os.Signal) {
`, new: `func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if DSTNotify != nil && DSTNotify(c, sig) {
		return
	}
`},
		{old: `func Stop(c chan<- os.Signal) {
`, new: `func Stop(c chan<- os.Signal) {
	if DSTStop != nil && DSTStop(c) {
		return
	}
`},
		{old: `// Stop causes package signal`, new: `// DSTNotify and DSTStop, when set, deliver simulated signals.
var (
	DSTNotify func(c chan<- os.Signal, sig []os.Signal) bool
	DSTStop   func(c chan<- os.Signal) bool
	DSTCancel func(sig []os.Signal, ignore bool) bool
)

// Stop causes package signal`},
		{old: `func Ignore(sig ...os.Signal) {
`, new: `func Ignore(sig ...os.Signal) {
	if DSTCancel != nil && DSTCancel(sig, true) {
		return
	}
`},
		{old: `func Reset(sig ...os.Signal) {
`, new: `func Reset(sig ...os.Signal) {
	if DSTCancel != nil && DSTCancel(sig, false) {
		return
	}
`},
	},
	"net/dial.go": {
		{old: `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
`, new: `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if DSTDial != nil {
		dctx, dcancel := d.dialCtx(ctx)
		defer dcancel()
		return DSTDial(dctx, network, address)
	}
`},
		{old: `func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
`, new: `func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if DSTListen != nil {
		return DSTListen(ctx, network, address)
	}
`},
		{old: `// DialContext connects to the address on the named network using`, new: `// Simulated network hooks.
var (
	DSTDial   func(ctx context.Context, network, address string) (Conn, error)
	DSTListen func(ctx context.Context, network, address string) (Listener, error)
	DSTLookup func(host string) ([]IPAddr, error)
)

// DialContext connects to the address on the named network using`},
	},
	"net/lookup.go": {
		{old: `func (r *Resolver) LookupHost(ctx context.Context, host string) (addrs []string, err error) {
`, new: `func (r *Resolver) LookupHost(ctx context.Context, host string) (addrs []string, err error) {
	if DSTLookup != nil {
		ips, err := DSTLookup(host)
		for _, ip := range ips {
			addrs = append(addrs, ip.String())
		}
		return addrs, err
	}
`},
		{old: `func (r *Resolver) lookupIPAddr(ctx context.Context, network, host string) ([]IPAddr, error) {
`, new: `func (r *Resolver) lookupIPAddr(ctx context.Context, network, host string) ([]IPAddr, error) {
	if DSTLookup != nil {
		return DSTLookup(host)
	}
`},
		{old: `func (r *Resolver) LookupSRV(ctx context.Context, service, proto, name string) (string, []*SRV, error) {
`, new: `func (r *Resolver) LookupSRV(ctx context.Context, service, proto, name string) (string, []*SRV, error) {
	if DSTLookup != nil {
		return "", nil, &DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
`},
		{old: `func (r *Resolver) LookupTXT(ctx context.Context, name string) ([]string, error) {
`, new: `func (r *Resolver) LookupTXT(ctx context.Context, name string) ([]string, error) {
	if DSTLookup != nil {
		return nil, &DNSError{Err: "no such host", Name: name, IsNotFound: true}
	}
`},
	},
	"net/http/server.go": {
		{old: `var DefaultServeMux = &defaultServeMux`, new: `var DefaultServeMux = &defaultServeMux

// DSTServeMux, when set, gives each simulated process its own default mux.
var DSTServeMux func() *ServeMux

func dstDefaultServeMux() *ServeMux {
	if DSTServeMux != nil {
		if m := DSTServeMux(); m != nil {
			return m
		}
	}
	return DefaultServeMux
}`},
		{old: `		DefaultServeMux.register(pattern, handler)`, new: `		dstDefaultServeMux().register(pattern, handler)`},
		{old: `		DefaultServeMux.register(pattern, HandlerFunc(handler))`, new: `		dstDefaultServeMux().register(pattern, HandlerFunc(handler))`},
		{old: `		handler = DefaultServeMux
`, new: `		handler = dstDefaultServeMux()
`},
	},
}

// New files added to std packages.
var extra = map[string]string{
	"runtime/dst_verif.go": `package runtime

import (
	"internal/abi"
	"internal/runtime/gc"
	"unsafe"
)

const dstMaxNode = 256

var (
	dstOn       bool
	dstSched    uint64 // picker stream
	dstGen      uint64 // everything else
	dstHash     uint64 // running hash over scheduling decisions
	dstPicks    uint64
	dstChoices  uint64
	dstSkew     [dstMaxNode]int64
	dstYields   uint64
	dstIDs      uint64
	dstLIFO     bool
)

// DSTPanic, when set, is called for a panic nothing recovered; it does not
// return if the panicking goroutine belongs to a simulated process.
var DSTPanic func(e any)

//go:nosplit
func dstMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func dstRand64() uint64 { return dstMix(&dstGen) }

//go:nosplit
func dstRand32() uint32 {
	if !dstOn {
		return cheaprand()
	}
	return uint32(dstMix(&dstGen) >> 32)
}

//go:nosplit
func dstRandn(n uint32) uint32 {
	if !dstOn {
		return cheaprandn(n)
	}
	return uint32((uint64(uint32(dstMix(&dstGen)>>32)) * uint64(n)) >> 32)
}

// dstPick moves the goroutine chosen to run next to the head of the queue.
// Goroutines outside the simulation (runtime background work) always go first
// and consume no random numbers.
func dstPick(pp *p, h, t uint32) {
	n := t - h
	l := uint32(len(pp.runq))
	for i := uint32(0); i < n; i++ {
		if pp.runq[(h+i)%l].ptr().bubble == nil {
			// The others keep their order.
			for ; i > 0; i-- {
				pp.runq[(h+i)%l], pp.runq[(h+i-1)%l] = pp.runq[(h+i-1)%l], pp.runq[(h+i)%l]
			}
			return
		}
	}
	dstPicks++
	if n < 2 {
		return
	}
	k := uint32((uint64(uint32(dstMix(&dstSched)>>32)) * uint64(n)) >> 32)
	dstChoices++
	a, b := h%l, (h+k)%l
	pp.runq[a], pp.runq[b] = pp.runq[b], pp.runq[a]
	dstHash = (dstHash ^ pp.runq[a].ptr().dstID) * 0x100000001b3
}

var dstFiller []unsafe.Pointer

// dstAlign makes the simulation's heap start in fresh memory: what the runtime
// allocated while starting up depends on real time, and maps with pointer keys
// are iterated in an order that depends on addresses.
func dstAlign() {
	const arena = 64 << 20
	ptr := unsafe.Pointer(mallocgc(1<<20, nil, false))
	dstFiller = append(make([]unsafe.Pointer, 0, 1<<16), ptr)
	x := (uintptr(ptr) + 1<<20 + arena) &^ (arena - 1)
	// Use up the free pages below x.
	for i := 0; i < 1<<15; i++ {
		q := mallocgc(8192, nil, false)
		dstFiller = append(dstFiller, q)
		if uintptr(q) >= x {
			break
		}
	}
	// Leave every partly used span below x.
	var e *byte
	pt := (*ptrtype)(unsafe.Pointer(abi.TypeOf(&e))).Elem
	for _, size := range gc.SizeClassToSize {
		if size == 0 {
			continue
		}
		for i := 0; i < 3000; i++ {
			if q := mallocgc(uintptr(size), nil, false); uintptr(q) >= x {
				break
			}
		}
		n := uintptr(size)
		if n > 512 {
			n -= 8 // header
		}
		for i := 0; i < 3000; i++ {
			if q := newarray(pt, int(n/8)); uintptr(q) >= x {
				break
			}
		}
	}
	mp := acquirem()
	c := getMCache(mp)
	c.tiny, c.tinyoffset = 0, 0
	releasem(mp)
}

// DSTRun runs f in a simulation seeded by seed; it must be called from the
// main goroutine of a process with GOMAXPROCS=1.
func DSTRun(seed uint64, f func()) {
	if GOMAXPROCS(0) != 1 {
		panic("DSTRun: GOMAXPROCS must be 1")
	}
	dstGen = seed ^ 0x5851f42d4c957f2d
	dstSched = seed ^ 0x14057b7ef767814f
	dstMix(&dstGen)
	dstMix(&dstSched)
	dstHash = 0xcbf29ce484222325
	dstAlign()
	dstOn = true
	dstIDs = 1
	getg().dstID = 1
	synctestRun(f)
}

func dstFatal(s string) {
	if dstOn && DSTPanic != nil && getg().bubble != nil {
		DSTPanic(errorString(s))
	}
}

var (
	dstSpinID uint64
	dstSpinN  uint32
)

func dstSpin() {
	gp := getg()
	if gp.dstID == 0 || gp.bubble == nil || gp.m.locks != 0 || gp.m.curg != gp {
		return
	}
	if gp.dstID != dstSpinID {
		dstSpinID, dstSpinN = gp.dstID, 0
		return
	}
	if dstSpinN++; dstSpinN >= 64 {
		dstSpinN = 0
		goyield()
	}
}

// DSTYield gives the scheduler a chance to run another goroutine.
func DSTYield() { dstYields++; goyield() }

// DSTWait blocks until every other simulated goroutine is blocked.
func DSTWait() { synctestWait() }

func DSTSetNode(n int32)       { getg().dstNode = n }
func DSTGetNode() int32        { return getg().dstNode }
func DSTGoid() uint64          { return getg().goid }
func DSTSetSkew(n int32, d int64) { dstSkew[uint32(n)%dstMaxNode] = d }

// DSTNow is simulated time in nanoseconds since the epoch, without skew.
func DSTNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return 0
}

// DSTStats: hash over scheduling choices, picks, picks with a choice, yields.
func DSTStats() (hash, picks, choices, yields uint64) {
	return dstHash, dstPicks, dstChoices, dstYields
}

// DSTBlocked reports how many simulated goroutines of node n are alive.
func DSTNodeGoroutines(n int32) int {
	c := 0
	forEachGRace(func(gp *g) {
		if s := readgstatus(gp) &^ _Gscan; s != _Gdead && s != _Gidle && gp.dstNode == n && gp.bubble != nil {
			c++
		}
	})
	return c
}

//go:linkname time_dstNode time.dstNode
func time_dstNode() int32 { return getg().dstNode }

//go:linkname time_dstSetNode time.dstSetNode
func time_dstSetNode(n int32) { getg().dstNode = n }

var _ unsafe.Pointer
`,
	"time/dst_verif.go": `package time

import _ "unsafe"

//go:linkname dstNode
func dstNode() int32

//go:linkname dstSetNode
func dstSetNode(n int32)

func dstWrap(f func()) func() {
	n := dstNode()
	if n == 0 {
		return f
	}
	return func() { dstSetNode(n); f() }
}
`,
}

func main() {
	out, err := filepath.Abs(os.Args[1])
	check(err)
	b, err := exec.Command("go", "env", "GOROOT").Output()
	check(err)
	goroot := strings.TrimSpace(string(b))
	overlay := map[string]string{}
	for f, reps := range patches {
		src := filepath.Join(goroot, "src", f)
		b, err := os.ReadFile(src)
		check(err)
		s := string(b)
		if len(reps) == 0 {
			continue
		}
		for _, r := range reps {
			n := r.n
			if n == 0 {
				n = 1
			}
			if c := strings.Count(s, r.old); c != n {
				check(fmt.Errorf("%s: pattern found %d times, want %d: %q", f, c, n, r.old))
			}
			s = strings.ReplaceAll(s, r.old, r.new)
		}
		write(out, f, s)
		overlay[src] = filepath.Join(out, f)
	}
	for f, s := range extra {
		write(out, f, s)
		overlay[filepath.Join(goroot, "src", f)] = filepath.Join(out, f)
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(err)
	check(writeIfChanged(filepath.Join(out, "overlay.json"), j))
}

func write(out, f, s string) {
	p := filepath.Join(out, f)
	check(os.MkdirAll(filepath.Dir(p), 0o755))
	check(writeIfChanged(p, []byte(s)))
}

func writeIfChanged(p string, b []byte) error {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return nil
	}
	return os.WriteFile(p, b, 0o644)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mkoverlay:", err)
		os.Exit(2)
	}
}
