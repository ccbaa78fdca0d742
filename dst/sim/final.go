package sim

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func tsAt(ns int64) *timestamppb.Timestamp { return timestamppb.New(time.Unix(0, ns)) }

// settle waits until every consequence of the workload and the faults should
// have reached every instance.
func (w *World) settle() {
	t := w.now()
	for _, im := range w.Impairs {
		if im.To < forever {
			t = max(t, im.To+3e9+(im.To-im.From))
			if im.Class == "client" {
				t = max(t, im.To+8e9+(im.To-im.From))
			}
		}
	}
	for _, p := range w.procs {
		if p != nil && !p.Dead && p.pauseTo > t {
			t = p.pauseTo + 1e9
		}
	}
	t += w.lagMs() * 1e6
	if d := t - w.now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	w.settledT = w.now()
}

func (w *World) probeAll(phase string) {
	var cs []*Call
	for i := range w.cores {
		if w.coreAlive(i) {
			cs = append(cs, w.startProbe(i, phase))
		}
	}
	for _, c := range cs {
		w.await(c)
	}
}

func (w *World) finalPhase() {
	f := &w.P.Final
	for _, h := range w.mmfs {
		if h.cur.Dead {
			w.startMMF(h)
		}
	}
	w.phase = "settled"
	w.probeAll("settled")
	if f.Join && w.P.Cfg.Storage == "redis" {
		i := len(w.cores)
		w.addCoreHost()
		if w.startCore(i) {
			if !w.waitReady(i) {
				w.violate([]string{"C14", "C05", "C10"}, "join-not-ready", "an instance that joined late does not serve 20 s after its start")
			} else {
				w.Hits["late-join"]++
				time.Sleep(w.msec(w.lagMs() + 500))
				w.probeAll("settled")
			}
		}
	}
	if f.Live {
		w.phase = "live"
		w.liveFlow()
		w.drain()
	}
	if f.Metrics {
		w.metricsPhase()
	}
	if f.Expire {
		w.expirePhase()
	}
	if f.Stop {
		w.phase = "stop"
		for i := range w.cores {
			if w.coreAlive(i) {
				sig := syscall.SIGTERM
				if i%2 == 1 {
					sig = syscall.SIGINT
				}
				w.stopCore(i, sig)
			}
		}
	}
	w.phase = "end"
}

// metricsPhase looks at the metrics of every instance once nothing is going on.
func (w *World) metricsPhase() {
	w.phase = "metrics"
	time.Sleep(w.msec(w.lagMs() + w.stallBudget() + 2000))
	for i := range w.cores {
		if !w.coreAlive(i) {
			continue
		}
		pr := w.startProbe(i, "metrics")
		w.await(pr)
		time.Sleep(w.msec(w.stallBudget() + 1000))
		m := w.scrape(i)
		w.check("C22")
		if m.Err != "" {
			w.violate([]string{"C22", "C14"}, "metrics", "metrics of core%d cannot be read: %s", i, m.Err)
			continue
		}
		x := &w.H.Metrics[len(w.H.Metrics)-1]
		x.Quiet, x.Probe = true, pr
	}
}

// liveFlow runs the complete life of a ticket on every surviving instance, with
// new connections: everything has to work.
func (w *World) liveFlow() {
	for i := range w.cores {
		if !w.coreAlive(i) {
			continue
		}
		ci := len(w.clis)
		w.newClient(fmt.Sprintf("final%d", i), ci)
		w.live++
		w.spawn(w.clis[ci].proc, func() {
			defer func() { w.live-- }()
			w.flow(i, ci)
		})
	}
}

func (w *World) flow(i, ci int) {
	via := ""
	if w.P.Prop == "C18" || (w.P.Seed+uint64(i))%4 == 0 {
		via = "rest"
	}
	do := func(op *Op) *Call {
		op.Client, op.Via = ci, via
		c := w.startOp(op)
		c.Final = true
		w.await(c)
		return c
	}
	a, b := len(w.P.Tickets), len(w.P.Tickets)+1
	w.P.Tickets = append(w.P.Tickets, Spec{Tags: []string{"final", fmt.Sprintf("f%d", i)}}, Spec{Tags: []string{"final", fmt.Sprintf("f%d", i)}})
	for _, l := range []int{a, b} {
		op := w.extraOp("create", i)
		op.T = []int{l}
		do(op)
	}
	op := w.extraOp("activate", i)
	op.T = []int{a, b}
	do(op)
	time.Sleep(w.msec(w.lagMs() + 300))
	op = w.extraOp("invoke", i)
	op.Inv = &Invoke{Pools: []Pool{{Key: "mine", Name: "mine", Tags: []string{fmt.Sprintf("f%d", i)}}},
		MMFs: []MMFCall{{Host: 0, Matches: []MatchSpec{{Rosters: 1, Size: 1, Pool: "mine"}}}}}
	if w.P.Cfg.MaxUpd < 2 {
		op.Inv.MMFs[0].Matches = nil
	}
	do(op)
	op = w.extraOp("assign", i)
	op.T, op.Conn = []int{a, b}, fmt.Sprintf("server-%d", i)
	do(op)
	op = w.extraOp("watch", i)
	op.T = []int{a, b}
	op.Timeout = w.lagMs() + 6000 + w.callBoundMs()
	do(op)
	op = w.extraOp("deactivate", i)
	op.T = []int{a, b}
	do(op)
	time.Sleep(w.msec(w.lagMs() + 300))
	w.startProbe(i, "live")
}

// expirePhase outlives every ticket and assignment and then looks for remains.
func (w *World) expirePhase() {
	w.phase = "expire"
	c := &w.P.Cfg
	ttl := int64(c.TTL+c.AssignTTL) * 1000
	time.Sleep(w.msec(ttl + 2500 + w.skewTolMs() + 3*int64(c.InWait)))
	w.expiredT = w.now()
	w.phase = "expired"
	var cs []*Call
	created := 0
	for i := range w.cores {
		if !w.coreAlive(i) {
			continue
		}
		label := len(w.P.Tickets)
		w.P.Tickets = append(w.P.Tickets, Spec{Tags: []string{"late"}})
		op := w.extraOp("create", i)
		op.T = []int{label}
		call := w.startOp(op)
		call.Final = true
		cs = append(cs, call)
		created++
	}
	for _, x := range cs {
		w.await(x)
	}
	w.trimCheckT = w.now()
	if c.Storage == "redis" {
		w.check("C12")
		limit := int64(c.TTL)*1000 + w.skewTolMs() + 1500
		old, n := "", 0
		nowMs := uint64((w.now() + w.Redis.SkewNs) / 1e6)
		for _, e := range w.Redis.Live() {
			if int64(nowMs)-int64(e.Ms) > limit {
				n++
				if old == "" {
					old = fmt.Sprintf("%s %s (age %d ms)", e.ID, e.Fields[0], int64(nowMs)-int64(e.Ms))
				}
			}
		}
		if n > 0 && !w.impaired("trim", -1, -1, w.t0, w.now(), false) {
			w.violate([]string{"C12"}, "log-not-trimmed", "%d entries older than the time to live (%d s) remain in the log after further traffic, e.g. %s", n, c.TTL, old)
		}
	}
	time.Sleep(w.msec(w.lagMs() + 300))
	w.probeAll("expired")
	for i := range w.cores {
		if !w.coreAlive(i) {
			continue
		}
		m := w.scrape(i)
		w.check("C12")
		if m.Err != "" {
			w.violate([]string{"C12", "C14"}, "metrics", "metrics of core%d cannot be read: %s", i, m.Err)
			continue
		}
		act, okA := m.Vals["om_core_cache_tickets_active"]
		ina, okI := m.Vals["om_core_cache_tickets_inactive"]
		asg, okS := m.Vals["om_core_cache_assignments"]
		if !okA || !okI || !okS {
			w.violate([]string{"C12"}, "metrics-missing", "core%d exports no ticket counts", i)
			continue
		}
		if ina > float64(created) || act > float64(created) || act < -float64(created) || asg > 0 {
			w.violate([]string{"C12"}, "memory-not-trimmed", "%d ms after everything expired, core%d still holds %g inactive ids, %g (tickets - inactive ids), %g assignments (%d tickets were created since)",
				(w.now()-w.expiredT)/1e6+2500, i, ina, act, asg, created)
		}
	}
	w.leakCheck()
}

// leakCheck: with all clients gone, an instance runs what it ran when it started.
func (w *World) leakCheck() {
	for _, cl := range w.clis {
		for _, cc := range cl.conns {
			cc.Close()
		}
		cl.conns = map[int]*grpc.ClientConn{}
		cl.http.CloseIdleConnections()
	}
	time.Sleep(time.Duration(max(3, w.P.Cfg.MMFTimeout)) * time.Second)
	for i := range w.cores {
		if !w.coreAlive(i) {
			continue
		}
		p := w.cores[i].cur
		n := runtime.DSTNodeGoroutines(p.ID)
		w.check("C12")
		if n > p.goBase+14 {
			w.violate([]string{"C12", "C14"}, "goroutine-leak", "core%d runs %d goroutines although no client is connected and no call is running; it had %d after its start", i, n, p.goBase)
		}
	}
}

// skewTolMs is how far two clocks of the deployment can be apart.
func (w *World) skewTolMs() int64 {
	abs := func(x int64) int64 { return max(x, -x) }
	var lo, hi, jump int64
	for _, s := range w.P.Cfg.SkewMs {
		lo, hi = min(lo, s), max(hi, s)
	}
	r := abs(w.P.Cfg.RedisSkewMs)
	for _, f := range w.P.Faults {
		switch f.Kind {
		case "clock":
			jump = max(jump, abs(f.Ms))
		case "redis-clock":
			r += abs(f.Ms)
		}
	}
	return hi - lo + 2*jump + r
}

// ---- sample functions, called directly ----

// runSample calls a sample function with a profile cut into chunks in some way.
func (w *World) runSample(c *Call) {
	s := c.Op.Smp
	run := &SampleRun{Fn: s.Fn, Pools: map[string][]*pb.Ticket{}, Start: w.now(), Spec: s}
	w.H.Samples = append(w.H.Samples, run)
	c.StartSeq, c.Start = w.nextSeq(), w.now()
	defer func() { run.End = w.now() }()
	n := 0
	var all []sampleTicket
	for _, name := range sortedKeys(s.Pools) {
		for i := 0; i < s.Pools[name]; i++ {
			n++
			t := &pb.Ticket{Id: fmt.Sprintf("%d-%d", 1717200000000+int64(n), c.Op.ID)}
			if s.Pad > 0 {
				t.Extensions = map[string]*anypb.Any{"pad": padAny(s.Pad, n)}
			}
			run.Pools[name] = append(run.Pools[name], t)
			all = append(all, sampleTicket{name, t})
		}
	}
	k := max(1, s.Chunks)
	run.Chunks = k
	chunks := make([]*pb.ChunkedMmfRunRequest, k)
	x := uint64(s.Cut)*0x9e3779b97f4a7c15 + 7
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x % uint64(n))
	}
	where := make([]int, len(all))
	for i := range where {
		switch s.Order {
		case "random":
			where[i] = rnd(k)
		default: // runs, as om-core cuts
			where[i] = i * k / max(1, len(all))
		}
	}
	if s.Order == "shuffle" {
		for i := len(all) - 1; i > 0; i-- {
			j := rnd(i + 1)
			all[i], all[j] = all[j], all[i]
		}
	}
	for i := range chunks {
		chunks[i] = &pb.ChunkedMmfRunRequest{NumChunks: int32(k), Profile: &pb.Profile{Name: "sample", Pools: map[string]*pb.Pool{}}}
		for _, name := range sortedKeys(s.Pools) {
			switch s.Empty {
			case "roster": // every pool is in every chunk
				chunks[i].Profile.Pools[name] = &pb.Pool{Name: name, Participants: &pb.Roster{Name: name + "_roster"}}
			case "bare": // pools without participants carry no roster
				chunks[i].Profile.Pools[name] = &pb.Pool{Name: name}
			}
		}
	}
	for i, st := range all {
		pools := chunks[where[i]].Profile.Pools
		p := pools[st.pool]
		if p == nil {
			p = &pb.Pool{Name: st.pool}
			pools[st.pool] = p
		}
		if p.Participants == nil {
			p.Participants = &pb.Roster{Name: st.pool + "_roster"}
		}
		p.Participants.Tickets = append(p.Participants.Tickets, st.t)
	}
	cc, err := grpc.Dial(fmt.Sprintf("passthrough:///sample:%d", samplePorts[s.Fn]), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		run.Err = err.Error()
		return
	}
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	st, err := pb.NewMatchMakingFunctionServiceClient(cc).Run(ctx)
	if err != nil {
		run.Err = err.Error()
		return
	}
	for i, ch := range chunks {
		if s.Break > 0 && i == s.Break {
			run.Fault = true
			w.Fired["sample-request-broken"]++
			st.CloseSend()
			break
		}
		if s.GapMs > 0 {
			time.Sleep(w.msec(s.GapMs))
		}
		if err := st.Send(ch); err != nil {
			break
		}
	}
	for {
		m, err := st.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			run.Err = err.Error()
			break
		}
		run.Matches = append(run.Matches, m.GetMatch())
		if s.SlowMs > 0 {
			time.Sleep(w.msec(s.SlowMs))
		}
	}
	run.Done = true
}

type sampleTicket struct {
	pool string
	t    *pb.Ticket
}
