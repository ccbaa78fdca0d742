package sim

import (
	"context"
	"flag"
	"fmt"
	"io"
	"net/http"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	gw "open-match.dev/pkg/api/v2"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/simnet"
	"verif.local/insts"
)

// ---- C24: the example matchmaker ----

// exRun is a run of the example matchmaker: what the service it talks to saw.
type exRun struct {
	w       *World
	spec    *Example
	proc    *Proc // the example
	stub    *Proc // the service
	host    *simnet.Host
	fwd     pb.OpenMatchServiceClient
	creates []*exCreate
	acts    []*exAct
	invs    []*exInv
	nextID  int
	active  int // invocations in progress
	closed  bool
}

type exCreate struct {
	t, ack int64
	req    *pb.Ticket
	id     string
	err    error
}

type exAct struct {
	t, ack int64
	ids    []string
	err    error
}

type exInv struct {
	t, end    int64
	req       *pb.MmfRequest
	sent      []*pb.Match
	err       error
	accepted  float64 // its counters when this call arrived
	rejected  float64
	metrics   bool
	listening bool
	overlap   bool
}

type exServer struct {
	pb.UnimplementedOpenMatchServiceServer
	*exRun
}

func (w *World) runExample() {
	s := w.P.Example
	x := &exRun{w: w, spec: s, host: w.Net.AddHost("mm")}
	w.ex = x
	x.stub = w.newProc("client", x.host, 2000)
	w.spawnWait(x.stub, x.serve)
	x.proc = w.newProc("example", x.host, 0)
	set := func(name, v string) {
		if err := flag.Set(name, v); err != nil {
			w.violate([]string{"C24"}, "example-flag", "the example matchmaker does not accept -%s %s: %v", name, v, err)
		}
	}
	if s.Conn != "" {
		set("conn", s.Conn)
	}
	if s.Cycles > 0 {
		set("cycles", strconv.Itoa(s.Cycles))
	}
	if s.Tix > 0 {
		set("tix", strconv.Itoa(s.Tix))
	}
	if s.Dur > 0 {
		set("dur", strconv.Itoa(s.Dur))
	}
	if s.NoSim {
		set("sim", "false")
	}
	if s.IgnoreEmpty {
		set("ignoreempty", "true")
	}
	w.event("example-start", "%+v", *s)
	x.proc.StartT = w.now()
	w.spawn(x.proc, func() {
		insts.Example()
		x.proc.Asked = true
		w.procEnd(x.proc, "main returned", "")
		park()
	})
	for !x.proc.Dead && w.now() < w.t0+s.MaxMs*1e6 {
		time.Sleep(20 * time.Millisecond)
	}
	x.closed = true
	if !x.proc.Dead {
		w.crash(x.proc, false)
	}
	w.event("example-over", "%s: %d creates %d activations %d invocations", x.proc.Death, len(x.creates), len(x.acts), len(x.invs))
}

// serve starts the recording service, with the gateway generated for it.
func (x *exRun) serve() {
	w := x.w
	l, err := w.Net.ListenOn(x.host, x.stub.ID, 8080)
	if err != nil {
		panic(err)
	}
	srv := grpc.NewServer()
	pb.RegisterOpenMatchServiceServer(srv, &exServer{exRun: x})
	w.spawn(x.stub, func() { srv.Serve(l) })
	mux := runtime.NewServeMux()
	if err := gw.RegisterOpenMatchServiceHandlerFromEndpoint(context.Background(), mux, "localhost:8080",
		[]grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}); err != nil {
		panic(err)
	}
	hl, err := w.Net.ListenOn(x.host, x.stub.ID, 58081)
	if err != nil {
		panic(err)
	}
	w.spawn(x.stub, func() { http.Serve(hl, mux) })
	if x.spec.Real {
		cc, err := grpc.Dial("passthrough:///core0:8080", grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(err)
		}
		x.fwd = pb.NewOpenMatchServiceClient(cc)
	}
}

func (x *exRun) wait(max int64) {
	if max > 0 {
		time.Sleep(time.Duration(x.w.rng.Int64N(max+1)) * time.Millisecond)
	}
}

func (x *exServer) CreateTicket(ctx context.Context, req *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	w := x.w
	c := &exCreate{t: w.now(), req: req.GetTicket()}
	x.creates = append(x.creates, c)
	if x.spec.CreateErr > 0 && w.rng.Float64() < x.spec.CreateErr {
		w.Fired["example-create-error"]++
		c.err = status.Error(codes.Internal, "storage is not available")
		return nil, c.err
	}
	x.wait(x.spec.CreateMs)
	if x.fwd != nil {
		r, err := x.fwd.CreateTicket(ctx, req)
		c.id, c.err, c.ack = r.GetTicketId(), err, w.now()
		return r, err
	}
	x.nextID++
	c.id, c.ack = fmt.Sprintf("%d-%d", w.now()/1e6, x.nextID), w.now()
	return &pb.CreateTicketResponse{TicketId: c.id}, nil
}

func (x *exServer) ActivateTickets(ctx context.Context, req *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	w := x.w
	a := &exAct{t: w.now(), ids: req.GetTicketIds()}
	x.acts = append(x.acts, a)
	w.event("example-activate", "%d ids", len(a.ids))
	x.wait(x.spec.ActMs)
	if x.fwd != nil {
		r, err := x.fwd.ActivateTickets(ctx, req)
		a.ack, a.err = w.now(), err
		return r, err
	}
	a.ack = w.now()
	return &pb.ActivateTicketsResponse{}, nil
}

func (x *exServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	w := x.w
	v := &exInv{t: w.now(), req: req, overlap: x.active > 0}
	x.active++
	defer func() { x.active-- }()
	n := len(x.invs)
	x.invs = append(x.invs, v)
	v.listening = true
	for _, m := range req.GetMmfs() {
		if m.GetHost() == "localhost" && !x.host.Listening(int(m.GetPort())) {
			v.listening = false
		}
	}
	v.accepted, v.rejected, v.metrics = x.counters()
	w.event("example-invoke", "%d; accepted %g rejected %g", n, v.accepted, v.rejected)
	end := func(err error) error {
		v.end, v.err = w.now(), err
		w.event("example-matches", "%d of %d: %v", len(v.sent), n, err)
		return err
	}
	if x.fwd != nil {
		out := proto.Clone(req).(*pb.MmfRequest)
		for _, m := range out.GetMmfs() {
			if m.GetHost() == "localhost" {
				m.Host = "mm"
			}
		}
		in, err := x.fwd.InvokeMatchmakingFunctions(stream.Context(), out)
		if err != nil {
			return end(err)
		}
		for {
			r, err := in.Recv()
			if err == io.EOF {
				return end(nil)
			}
			if err != nil {
				return end(err)
			}
			v.sent = append(v.sent, r.GetMatch())
			if err := stream.Send(r); err != nil {
				return end(err)
			}
		}
	}
	if n >= len(x.spec.Rounds) {
		return end(nil)
	}
	r := &x.spec.Rounds[n]
	x.wait(r.DelayMs)
	for i := 0; i < r.Matches; i++ {
		m := &pb.Match{Id: fmt.Sprintf("match-%d-%d", n, i), Rosters: map[string]*pb.Roster{}}
		for k := 0; k < r.Rosters; k++ {
			ro := &pb.Roster{Name: fmt.Sprintf("team-%d", k)}
			for t := 0; t < r.Size; t++ {
				x.nextID++
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: fmt.Sprintf("%d-%d", 1717100000000+int64(n), x.nextID)})
			}
			m.Rosters[ro.Name] = ro
		}
		v.sent = append(v.sent, m)
		if err := stream.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return end(err)
		}
		if r.GapMs > 0 && w.rng.IntN(20) == 0 {
			x.wait(r.GapMs)
		}
	}
	x.wait(r.DelayMs)
	if r.Err {
		w.Fired["example-invoke-error"]++
		return end(status.Error(codes.Internal, "matchmaking function failed"))
	}
	return end(nil)
}

// counters reads the example's own metrics.
func (x *exRun) counters() (acc, rej float64, ok bool) {
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	resp, err := (&http.Client{Transport: tr, Timeout: 5 * time.Second}).Get("http://localhost:2233/metrics")
	if err != nil {
		return 0, 0, false
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 {
		return 0, 0, false
	}
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.LastIndexByte(l, ' ')
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		var v float64
		fmt.Sscanf(l[i+1:], "%g", &v)
		switch {
		case strings.Contains(l, "matches_accepted"):
			acc += v
		case strings.Contains(l, "matches_rejected"):
			rej += v
		}
	}
	return acc, rej, true
}

// failedREST reports whether an invocation failed whose errors the example
// takes for matches: it reads REST streams without looking at what they hold.
func (x *exRun) failedREST() bool {
	for _, v := range x.invs {
		if v.err != nil && x.spec.Conn != "grpc" {
			return true
		}
	}
	return false
}

const exMaxActivations = 500

func (x *exRun) judge() {
	w, s := x.w, x.spec
	bad := func(key, format string, a ...any) { w.violate([]string{"C24"}, key, format, a...) }
	at := func(t int64) int64 { return (t - w.t0) / 1e6 }
	endT := w.now()
	if x.proc.Dead {
		endT = x.proc.DeadT
	}
	returned := x.proc.Death == "main returned"
	stallNs := x.proc.StallNs
	rtt := 4 * w.rttMs() * 1e6

	// Tickets: as many per second as asked for, each one fit for a pool.
	dur := s.Dur
	if dur == 0 {
		dur = 1 << 30
	}
	if s.NoSim && len(x.creates) > 0 {
		bad("example-sim", "the example created %d tickets although -sim is off", len(x.creates))
	}
	for i, c := range x.creates {
		w.check("C24")
		if full := int64(s.Tix) * min(int64(dur), (c.t-x.proc.StartT)/1e9+1); int64(i+1) > full {
			bad("example-rate-high", "the example created %d tickets within %d ms; %d per second for %d s were asked for", i+1, (c.t-x.proc.StartT)/1e6, s.Tix, dur)
			break
		}
		if len(x.invs) > 0 {
			n := 0
			for _, p := range x.invs[0].req.GetProfile().GetPools() {
				if exSelects(p, c.req) {
					n++
				}
			}
			if n != 1 {
				bad("example-class", "the example created a ticket that %d of its pools select: %v", n, c.req.GetAttributes().GetStringArgs())
			}
		}
		if !c.req.GetAttributes().GetCreationTime().IsValid() || len(c.req.GetAttributes().GetTags()) == 0 || len(c.req.GetAttributes().GetDoubleArgs()) == 0 {
			bad("example-ticket", "the example created a ticket without creation time, tags or numbers")
		}
	}
	if !s.NoSim {
		w.check("C24")
		secs := (endT - x.proc.StartT - stallNs - 1500e6 - 8*rtt) / 1e9
		if secs >= 0 {
			if full := int64(s.Tix) * min(int64(dur), secs+1); int64(len(x.creates)) < full {
				bad("example-rate-low", "the example created %d tickets within %d ms; %d per second for %d s were asked for", len(x.creates), (endT-x.proc.StartT)/1e6, s.Tix, dur)
			}
		}
	}

	// Every ticket is activated once, soon, in calls of a legal size.
	created := map[string]*exCreate{}
	for _, c := range x.creates {
		if c.id != "" {
			created[c.id] = c
		}
	}
	inMatch := map[string]bool{}
	for _, v := range x.invs {
		for _, m := range v.sent {
			for _, r := range m.GetRosters() {
				for _, t := range r.GetTickets() {
					inMatch[t.GetId()] = true
				}
			}
		}
	}
	first := map[string]*exAct{}
	again := map[*exAct][]string{} // activations of tickets of matches
	for _, a := range x.acts {
		w.check("C24")
		if len(a.ids) == 0 || len(a.ids) > exMaxActivations {
			bad("example-batch", "the example asked for %d activations in one call", len(a.ids))
		}
		for _, id := range a.ids {
			c := created[id]
			switch {
			case id == "":
				if s.CreateErr == 0 {
					bad("example-empty-id", "the example activated an empty ticket id although every creation succeeded")
				}
			case c != nil && first[id] == nil:
				if c.ack == 0 || c.ack > a.t {
					bad("example-early", "the example activated ticket %s before its creation was answered", id)
				}
				first[id] = a
			case inMatch[id]:
				again[a] = append(again[a], id)
			case c != nil:
				bad("example-twice", "the example activated ticket %s again, which was in no match", id)
			default:
				bad("example-unknown", "the example activated ticket %q, which it neither created nor got in a match", id)
			}
		}
	}
	bound := 2000e6 + 2*s.ActMs*1e6 + 8*rtt + stallNs
	slow := int64(0) // what real updates take
	if s.Real {
		c := &w.P.Cfg
		slow = 2 * (2*int64(c.OutWait) + (4*int64(s.Tix)/int64(c.OutMax)+3)*(w.rttMs()+2) + 2000) * 1e6
		bound += slow
	}
	if s.Conn != "grpc" {
		bound += 1000e6
	}
	for _, c := range x.creates {
		if c.id == "" || c.ack == 0 || c.err != nil || c.ack+bound > endT {
			continue
		}
		w.check("C24")
		if a := first[c.id]; a == nil || a.t > c.ack+bound {
			bad("example-not-activated", "ticket %s was created at %d ms; the example did not ask to activate it within %d ms", c.id, at(c.ack), bound/1e6)
			break
		}
	}

	// Cycles.
	empties := 0
	sent, sentUpTo := 0, make([]int, len(x.invs)+1)
	for i, v := range x.invs {
		sentUpTo[i] = sent
		sent += len(v.sent)
		w.check("C24")
		if v.overlap {
			bad("example-overlap", "the example invoked its functions again at %d ms before the previous call had ended", at(v.t))
		}
		if !v.listening && v.t > x.proc.StartT+2e9+stallNs {
			bad("example-mmfs", "the example asked for functions on this machine that do not serve")
		}
		if len(v.req.GetMmfs()) != 3 {
			bad("example-mmfs", "the example invoked %d functions instead of its 3", len(v.req.GetMmfs()))
		}
		if i > 0 {
			if len(x.invs[i-1].sent) == 0 {
				empties++
			} else {
				empties = 0
			}
			if empties >= 4 && !s.IgnoreEmpty {
				bad("example-empties", "the example went on after %d invocations without matches", empties)
			}
		}
	}
	sentUpTo[len(x.invs)] = sent
	if n := len(x.invs); n > 0 {
		if len(x.invs[n-1].sent) == 0 {
			empties++
		} else {
			empties = 0
		}
	}
	w.check("C24")
	switch {
	case s.Cycles > 0 && len(x.invs) > s.Cycles:
		bad("example-cycles", "the example invoked its functions %d times; %d cycles were asked for", len(x.invs), s.Cycles)
	case returned && !(s.Cycles > 0 && len(x.invs) == s.Cycles) && (s.IgnoreEmpty || empties < 3):
		bad("example-stops", "the example ended after %d cycles, the last %d of them empty (asked for: %d)", len(x.invs), empties, s.Cycles)
	}
	// The next cycle follows when the previous one is over.
	for i, v := range x.invs {
		if v.end == 0 || v.err != nil && s.Conn != "grpc" {
			continue
		}
		next := endT
		if i+1 < len(x.invs) {
			next = x.invs[i+1].t
		} else if returned {
			continue
		}
		w.check("C24")
		n := int64(0)
		for _, m := range v.sent {
			for _, r := range m.GetRosters() {
				n += int64(len(r.GetTickets()))
			}
		}
		limit := 3000e6 + stallNs + 8*rtt + 2*s.ActMs*1e6 + n*5e3
		limit += slow
		if next > v.end+limit {
			bad("example-stuck", "the example did not go on within %d ms after the invocation that ended at %d ms", limit/1e6, at(v.end))
			break
		}
	}

	// Matches: each one is accepted or rejected, and all tickets of the rejected
	// ones are active again before the next cycle.
	for i, v := range x.invs {
		next, nextInv := endT, (*exInv)(nil)
		if i+1 < len(x.invs) {
			nextInv = x.invs[i+1]
			next = nextInv.t
		}
		var acts []*exAct
		n := map[string]int{}
		total := 0
		for _, a := range x.acts {
			ids := again[a]
			if len(ids) == 0 || a.t < v.t || a.t >= next && nextInv != nil {
				continue
			}
			acts = append(acts, a)
			total += len(ids)
			for _, id := range ids {
				n[id]++
			}
			if v.end == 0 || a.t < v.end && v.err == nil && !s.Real {
				bad("example-reactivates-early", "the example re-activated tickets of a match while the invocation was still going on")
			}
		}
		for _, a := range acts {
			w.check("C24")
			if nextInv != nil && (a.ack == 0 || a.ack > nextInv.t) {
				bad("example-reactivation-late", "the example began its next cycle at %d ms; a re-activation of %d tickets that it had asked for at %d ms was answered only at %d ms", at(nextInv.t), len(a.ids), at(a.t), at(a.ack))
			}
		}
		whole, parts := 0, 0
		for _, m := range v.sent {
			k, have, most := 0, 0, 0
			for _, r := range m.GetRosters() {
				for _, t := range r.GetTickets() {
					k++
					if n[t.GetId()] > 0 {
						have++
						most = max(most, n[t.GetId()])
					}
				}
			}
			if s.Real {
				continue
			}
			w.check("C24")
			switch {
			case k > 0 && have == k:
				whole++
				if most > 1 {
					bad("example-reactivated-twice", "the example re-activated a ticket of the rejected match %s %d times", m.GetId(), most)
				}
			case have > 0:
				parts++
				if nextInv != nil || returned {
					bad("example-reactivated-part", "the example re-activated %d of the %d tickets of the rejected match %s", have, k, m.GetId())
				}
			}
		}
		if nextInv == nil || v.err != nil && s.Conn != "grpc" {
			continue
		}
		w.check("C24")
		if !nextInv.metrics {
			if nextInv.t > x.proc.StartT+2e9+stallNs {
				bad("example-metrics", "the example does not serve its metrics at :2233")
			}
			continue
		}
		if !v.metrics && i > 0 {
			continue
		}
		acc, rej := nextInv.accepted-v.accepted, nextInv.rejected-v.rejected
		if int(acc+rej) != len(v.sent) {
			bad("example-count", "the example counted %g accepted and %g rejected matches of a cycle in which %d were streamed to it", acc, rej, len(v.sent))
			continue
		}
		if s.Real {
			if rej == 0 && total > 0 {
				bad("example-reactivated-accepted", "the example re-activated %d tickets in a cycle in which it rejected no match", total)
			}
			if rej > 0 && total == 0 {
				bad("example-not-reactivated", "the example rejected %g matches and re-activated no ticket", rej)
			}
			continue
		}
		if size := x.size(i); size > 0 && float64(whole) != rej {
			bad("example-not-reactivated", "the example rejected %g of %d matches and re-activated the tickets of %d", rej, len(v.sent), whole)
		}
	}
	if len(x.invs) == 0 && endT-x.proc.StartT > 10e9+stallNs {
		bad("example-idle", "the example never invoked its matchmaking functions")
	}
}

func (x *exRun) size(i int) int {
	if i >= len(x.spec.Rounds) {
		return 0
	}
	return x.spec.Rounds[i].Rosters * x.spec.Rounds[i].Size
}

// exSelects reports whether a pool of strings and tags selects a ticket.
func exSelects(p *pb.Pool, t *pb.Ticket) bool {
	for _, f := range p.GetStringEqualsFilters() {
		if v, ok := t.GetAttributes().GetStringArgs()[f.GetStringArg()]; !ok || v != f.GetValue() {
			return false
		}
	}
	for _, f := range p.GetTagPresentFilters() {
		if !slices.Contains(t.GetAttributes().GetTags(), f.GetTag()) {
			return false
		}
	}
	return true
}
