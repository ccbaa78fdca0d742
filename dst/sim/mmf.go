package sim

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/simnet"
	"verif.local/insts"
)

// mmfHost is a machine running scripted matchmaking functions.
type mmfHost struct {
	host *simnet.Host
	cur  *Proc
	idx  int
}

const mmfPorts = 16 // MMFs per call, at most

type mmfServer struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	w    *World
	p    *Proc
	h    *mmfHost
	port int
}

// startMMF starts an MMF server process on a host.
func (w *World) startMMF(h *mmfHost) {
	p := w.newProc("mmf", h.host, h.idx)
	h.cur = p
	for i := 0; i < mmfPorts; i++ {
		l, err := w.Net.ListenOn(h.host, p.ID, mmfBasePort+i)
		if err != nil {
			panic(err)
		}
		srv := grpc.NewServer(grpc.MaxRecvMsgSize(4 << 20))
		pb.RegisterMatchMakingFunctionServiceServer(srv, &mmfServer{w: w, p: p, h: h, port: mmfBasePort + i})
		w.spawn(p, func() { srv.Serve(l) })
	}
	p.ReadyT = w.now()
}

// startSamples starts the repository's sample functions on their own host.
func (w *World) startSamples() {
	h := w.Net.AddHost("sample")
	p := w.newProc("mmf", h, 100)
	w.sample = p
	for _, name := range sortedKeys(insts.MMF) {
		start := insts.MMF[name]
		w.spawn(p, func() { start(samplePorts[name]) })
	}
	for i := 0; i < 1000; i++ {
		n := 0
		for _, port := range samplePorts {
			if h.Listening(int(port)) {
				n++
			}
		}
		if n == len(samplePorts) {
			break
		}
		time.Sleep(time.Millisecond)
	}
}

// coreOf finds which core a stream came from.
func (w *World) coreOf(ctx context.Context) (int, int32) {
	pr, ok := peer.FromContext(ctx)
	if !ok {
		return -1, 0
	}
	a, ok := pr.Addr.(*net.TCPAddr)
	if !ok {
		return -1, 0
	}
	h := w.Net.Host(a.IP.String())
	for i, c := range w.cores {
		if c.host == h {
			if c.cur != nil {
				return i, c.cur.ID
			}
			return i, 0
		}
	}
	return -1, 0
}

func (w *World) findCall(p *pb.Profile) *Call {
	name := p.GetName()
	if a := p.GetExtensions()["call"]; a != nil {
		var v wrapperspb.StringValue
		if a.UnmarshalTo(&v) == nil {
			name = v.Value
		}
	}
	s, ok := strings.CutPrefix(name, "inv-")
	if !ok {
		return nil
	}
	id, err := strconv.Atoi(s)
	if err != nil {
		return nil
	}
	return w.callByOp[id]
}

func (s *mmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) (err error) {
	w := s.w
	run := &MMFRun{Host: s.h.idx, Port: s.port, MmfInc: s.p.ID, Pools: map[string]*PoolView{}, StartSeq: w.nextSeq(), Start: w.now()}
	run.Core, run.CoreInc = w.coreOf(stream.Context())
	w.H.Runs = append(w.H.Runs, run)
	w.live++
	defer func() {
		w.live--
		run.Ended, run.EndSeq, run.EndT = true, w.nextSeq(), w.now()
		if s.p.Dead {
			run.EndKind = "dead"
		}
		w.event("mmf-end", "mmf%d:%d %s chunks=%d/%v sent=%d err=%v", s.h.idx, s.port, run.EndKind, len(run.Chunks), run.Complete, len(run.Sent), err)
	}()
	fail := func(kind string, e error) error {
		run.EndKind = kind
		return e
	}
	recv := func() bool {
		in, e := stream.Recv()
		if e != nil {
			if e == io.EOF {
				run.RecvEOF = true
			}
			run.RecvErr = e.Error()
			return false
		}
		run.Chunks = append(run.Chunks, in)
		return true
	}
	if !recv() {
		return fail("recv-error", status.Error(codes.Internal, "no request"))
	}
	run.FirstSeq, run.FirstT = w.nextSeq(), w.now()
	run.Call = w.findCall(run.Chunks[0].GetProfile())
	if run.Call == nil || run.Call.Op.Inv == nil {
		return fail("recv-error", status.Error(codes.Internal, "unknown profile"))
	}
	if i := s.port - mmfBasePort; i < len(run.Call.Op.Inv.MMFs) {
		run.Spec = &run.Call.Op.Inv.MMFs[i]
	} else {
		return fail("recv-error", status.Error(codes.Internal, "unknown function"))
	}
	sp := run.Spec
	n := int(run.Chunks[0].GetNumChunks())
	ctx := stream.Context()
	sleep := func(ms int64) bool {
		if ms <= 0 {
			return ctx.Err() == nil
		}
		t := time.NewTimer(time.Duration(ms) * time.Millisecond)
		defer t.Stop()
		select {
		case <-t.C:
			return true
		case <-ctx.Done():
			return false
		}
	}
	// send returns the k-th match.
	send := func(k int) error {
		ms := &sp.Matches[k]
		if !sleep(ms.DelayMs) {
			return fail("cancelled", ctx.Err())
		}
		m := w.match(run, k, ms)
		if m == nil && ms.Weird != "nil" {
			return nil
		}
		sm := SentMatch{Seq: w.nextSeq(), T: w.now(), M: m, Spec: ms, Over: proto.Size(&pb.StreamedMmfResponse{Match: m}) > 4<<20}
		if n := len(run.Sent); n > 0 && run.Sent[n-1].Over {
			sm.Over = true
		}
		run.Sent = append(run.Sent, sm)
		if e := stream.Send(&pb.StreamedMmfResponse{Match: m}); e != nil {
			run.Sent[len(run.Sent)-1].Err = e.Error()
			return fail("send-error", e)
		}
		return nil
	}
	next := 0
	if sp.Helper && !sp.Early && !sp.Inter && sp.StopRecv == 0 && n > 0 {
		// Let the library that functions are written with read the request.
		tap := &tap{MatchMakingFunctionService_RunServer: stream, run: run, delay: sp.RecvDelay, first: true}
		prof, e := insts.GetChunked(tap)
		if e != nil {
			if tap.err == nil {
				w.violate([]string{"C07", "C21"}, "helper-error", "GetChunkedRequest failed with %v although nothing was wrong with the request of op%d", e, run.Call.Op.ID)
			}
			return fail("recv-error", status.Error(codes.Internal, "request broken off: "+run.RecvErr))
		}
		if tap.err != nil || len(run.Chunks) < n {
			w.violate([]string{"C07", "C21"}, "helper-partial", "GetChunkedRequest passed off %d of %d chunks of op%d as the profile (%v)", len(run.Chunks), n, run.Call.Op.ID, tap.err)
			return fail("recv-error", status.Error(codes.Internal, "request broken off"))
		}
		run.helped = prof
	} else if !sp.Early {
		for len(run.Chunks) < n {
			if sp.RecvDelay > 0 {
				time.Sleep(time.Duration(sp.RecvDelay) * time.Millisecond)
			}
			if sp.StopRecv > 0 && len(run.Chunks) >= sp.StopRecv {
				return fail("error", status.Error(codes.Aborted, "scripted: gave up reading"))
			}
			if sp.Inter && next < len(sp.Matches) {
				if e := send(next); e != nil {
					return e
				}
				next++
			}
			if !recv() {
				return fail("recv-error", status.Error(codes.Internal, "request broken off: "+run.RecvErr))
			}
		}
	}
	if len(run.Chunks) >= n {
		run.Complete, run.CompleteSeq, run.CompleteT = true, w.nextSeq(), w.now()
		run.assemble()
		// Anything more than announced?
		w.spawn(s.p, func() {
			for {
				in, e := stream.Recv()
				if e != nil {
					return
				}
				run.Extra = append(run.Extra, in)
			}
		})
	}
	if run.Complete && run.helped != nil {
		w.judgeHelper(run)
	}
	for ; next < len(sp.Matches); next++ {
		if e := send(next); e != nil {
			return e
		}
	}
	if !sleep(sp.EndDelayMs) {
		return fail("cancelled", ctx.Err())
	}
	switch sp.End {
	case "error":
		return fail("error", status.Error(codes.FailedPrecondition, "scripted failure"))
	case "abort":
		// The machine resets every connection it has with this core.
		if run.Core >= 0 {
			im := w.impair("mmf", run.Core, s.h.idx, true, "abort")
			w.Net.Reset(s.h.host, w.cores[run.Core].host)
			im.To = w.now()
			w.Fired["mmf-abort"]++
		}
		return fail("abort", status.Error(codes.Unavailable, "aborted"))
	case "hang":
		w.Fired["mmf-hang"]++
		<-ctx.Done()
		return fail("hang", ctx.Err())
	}
	run.EndKind = "ok"
	return nil
}

func (r *MMFRun) assemble() {
	for _, ch := range r.Chunks {
		for key, pool := range ch.GetProfile().GetPools() {
			v := r.Pools[key]
			if v == nil {
				v = &PoolView{Name: key, Pool: pool}
				r.Pools[key] = v
			}
			v.InChunks++
			v.Tickets = append(v.Tickets, pool.GetParticipants().GetTickets()...)
		}
	}
}

// match builds the k-th match of a run; nil if there are not enough tickets.
func (w *World) match(run *MMFRun, k int, ms *MatchSpec) *pb.Match {
	if ms.Weird == "nil" {
		return nil
	}
	m := &pb.Match{Id: fmt.Sprintf("m-%d-%d-%d", run.Call.Op.ID, run.Port-mmfBasePort, k), Rosters: map[string]*pb.Roster{}}
	if ms.Same {
		m.Id = fmt.Sprintf("m-%d", run.Call.Op.ID)
	}
	if ms.NoID {
		m.Id = ""
	}
	var tix []*pb.Ticket
	if ms.Any {
		for _, l := range ms.Labels {
			if cr := w.H.Created[l]; cr != nil && cr.ID != "" {
				tix = append(tix, &pb.Ticket{Id: cr.ID})
			}
		}
		if len(tix) == 0 {
			return nil
		}
	} else {
		// The order in which om-core lists tickets is not part of the scenario.
		var all []*pb.Ticket
		if run.Complete {
			if v := run.Pools[ms.Pool]; v != nil {
				all = append(all, v.Tickets...)
			}
		} else if run.Spec.Inter {
			for _, ch := range run.Chunks {
				all = append(all, ch.GetProfile().GetPools()[ms.Pool].GetParticipants().GetTickets()...)
			}
		}
		sort.SliceStable(all, func(i, j int) bool { return lessID(all[i].GetId(), all[j].GetId()) })
		if ms.From < len(all) {
			tix = all[ms.From:]
		}
	}
	if ms.Pad > 0 {
		m.Extensions = map[string]*anypb.Any{"pad": padAny(ms.Pad, k)}
	}
	if k%2 == 0 {
		if m.Extensions == nil {
			m.Extensions = map[string]*anypb.Any{}
		}
		m.Extensions["k"] = strAny(fmt.Sprint(k))
	}
	m.Extensions = many(m.Extensions, ms.Many)
	need := ms.Rosters * ms.Size
	switch ms.Weird {
	case "none":
		return m
	case "emptyid":
		m.Rosters["r0"] = &pb.Roster{Name: "r0", Tickets: []*pb.Ticket{{Id: ""}, {Id: ""}}}
		if len(tix) > 0 {
			m.Rosters["r1"] = &pb.Roster{Name: "r1", Tickets: []*pb.Ticket{tix[0]}}
		}
		return m
	case "nilroster":
		m.Rosters["r0"] = &pb.Roster{}
		return m
	case "unknown":
		m.Rosters["r0"] = &pb.Roster{Name: "r0", Tickets: []*pb.Ticket{{Id: "not-a-ticket"}, {Id: "1-1"}}}
		return m
	case "dup":
		if len(tix) == 0 {
			return nil
		}
		m.Rosters["r0"] = &pb.Roster{Name: "r0", Tickets: []*pb.Ticket{tix[0], tix[0]}}
		m.Rosters["r1"] = &pb.Roster{Name: "r1", Tickets: []*pb.Ticket{tix[0]}}
		return m
	}
	if ms.Any {
		need = len(tix)
	}
	if len(tix) < need || need == 0 {
		return nil
	}
	size := max(1, ms.Size)
	if ms.Any {
		size = max(1, (need+max(1, ms.Rosters)-1)/max(1, ms.Rosters))
	}
	for i := 0; i < need; i += size {
		r := &pb.Roster{Name: rosterName(ms.Names, i/size)}
		for _, t := range tix[i:min(need, i+size)] {
			if ms.Weird == "bare" {
				t = &pb.Ticket{Id: t.GetId()}
			}
			r.Tickets = append(r.Tickets, t)
		}
		key := r.Name
		switch {
		case ms.Names == 4:
			r.Name = "" // named by the key alone
		case ms.Names == 5:
			r.Name = "team"
		case ms.Names == 3 && i == 0:
			r.Assignment = &pb.Assignment{Connection: "10.9.8.7:6"}
			r.Extensions = map[string]*anypb.Any{"r": strAny("x")}
		}
		r.Extensions = many(r.Extensions, ms.Many)
		m.Rosters[key] = r
	}
	return m
}

func rosterName(style, i int) string {
	switch style {
	case 1:
		return []string{"backfill", "red", "blue", "Team 4", "spectators", "bench"}[i%6] + strings.Repeat("+", i/6)
	case 2:
		if i == 0 {
			return ""
		}
		return strings.Repeat("x", i)
	}
	return fmt.Sprintf("r%d", i)
}

func lessID(a, b string) bool {
	am, an, _ := strings.Cut(a, "-")
	bm, bn, _ := strings.Cut(b, "-")
	x, _ := strconv.ParseInt(am, 10, 64)
	y, _ := strconv.ParseInt(bm, 10, 64)
	if x != y {
		return x < y
	}
	x, _ = strconv.ParseInt(an, 10, 64)
	y, _ = strconv.ParseInt(bn, 10, 64)
	if x != y {
		return x < y
	}
	return a < b
}

// ids of all tickets of a match.
func matchIDs(m *pb.Match) []string {
	var out []string
	for _, k := range sortedKeys(m.GetRosters()) {
		for _, t := range m.GetRosters()[k].GetTickets() {
			out = append(out, t.GetId())
		}
	}
	return out
}

func detBytes(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return string(b)
}

// poolEvents lists what the matchmaking functions were given. It is made when the
// run has ended: making it earlier would make a traced run another run.
func (w *World) poolEvents() (out []Event) {
	for _, r := range w.H.Runs {
		if !r.Complete || r.Call == nil {
			continue
		}
		for _, k := range sortedKeys(r.Pools) {
			var ids []string
			for _, t := range r.Pools[k].Tickets {
				ids = append(ids, t.GetId())
			}
			sort.Strings(ids)
			out = append(out, Event{r.CompleteSeq, r.CompleteT, "pool", fmt.Sprintf("op%d mmf%d:%d core%d %s: %s", r.Call.Op.ID, r.Host, r.Port, r.Core, k, strings.Join(ids, " "))})
		}
	}
	return out
}

// tap records the chunks the library reads.
type tap struct {
	pb.MatchMakingFunctionService_RunServer
	run   *MMFRun
	delay int64
	first bool
	err   error
}

func (t *tap) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if t.first {
		// The caller has read it already.
		t.first = false
		return proto.Clone(t.run.Chunks[0]).(*pb.ChunkedMmfRunRequest), nil
	}
	if t.delay > 0 {
		time.Sleep(time.Duration(t.delay) * time.Millisecond)
	}
	in, e := t.MatchMakingFunctionService_RunServer.Recv()
	if e != nil {
		if e == io.EOF {
			t.run.RecvEOF = true
		}
		t.err, t.run.RecvErr = e, e.Error()
		return nil, e
	}
	t.run.Chunks = append(t.run.Chunks, in)
	return proto.Clone(in).(*pb.ChunkedMmfRunRequest), nil
}

// judgeHelper compares what the library made of the chunks with the chunks.
func (w *World) judgeHelper(run *MMFRun) {
	w.check("C07")
	c, got := run.Call, run.helped
	last := run.Chunks[len(run.Chunks)-1].GetProfile()
	if got.GetName() != last.GetName() || !sameExt(got.GetExtensions(), last.GetExtensions()) {
		w.violate([]string{"C07", "C21"}, "helper-profile", "GetChunkedRequest changed the name or the extensions of op%d's profile", c.Op.ID)
	}
	for _, k := range sortedKeys(got.GetPools()) {
		if run.Pools[k] == nil {
			w.violate([]string{"C07", "C21"}, "helper-pool-unknown", "GetChunkedRequest made up pool %q of op%d", k, c.Op.ID)
		}
	}
	for _, k := range sortedKeys(run.Pools) {
		v := run.Pools[k]
		p := got.GetPools()[k]
		if p == nil {
			w.violate([]string{"C07", "C21"}, "helper-pool-missing", "GetChunkedRequest lost pool %q of op%d", k, c.Op.ID)
			continue
		}
		a, b := proto.Clone(p).(*pb.Pool), proto.Clone(v.Pool).(*pb.Pool)
		a.Participants, b.Participants = nil, nil
		if !proto.Equal(a, b) {
			w.violate([]string{"C07", "C21"}, "helper-pool-changed", "GetChunkedRequest changed the name, filters or extensions of pool %q of op%d", k, c.Op.ID)
		}
		want := map[string]int{}
		for _, t := range v.Tickets {
			want[detBytes(t)]++
		}
		for _, t := range p.GetParticipants().GetTickets() {
			want[detBytes(t)]--
		}
		for _, t := range sortedKeys(want) {
			if want[t] != 0 {
				w.violate([]string{"C07", "C21"}, "helper-tickets", "GetChunkedRequest returned %d tickets in pool %q of op%d; the %d chunks held %d", len(p.GetParticipants().GetTickets()), k, c.Op.ID, len(run.Chunks), len(v.Tickets))
				break
			}
		}
	}
}
