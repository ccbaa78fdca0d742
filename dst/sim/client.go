package sim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
)

type clientHost struct {
	proc  *Proc
	conns map[int]*grpc.ClientConn
	http  *http.Client
}

var idFormat = regexp.MustCompile(`^\d+-\d+$`)

func dialCore(idx int) (*grpc.ClientConn, error) {
	return grpc.Dial(fmt.Sprintf("passthrough:///core%d:8080", idx),
		grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: 100 * time.Millisecond, Multiplier: 1.6, Jitter: 0.2, MaxDelay: time.Second}, MinConnectTimeout: 5 * time.Second}),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
}

func (c *clientHost) conn(w *World, idx int) (*grpc.ClientConn, func(), error) {
	if w.P.Cfg.NoReuse {
		cc, err := dialCore(idx)
		return cc, func() {
			if cc != nil {
				cc.Close()
			}
		}, err
	}
	if cc := c.conns[idx]; cc != nil {
		return cc, func() {}, nil
	}
	cc, err := dialCore(idx)
	if err == nil {
		if other := c.conns[idx]; other != nil { // another call was faster
			cc.Close()
			cc = other
		}
		c.conns[idx] = cc
	}
	return cc, func() {}, err
}

// start runs an operation as its own task; done is called at the end.
func (w *World) startOp(op *Op) *Call {
	c := w.newCall(op)
	w.live++
	cl := w.clis[op.Client%len(w.clis)]
	w.spawn(cl.proc, func() {
		defer func() { w.live-- }()
		w.exec(cl, c)
	})
	return c
}

func (w *World) newCall(op *Op) *Call {
	c := &Call{Op: op, Kind: op.Kind, Via: op.Via, Core: op.Node, Labels: op.T}
	if c.Via == "" {
		c.Via = "grpc"
	}
	c.Phase = w.phase
	w.callByOp[op.ID] = c
	w.H.Calls = append(w.H.Calls, c)
	return c
}

// resolve turns labels into ids, waiting for creations in progress.
func (w *World) resolve(c *Call) []string {
	var ids []string
	for _, l := range c.Op.T {
		cr := w.H.Created[l]
		for i := 0; i < 400 && cr != nil && cr.Call != nil && !cr.Call.Ended; i++ {
			time.Sleep(25 * time.Millisecond)
		}
		if cr != nil && cr.ID != "" {
			ids = append(ids, cr.ID)
		}
	}
	return append(ids, c.Op.Raw...)
}

func (w *World) begin(c *Call) {
	c.StartSeq, c.Start = w.nextSeq(), w.now()
	if p := w.cores[c.Core].cur; p != nil {
		c.Inc = p.ID
	}
	w.H.Events = append(w.H.Events, Event{c.StartSeq, c.Start, "call", fmt.Sprintf("op%d %s core%d %s %v", c.Op.ID, c.Kind, c.Core, c.Via, c.IDs)})
}

func (w *World) end(c *Call, err error) {
	c.EndSeq, c.End, c.Ended = w.nextSeq(), w.now(), true
	if err == nil {
		c.OK, c.Code = true, "OK"
	} else {
		st := status.Convert(err)
		c.Code, c.Msg = st.Code().String(), st.Message()
		for _, d := range st.Details() {
			if br, ok := d.(*errdetails.BadRequest); ok {
				for _, v := range br.GetFieldViolations() {
					c.ErrIDs = append(c.ErrIDs, strings.TrimPrefix(v.GetField(), "ticketId/"))
				}
			}
		}
		sort.Strings(c.ErrIDs)
	}
	w.H.Events = append(w.H.Events, Event{c.EndSeq, c.End, "return", fmt.Sprintf("op%d %s %s %q id=%s err=%v matches=%d assigns=%d", c.Op.ID, c.Kind, c.Code, c.Msg, c.ID, c.ErrIDs, len(c.Matches), len(c.Assigns))})
}

func (w *World) skip(c *Call, why string) {
	c.Skipped = why
	c.Ended = true
	c.EndSeq, c.End = w.nextSeq(), w.now()
	if c.StartSeq == 0 {
		c.StartSeq, c.Start = c.EndSeq, c.End
	}
}

func (w *World) timeout(op *Op) time.Duration {
	if op.Timeout > 0 {
		return time.Duration(op.Timeout) * time.Millisecond
	}
	ms := w.callBoundMs() + 8000
	switch op.Kind {
	case "invoke":
		ms += int64(w.P.Cfg.MMFTimeout) * 1000
	case "watch":
		ms += int64(w.P.Cfg.TTL) * 1000
	}
	return time.Duration(ms) * time.Millisecond
}

func (w *World) exec(cl *clientHost, c *Call) {
	op := c.Op
	switch op.Kind {
	case "metrics":
		w.scrape(op.Node)
		w.skip(c, "metrics")
		return
	case "sample":
		w.runSample(c)
		w.skip(c, "sample")
		return
	}
	if op.Kind == "activate" || op.Kind == "deactivate" || op.Kind == "assign" || op.Kind == "watch" {
		c.IDs = w.resolve(c)
		for _, id := range c.IDs {
			if idFormat.MatchString(id) {
				c.Valid = append(c.Valid, id)
			}
		}
		if len(c.IDs) == 0 && op.Bad == "" {
			w.skip(c, "no tickets")
			return
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), w.timeout(op))
	defer cancel()
	if op.Cancel > 0 {
		t := time.AfterFunc(time.Duration(op.Cancel)*time.Millisecond, func() {
			c.Canceled = true
			cancel()
		})
		defer t.Stop()
	}
	req := w.request(c)
	if c.Via == "rest" {
		// Some messages have no JSON form.
		if _, err := protojson.Marshal(req); err != nil {
			c.Via = "grpc"
		}
	}
	if c.Kind == "create" && op.Bad == "" {
		cr := &Created{Label: op.T[0], Req: req.(*pb.CreateTicketRequest).Ticket, Call: c}
		w.H.Created[op.T[0]] = cr
	}
	w.begin(c)
	var err error
	if c.Via == "rest" {
		err = w.rest(ctx, cl, c, req)
	} else {
		err = w.grpc(ctx, cl, c, req)
	}
	if err != nil && ctx.Err() == context.DeadlineExceeded {
		c.TimedOut = true
	}
	w.end(c, err)
	if c.Kind == "create" && c.OK && op.Bad == "" {
		cr := w.H.Created[op.T[0]]
		cr.ID = c.ID
		if old := w.H.ByID[c.ID]; old != nil && c.ID != "" {
			w.violate(w.props(c, "C01"), "dup-id", "CreateTicket returned id %s to op%d, and the same id to op%d", c.ID, c.Op.ID, old.Call.Op.ID)
		} else {
			w.H.ByID[c.ID] = cr
		}
	}
}

// request builds the request message.
func (w *World) request(c *Call) proto.Message {
	op := c.Op
	switch c.Kind {
	case "create":
		r := &pb.CreateTicketRequest{}
		if op.Bad != "noticket" {
			r.Ticket = w.ticket(op.T[0])
		}
		return r
	case "activate":
		return &pb.ActivateTicketsRequest{TicketIds: c.IDs}
	case "deactivate":
		return &pb.DeactivateTicketsRequest{TicketIds: c.IDs}
	case "invoke":
		r := &pb.MmfRequest{}
		if op.Bad != "noprofile" {
			r.Profile = w.profile(fmt.Sprintf("inv-%d", op.ID), op.Inv)
		}
		if op.Bad != "nommfs" {
			r.Mmfs = w.mmfSpecs(op.Inv)
		}
		c.Profile = r.Profile
		return r
	case "assign":
		r := &pb.CreateAssignmentsRequest{}
		if op.Bad == "noroster" {
			return r
		}
		ro := &pb.Roster{Name: "assign"}
		if op.Bad != "noassignment" {
			ro.Assignment = &pb.Assignment{Connection: op.Conn}
			if op.Conn != "" && op.ID%2 == 0 {
				ro.Assignment.Extensions = map[string]*anypb.Any{"op": strAny(fmt.Sprint(op.ID))}
			}
			ro.Assignment.Extensions = many(ro.Assignment.Extensions, op.Many)
		}
		c.Assign = ro.Assignment
		for _, id := range c.IDs {
			ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
		}
		r.AssignmentRoster = ro
		return r
	case "watch":
		return &pb.WatchAssignmentsRequest{TicketIds: c.IDs}
	}
	panic("unknown operation " + c.Kind)
}

func (w *World) grpc(ctx context.Context, cl *clientHost, c *Call, req proto.Message) error {
	cc, done, err := cl.conn(w, c.Core)
	if err != nil {
		return err
	}
	defer done()
	om := pb.NewOpenMatchServiceClient(cc)
	switch r := req.(type) {
	case *pb.CreateTicketRequest:
		resp, err := om.CreateTicket(ctx, r)
		if err == nil {
			c.ID = resp.GetTicketId()
		}
		return err
	case *pb.ActivateTicketsRequest:
		_, err := om.ActivateTickets(ctx, r)
		return err
	case *pb.DeactivateTicketsRequest:
		_, err := om.DeactivateTickets(ctx, r)
		return err
	case *pb.CreateAssignmentsRequest:
		_, err := om.CreateAssignments(ctx, r)
		return err
	case *pb.MmfRequest:
		st, err := om.InvokeMatchmakingFunctions(ctx, r)
		if err != nil {
			return err
		}
		for {
			m, err := st.Recv()
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			c.Matches = append(c.Matches, RecvMatch{w.nextSeq(), w.now(), m.GetMatch()})
			if c.Op.SlowMs > 0 {
				time.Sleep(time.Duration(c.Op.SlowMs) * time.Millisecond)
			}
		}
	case *pb.WatchAssignmentsRequest:
		st, err := om.WatchAssignments(ctx, r)
		if err != nil {
			return err
		}
		for {
			a, err := st.Recv()
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			c.Assigns = append(c.Assigns, RecvAssign{w.nextSeq(), w.now(), a.GetId(), a.GetAssignment()})
			if c.Op.SlowMs > 0 {
				time.Sleep(time.Duration(c.Op.SlowMs) * time.Millisecond)
			}
		}
	}
	panic("unknown request")
}

var restPath = map[string][2]string{
	"create":     {"POST", "/v2/tickets"},
	"activate":   {"POST", "/v2/tickets:activate"},
	"deactivate": {"DELETE", "/v2/tickets:deactivate"},
	"invoke":     {"POST", "/v2/matches:fetch"},
	"assign":     {"POST", "/v2/assignments:create"},
	"watch":      {"POST", "/v2/assignments:watch"},
}

// rest performs a call through the HTTP gateway.
func (w *World) rest(ctx context.Context, cl *clientHost, c *Call, req proto.Message) error {
	body, err := protojson.Marshal(req)
	if err != nil {
		return err
	}
	mp := restPath[c.Kind]
	hr, err := http.NewRequestWithContext(ctx, mp[0], fmt.Sprintf("http://core%d:58081%s", c.Core, mp[1]), bytes.NewReader(body))
	if err != nil {
		return err
	}
	hr.Header.Set("Content-Type", "application/json")
	resp, err := cl.http.Do(hr)
	if err != nil {
		return status.Error(ctxCode(ctx, codes.Unavailable), "http: "+err.Error())
	}
	defer resp.Body.Close()
	c.HTTP = resp.StatusCode
	stream := c.Kind == "invoke" || c.Kind == "watch"
	if !stream || resp.StatusCode != 200 {
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return status.Error(ctxCode(ctx, codes.Unavailable), "http body: "+err.Error())
		}
		if resp.StatusCode != 200 {
			return w.restError(c, b)
		}
		switch c.Kind {
		case "create":
			var out pb.CreateTicketResponse
			if err := protojson.Unmarshal(b, &out); err != nil {
				c.BadBody = string(b)
			}
			c.ID = out.GetTicketId()
		case "activate":
			if err := protojson.Unmarshal(b, &pb.ActivateTicketsResponse{}); err != nil {
				c.BadBody = string(b)
			}
		case "deactivate":
			if err := protojson.Unmarshal(b, &pb.DeactivateTicketsResponse{}); err != nil {
				c.BadBody = string(b)
			}
		case "assign":
			if err := protojson.Unmarshal(b, &pb.CreateAssignmentsResponse{}); err != nil {
				c.BadBody = string(b)
			}
		}
		return nil
	}
	rd := bufio.NewReader(resp.Body)
	for {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var env struct {
				Result json.RawMessage `json:"result"`
				Error  json.RawMessage `json:"error"`
			}
			if jerr := json.Unmarshal(line, &env); jerr != nil {
				if err != nil && err != io.EOF {
					return status.Error(ctxCode(ctx, codes.Unavailable), "http body: "+err.Error())
				}
				c.BadBody = string(line)
				return status.Error(codes.Internal, "unparsable reply")
			}
			if env.Error != nil {
				return w.restError(c, env.Error)
			}
			if c.Kind == "invoke" {
				var m pb.StreamedMmfResponse
				if jerr := protojson.Unmarshal(env.Result, &m); jerr != nil {
					c.BadBody = string(line)
				}
				c.Matches = append(c.Matches, RecvMatch{w.nextSeq(), w.now(), m.GetMatch()})
			} else {
				var a pb.StreamedWatchAssignmentsResponse
				if jerr := protojson.Unmarshal(env.Result, &a); jerr != nil {
					c.BadBody = string(line)
				}
				c.Assigns = append(c.Assigns, RecvAssign{w.nextSeq(), w.now(), a.GetId(), a.GetAssignment()})
			}
			if c.Op.SlowMs > 0 {
				time.Sleep(time.Duration(c.Op.SlowMs) * time.Millisecond)
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return status.Error(ctxCode(ctx, codes.Unavailable), "http body: "+err.Error())
		}
	}
}

func ctxCode(ctx context.Context, other codes.Code) codes.Code {
	switch {
	case errors.Is(ctx.Err(), context.DeadlineExceeded):
		return codes.DeadlineExceeded
	case errors.Is(ctx.Err(), context.Canceled):
		return codes.Canceled
	}
	return other
}

// restError turns a gateway error body into the status it stands for.
func (w *World) restError(c *Call, b []byte) error {
	var st spb.Status
	// Before the first message of a stream the error arrives in an envelope.
	var env struct {
		Error json.RawMessage `json:"error"`
	}
	if (c.Kind == "invoke" || c.Kind == "watch") && json.Unmarshal(b, &env) == nil && env.Error != nil {
		b = env.Error
	}
	if err := protojson.Unmarshal(b, &st); err != nil {
		c.BadBody = string(b)
		return status.Error(codes.Internal, "unparsable error: "+string(b))
	}
	if want := httpStatus(codes.Code(st.GetCode())); c.HTTP != 200 && c.HTTP != want {
		w.violate([]string{"C18"}, "http-status", "op%d %s over REST failed with gRPC code %s but HTTP status %d (want %d)", c.Op.ID, c.Kind, codes.Code(st.GetCode()), c.HTTP, want)
	}
	return status.FromProto(&st).Err()
}

func httpStatus(c codes.Code) int {
	switch c {
	case codes.OK:
		return 200
	case codes.Canceled:
		return 499
	case codes.InvalidArgument, codes.FailedPrecondition, codes.OutOfRange:
		return 400
	case codes.DeadlineExceeded:
		return 504
	case codes.NotFound:
		return 404
	case codes.AlreadyExists, codes.Aborted:
		return 409
	case codes.PermissionDenied:
		return 403
	case codes.Unauthenticated:
		return 401
	case codes.ResourceExhausted:
		return 429
	case codes.Unimplemented:
		return 501
	case codes.Unavailable:
		return 503
	}
	return 500
}

// props adds the properties that cover every guarantee on a path: the REST
// gateway's, and memory mode's.
func (w *World) props(c *Call, ids ...string) []string {
	if c != nil && c.Via == "rest" {
		ids = append(ids, "C18")
	}
	if w.P.Cfg.Storage == "memory" {
		ids = append(ids, "C20")
	}
	return ids
}

// scrape reads the metrics endpoint of a core.
func (w *World) scrape(idx int) Metric {
	m := Metric{Core: idx, Seq: w.nextSeq(), T0: w.now(), Vals: map[string]float64{}}
	if p := w.cores[idx].cur; p != nil {
		m.Inc = p.ID
	}
	tr := &http.Transport{DisableKeepAlives: true}
	defer tr.CloseIdleConnections()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("http://core%d:2223/metrics", idx), nil)
	resp, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil {
		m.Err = err.Error()
	} else {
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			m.Err = err.Error()
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "#") || l == "" {
				continue
			}
			i := strings.LastIndexByte(l, ' ')
			if i < 0 {
				continue
			}
			name, rpc := l[:i], ""
			if j := strings.IndexByte(name, '{'); j >= 0 {
				if k := strings.Index(name, `rpc="`); k >= 0 {
					rpc, _, _ = strings.Cut(name[k+5:], `"`)
				}
				name = name[:j]
			}
			var v float64
			fmt.Sscanf(l[i+1:], "%g", &v)
			m.Vals[name] += v
			if rpc != "" {
				m.Vals[name+" "+rpc] += v
			}
		}
	}
	m.T = w.now()
	w.H.Metrics = append(w.H.Metrics, m)
	return m
}
