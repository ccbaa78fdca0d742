package sim

import (
	"fmt"
	"math"
	"slices"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/plan"
)

func anyOf(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

func strAny(s string) *anypb.Any { return anyOf(wrapperspb.String(s)) }

// many adds further extensions.
func many(m map[string]*anypb.Any, n int) map[string]*anypb.Any {
	if n > 0 && m == nil {
		m = map[string]*anypb.Any{}
	}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("more.example.com/%d", i)] = strAny(fmt.Sprintf("value %d", i))
	}
	if n%2 == 0 && n > 0 {
		// Valid, if odd.
		m[""], m["é/ \n"], m["blank"] = strAny(""), &anypb.Any{}, strAny("x")
		m["blank"].Value = nil
	}
	return m
}

var padBytes []byte

func padAny(n, seed int) *anypb.Any {
	for len(padBytes) < n+64 {
		k := len(padBytes)
		padBytes = append(padBytes, byte('a'+(k*7+k/26)%26))
	}
	return anyOf(wrapperspb.String(string(padBytes[seed%26 : seed%26+n])))
}

func (w *World) absTime(ms int64) *timestamppb.Timestamp {
	return timestamppb.New(time.Unix(0, w.now()+ms*1e6))
}

// ticket builds what a client submits for a label.
func (w *World) ticket(label int) *pb.Ticket {
	label = w.root(label)
	if t := w.twins[label]; t != nil {
		return proto.Clone(t).(*pb.Ticket)
	}
	s := &w.P.Tickets[label]
	t := &pb.Ticket{Id: s.GiveID, Extensions: map[string]*anypb.Any{"label": strAny(fmt.Sprintf("t%d", label))}}
	if s.Pad > 0 {
		t.Extensions["pad"] = padAny(s.Pad, label)
	}
	t.Extensions = many(t.Extensions, s.Many)
	if !s.NoAttr {
		t.Attributes = &pb.Ticket_FilterableData{Tags: slices.Clone(s.Tags), StringArgs: map[string]string{}, DoubleArgs: map[string]float64{}}
		for k, v := range s.Str {
			t.Attributes.StringArgs[k] = v
		}
		for k, v := range s.Dbl {
			t.Attributes.DoubleArgs[k] = special(v)
		}
		for i := 0; i < s.Many; i++ {
			k := fmt.Sprintf("more%d", i)
			t.Attributes.Tags = append(t.Attributes.Tags, k)
			t.Attributes.StringArgs[k] = fmt.Sprintf("value %d", i)
			t.Attributes.DoubleArgs[k] = float64(i)
		}
		if s.Create != nil {
			// Times are more precise than milliseconds.
			t.Attributes.CreationTime = timestamppb.New(w.absTime(*s.Create).AsTime().Add(time.Duration((label*104729 + 1237) % 1_000_000)))
		}
		if s.BadTimes {
			t.Attributes.CreationTime = &timestamppb.Timestamp{Seconds: 1, Nanos: -5}
		}
	}
	if s.Expire != nil {
		t.ExpirationTime = w.absTime(*s.Expire)
	}
	if s.BadTimes {
		t.ExpirationTime = &timestamppb.Timestamp{Seconds: -1 << 60}
	}
	if w.hasTwin(label) {
		if w.twins == nil {
			w.twins = map[int]*pb.Ticket{}
		}
		w.twins[label] = proto.Clone(t).(*pb.Ticket)
	}
	return t
}

// root is the label a ticket's content carries.
func (w *World) root(label int) int {
	if label >= 0 && label < len(w.P.Tickets) {
		if t := w.P.Tickets[label].Twin; t > 0 && t <= label {
			return t - 1
		}
	}
	return label
}

func (w *World) hasTwin(root int) bool {
	for i := range w.P.Tickets {
		if w.P.Tickets[i].Twin == root+1 {
			return true
		}
	}
	return false
}

// whose is the label of the creation that a stored ticket stems from: several
// tickets can have the same content.
func (w *World) whose(root int, id string) int {
	if !w.hasTwin(root) {
		return root
	}
	if l, ok := w.twinIDs[id]; ok {
		return l
	}
	l := root
	if cr := w.H.ByID[id]; cr != nil && w.root(cr.Label) == root {
		l = cr.Label
	} else {
		taken := map[int]bool{}
		for _, x := range w.twinIDs {
			taken[x] = true
		}
		// One of those whose calls got no answer; nothing tells which one it is.
		from := ""
		for _, e := range w.Redis.Log {
			if e.ID == id {
				from = e.From
			}
		}
		found := false
		for i := range w.P.Tickets {
			cr := w.H.Created[i]
			if w.root(i) != root || cr == nil || cr.ID != "" || taken[i] {
				continue
			}
			here := cr.Call != nil && from == fmt.Sprintf("core%d", cr.Call.Core)
			if here || !found {
				l, found = i, true
			}
			if here {
				break
			}
		}
	}
	if w.twinIDs == nil {
		w.twinIDs = map[string]int{}
	}
	w.twinIDs[id] = l
	return l
}

// unanswered is the time of the first creation of such a ticket that got no
// answer: what it stored may be anyone's of them.
func (w *World) unanswered(label int, start int64) int64 {
	if root := w.root(label); w.hasTwin(root) {
		for i := range w.P.Tickets {
			if cr := w.H.Created[i]; w.root(i) == root && cr != nil && cr.ID == "" && cr.Call != nil {
				start = min(start, cr.Call.Start)
			}
		}
	}
	return start
}

// labelOf identifies a ticket by the content its creator put into it.
func labelOf(t *pb.Ticket) (int, bool) {
	a := t.GetExtensions()["label"]
	if a == nil {
		return 0, false
	}
	var v wrapperspb.StringValue
	if a.UnmarshalTo(&v) != nil {
		return 0, false
	}
	var n int
	if _, err := fmt.Sscanf(v.Value, "t%d", &n); err != nil {
		return 0, false
	}
	return n, true
}

func (w *World) pool(p *Pool) *pb.Pool {
	if p.Nil {
		return nil
	}
	out := &pb.Pool{Name: p.Name}
	for _, t := range p.Tags {
		out.TagPresentFilters = append(out.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: t})
	}
	for _, s := range p.Str {
		out.StringEqualsFilters = append(out.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: s[0], Value: s[1]})
	}
	for _, d := range p.Dbl {
		out.DoubleRangeFilters = append(out.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: d.Arg, Minimum: special(d.Min), Maximum: special(d.Max), Bounds: pb.Pool_FilterBounds(d.Bounds)})
	}
	if f := p.Time; f != nil {
		c := &pb.Pool_CreationTimeRangeFilter{Bounds: pb.Pool_FilterBounds(f.Bounds)}
		if f.StartMs != nil {
			c.Start = timestamppb.New(time.Unix(0, w.t0+*f.StartMs*1e6))
		}
		if f.EndMs != nil {
			c.End = timestamppb.New(time.Unix(0, w.t0+*f.EndMs*1e6))
		}
		out.CreationTimeRangeFilter = c
	}
	switch p.BadTS {
	case "start":
		out.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Seconds: -1 << 61}}
	case "end":
		out.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{End: &timestamppb.Timestamp{Nanos: -3}}
	}
	if p.Ext > 0 {
		out.Extensions = map[string]*anypb.Any{"pool": padAny(p.Ext, len(p.Key))}
	}
	if p.PreTix {
		out.Participants = &pb.Roster{Name: "stale", Tickets: []*pb.Ticket{{Id: "1-1"}}}
	}
	return out
}

func (w *World) profile(name string, inv *Invoke) *pb.Profile {
	p := &pb.Profile{Name: name, Pools: map[string]*pb.Pool{}}
	for i := range inv.Pools {
		p.Pools[inv.Pools[i].Key] = w.pool(&inv.Pools[i])
		if x := p.Pools[inv.Pools[i].Key]; x != nil && i == 0 {
			x.Extensions = many(x.Extensions, inv.Many)
		}
	}
	p.Extensions = many(nil, inv.Many)
	if inv.Ext > 0 {
		if p.Extensions == nil {
			p.Extensions = map[string]*anypb.Any{}
		}
		p.Extensions["profile"] = padAny(inv.Ext, 3)
	}
	if inv.Name != "" {
		// Several calls use the name; the MMF finds the call in the extension.
		if p.Extensions == nil {
			p.Extensions = map[string]*anypb.Any{}
		}
		p.Extensions["call"], p.Name = strAny(name), inv.Name
	}
	return p
}

const mmfBasePort = 50500

func (w *World) mmfSpecs(inv *Invoke) []*pb.MatchmakingFunctionSpec {
	var out []*pb.MatchmakingFunctionSpec
	for i := range inv.MMFs {
		m := &inv.MMFs[i]
		s := &pb.MatchmakingFunctionSpec{Name: fmt.Sprintf("mmf-%d", i), Type: pb.MatchmakingFunctionSpec_GRPC,
			Host: fmt.Sprintf("mmf%d", m.Host), Port: int32(mmfBasePort + i)}
		if inv.MMFName != nil {
			s.Name = *inv.MMFName
		}
		switch {
		case m.Host == -1:
			s.Host = "nowhere.example"
		case m.Host == -2:
			s.Host, s.Port = "mmf0", 59999
		}
		if m.Sample != "" {
			s.Host = "sample"
			s.Port = samplePorts[m.Sample]
		}
		if m.NoPort {
			s.Host = fmt.Sprintf("%s:%d", s.Host, s.Port)
			s.Port = 0
		}
		if m.Type == "rest" {
			s.Type = pb.MatchmakingFunctionSpec_REST
		}
		out = append(out, s)
	}
	return out
}

var samplePorts = map[string]int32{"soloduel": 8081, "battleroyale": 8082, "teamshooter": 8083}

// special turns the stand-ins a plan uses (JSON has no such numbers) into values.
func special(v float64) float64 {
	switch v {
	case plan.NaN:
		return math.NaN()
	case plan.Inf:
		return math.Inf(1)
	case -plan.Inf:
		return math.Inf(-1)
	case plan.NegZero:
		return math.Copysign(0, -1)
	}
	return v
}
