package sim

import (
	"fmt"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
)

// ---- C01: content ----

// content checks a ticket seen somewhere against what its creator submitted.
func (j *judge) content(u *upd, id string, t *pb.Ticket, where string) {
	w := j.w
	cr := w.H.Created[u.label]
	if cr == nil || cr.Req == nil || t == nil {
		return
	}
	w.check("C01")
	if msg := j.differs(cr, t); msg != "" {
		j.v(cr.Call, []string{"C01", "C17"}, "content", "ticket %s (t%d) in %s differs from what op%d submitted: %s", id, u.label, where, u.call.Op.ID, msg)
	}
}

func sameExt(a, b map[string]*anypb.Any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if !proto.Equal(v, b[k]) {
			return false
		}
	}
	return true
}

// differs compares content and times; "" if as documented.
func (j *judge) differs(cr *Created, t *pb.Ticket) string {
	w := j.w
	q := cr.Req
	if cr.Preload {
		c := proto.Clone(q).(*pb.Ticket)
		c.Id = t.GetId()
		if !proto.Equal(c, t) {
			return "not what the earlier deployment stored"
		}
		return ""
	}
	if !sameExt(q.GetExtensions(), t.GetExtensions()) {
		return "extensions"
	}
	a, b := q.GetAttributes(), t.GetAttributes()
	if fmt.Sprint(a.GetTags()) != fmt.Sprint(b.GetTags()) || len(a.GetTags()) != len(b.GetTags()) {
		return fmt.Sprintf("tags %q, submitted %q", b.GetTags(), a.GetTags())
	}
	if fmt.Sprint(a.GetStringArgs()) != fmt.Sprint(b.GetStringArgs()) {
		return fmt.Sprintf("string arguments %v, submitted %v", b.GetStringArgs(), a.GetStringArgs())
	}
	if fmt.Sprint(a.GetDoubleArgs()) != fmt.Sprint(b.GetDoubleArgs()) {
		return fmt.Sprintf("double arguments %v, submitted %v", b.GetDoubleArgs(), a.GetDoubleArgs())
	}
	tol := w.skewTolMs()*1e6 + 1e6
	ct := b.GetCreationTime()
	if !ct.IsValid() {
		return "no creation time"
	}
	if q.GetAttributes().GetCreationTime().IsValid() {
		if !proto.Equal(ct, q.GetAttributes().GetCreationTime()) {
			return fmt.Sprintf("creation time %v, submitted %v", ct.AsTime(), q.GetAttributes().GetCreationTime().AsTime())
		}
	} else if n := ct.AsTime().UnixNano(); n < cr.Call.Start-tol && (cr.ID != "" || n < w.unanswered(cr.Label, cr.Call.Start)-tol) || cr.Call.Ended && n > cr.Call.End+tol && cr.Call.OK {
		return fmt.Sprintf("creation time %v is not the time of the call", ct.AsTime())
	}
	want := ct.AsTime().UnixNano() + int64(w.P.Cfg.TTL)*1e9
	if x := q.GetExpirationTime(); x.IsValid() && x.AsTime().UnixNano() < want {
		want = x.AsTime().UnixNano()
	}
	if !t.GetExpirationTime().IsValid() || t.GetExpirationTime().AsTime().UnixNano() != want {
		return fmt.Sprintf("expiration time %v, documented %v", t.GetExpirationTime().AsTime(), tsAt(want).AsTime())
	}
	return ""
}

// expiry is when a ticket expires, as far as an observer can tell.
func (j *judge) expiry(cr *Created) (lo, hi int64) {
	if cr.Preload {
		return cr.ExpT, cr.ExpT
	}
	w := j.w
	ttl := int64(w.P.Cfg.TTL) * 1e9
	q := cr.Req
	if ct := q.GetAttributes().GetCreationTime(); ct.IsValid() {
		lo = ct.AsTime().UnixNano() + ttl
		hi = lo
	} else {
		lo, hi = cr.Call.Start+ttl, cr.Call.End+ttl
		if !cr.Call.Ended {
			hi = forever
		}
	}
	if x := q.GetExpirationTime(); x.IsValid() {
		n := x.AsTime().UnixNano()
		lo, hi = min(lo, n), min(hi, n)
	}
	return
}

// ---- C06: what a filter selects ----

// selects follows the documentation of the filters. timeOnly tells whether the
// creation-time filter alone made the difference.
func selects(p *pb.Pool, t *pb.Ticket) (in, butTime bool) {
	at := t.GetAttributes()
	for _, f := range p.GetTagPresentFilters() {
		ok := false
		for _, x := range at.GetTags() {
			ok = ok || x == f.GetTag()
		}
		if !ok {
			return false, false
		}
	}
	for _, f := range p.GetStringEqualsFilters() {
		if v, ok := at.GetStringArgs()[f.GetStringArg()]; !ok || v != f.GetValue() {
			return false, false
		}
	}
	for _, f := range p.GetDoubleRangeFilters() {
		v, ok := at.GetDoubleArgs()[f.GetDoubleArg()]
		if !ok {
			return false, false
		}
		exMin := f.GetBounds() == pb.Pool_EXCLUDE_MIN || f.GetBounds() == pb.Pool_EXCLUDE_BOTH
		exMax := f.GetBounds() == pb.Pool_EXCLUDE_MAX || f.GetBounds() == pb.Pool_EXCLUDE_BOTH
		if !(v > f.GetMinimum() || v == f.GetMinimum() && !exMin) || !(v < f.GetMaximum() || v == f.GetMaximum() && !exMax) {
			return false, false
		}
	}
	f := p.GetCreationTimeRangeFilter()
	if f == nil {
		return true, true
	}
	c := at.GetCreationTime().AsTime()
	exS := f.GetBounds() == pb.Pool_EXCLUDE_START || f.GetBounds() == pb.Pool_EXCLUDE_BOTH
	exE := f.GetBounds() == pb.Pool_EXCLUDE_END || f.GetBounds() == pb.Pool_EXCLUDE_BOTH
	s, e := f.GetStart().AsTime(), f.GetEnd().AsTime()
	in = (c.After(s) || c.Equal(s) && !exS) && (c.Before(e) || c.Equal(e) && !exE)
	return in, true
}

// invertedTime is what the code does instead (a known finding): it selects
// tickets created strictly before the start and strictly after the end.
func invertedTime(p *pb.Pool, t *pb.Ticket) bool {
	f := p.GetCreationTimeRangeFilter()
	c := t.GetAttributes().GetCreationTime().AsTime()
	return c.Before(f.GetStart().AsTime()) && c.After(f.GetEnd().AsTime())
}

func poolInvalid(p *pb.Pool) bool {
	f := p.GetCreationTimeRangeFilter()
	return f != nil && (f.GetStart() != nil && !f.GetStart().IsValid() || f.GetEnd() != nil && !f.GetEnd().IsValid())
}

// wireProfile is the profile as a receiver sees it.
func wireProfile(p *pb.Profile) *pb.Profile {
	b, err := proto.Marshal(p)
	if err != nil {
		return p
	}
	out := &pb.Profile{}
	if proto.Unmarshal(b, out) != nil {
		return p
	}
	return out
}

// ---- C07: every function gets the whole profile ----

func (j *judge) mmfTimeoutNear(r *MMFRun) bool {
	w := j.w
	end := r.EndT
	if !r.Ended {
		end = w.now()
	}
	from := r.Start
	if r.Call != nil {
		from = r.Call.Start
		end += j.xferMs(r.Call) * 1e6
	}
	return end-from >= int64(w.P.Cfg.MMFTimeout)*1e9-500e6-w.stalledMs(r.CoreInc, from, end)*1e6
}

// runBad: something excuses an incomplete run.
func (j *judge) runBad(r *MMFRun) bool {
	w := j.w
	end := r.EndT
	if !r.Ended {
		end = w.now()
	}
	if r.Call != nil {
		// What it returned may still be on its way.
		end += (j.xferMs(r.Call) + w.rttMs()) * 1e6
	}
	if w.impaired("mmf", r.Core, r.Host, r.Start, end, true) || w.impaired("core", r.Core, -1, r.Start, end, true) {
		return true
	}
	for i := range r.Sent {
		if r.Sent[i].Over {
			// A match beyond the limit of a message ends the run.
			return true
		}
	}
	return j.mmfTimeoutNear(r)
}

// unfinished: a function that asks for much less time than it may take, and that
// nothing disturbs, is not cut off.
func (j *judge) unfinished(r *MMFRun) {
	w := j.w
	if r.EndKind != "cancelled" && r.EndKind != "send-error" && r.EndKind != "recv-error" || r.Spec == nil || r.Spec.StopRecv > 0 || r.Spec.Sample != "" {
		return
	}
	bytes := int64(0)
	for _, ch := range r.Chunks {
		bytes += int64(proto.Size(ch))
	}
	n := int64(r.Chunks[0].GetNumChunks())
	bytes = bytes / int64(len(r.Chunks)) * n
	need := r.Spec.EndDelayMs + r.Spec.RecvDelay*n
	for i := range r.Spec.Matches {
		need += r.Spec.Matches[i].DelayMs
		bytes += int64(r.Spec.Matches[i].Pad) + 20000
	}
	for i := range r.Sent {
		if r.Sent[i].Over {
			return
		}
	}
	limit := int64(w.P.Cfg.MMFTimeout) * 1000
	need += w.xferMs(bytes) + w.stalledMs(r.CoreInc, r.Call.Start, r.EndT) + w.stalledMs(int32(r.MmfInc), r.Start, r.EndT)
	if need > limit/2 || w.impaired("mmf", r.Core, r.Host, r.Call.Start, r.EndT, true) || w.impaired("core", r.Core, -1, r.Call.Start, r.EndT, true) || w.impaired("clock", r.Core, -1, r.Call.Start, r.EndT, true) {
		return
	}
	w.check("C14")
	props := []string{"C09", "C14"}
	if !r.Complete && !r.Spec.Early {
		props = append(props, "C07")
	}
	if len(r.Sent) > 0 {
		props = append(props, "C08")
	}
	w.violate(props, "mmf-cut-off", "mmf%d:%d was cut off (%s) %d ms after it got the first of %d chunks of op%d (it got %d and returned %d matches) although it needs at most %d of the %d ms it may take", r.Host, r.Port, r.EndKind, (r.EndT-r.Start)/1e6, n, r.Call.Op.ID, len(r.Chunks), len(r.Sent), need, limit)
}

func (j *judge) runs() {
	w := j.w
	type runKey struct {
		call *Call
		port int
	}
	count := map[runKey]int{}
	byCall := map[*Call][]*MMFRun{}
	for _, r := range w.H.Runs {
		if r.Call == nil {
			if len(r.Chunks) == 0 {
				if r.RecvEOF && !j.runBad(r) {
					w.violate([]string{"C07"}, "empty-request", "mmf%d:%d got an empty request that ended normally", r.Host, r.Port)
				}
				continue
			}
			if r.Chunks[0].GetProfile().GetName() != "sample" {
				w.violate([]string{"C07"}, "profile-name", "mmf%d:%d got a profile named %q that nobody submitted", r.Host, r.Port, r.Chunks[0].GetProfile().GetName())
			}
			continue
		}
		c := r.Call
		count[runKey{c, r.Port}]++
		w.check("C07")
		byCall[c] = append(byCall[c], r)
		if r.Spec == nil {
			w.violate([]string{"C07"}, "wrong-mmf", "op%d reached mmf%d:%d, which it did not name", c.Op.ID, r.Host, r.Port)
			continue
		}
		if !r.Complete {
			switch {
			case r.Spec.Early || r.Spec.StopRecv > 0:
			case r.RecvEOF:
				w.violate([]string{"C07"}, "partial-eof", "mmf%d:%d got %d of %d chunks of op%d and then the normal end of the stream", r.Host, r.Port, len(r.Chunks), r.Chunks[0].GetNumChunks(), c.Op.ID)
			case r.RecvErr != "" && !j.runBad(r):
				w.violate([]string{"C07", "C09"}, "recv-error", "mmf%d:%d got %d of %d chunks of op%d and then %s", r.Host, r.Port, len(r.Chunks), r.Chunks[0].GetNumChunks(), c.Op.ID, r.RecvErr)
			}
		}
		j.unfinished(r)
		n := r.Chunks[0].GetNumChunks()
		want := wireProfile(c.Profile)
		if n < 1 {
			w.violate([]string{"C07"}, "num-chunks", "op%d announced %d chunks to mmf%d:%d", c.Op.ID, n, r.Host, r.Port)
		}
		if len(r.Extra) > 0 {
			w.violate([]string{"C07"}, "extra-chunks", "op%d sent %d chunks to mmf%d:%d after announcing %d", c.Op.ID, len(r.Chunks)+len(r.Extra), r.Host, r.Port, n)
		}
		for i, ch := range r.Chunks {
			if s := proto.Size(ch); s > 4<<20 {
				w.violate([]string{"C07"}, "chunk-size", "chunk %d of op%d has %d bytes, more than the 4 MB limit", i, c.Op.ID, s)
			}
			if ch.GetNumChunks() != n {
				w.violate([]string{"C07"}, "num-chunks-vary", "chunk %d of op%d announces %d chunks, the first one %d", i, c.Op.ID, ch.GetNumChunks(), n)
			}
			p := ch.GetProfile()
			if p.GetName() != want.GetName() || !sameExt(p.GetExtensions(), want.GetExtensions()) {
				w.violate([]string{"C07"}, "profile-changed", "chunk %d of op%d carries profile %q with %d extensions instead of %q with %d", i, c.Op.ID, p.GetName(), len(p.GetExtensions()), want.GetName(), len(want.GetExtensions()))
			}
			for _, k := range sortedKeys(p.GetPools()) {
				wp := want.GetPools()[k]
				if _, ok := want.GetPools()[k]; !ok {
					w.violate([]string{"C07", "C06"}, "pool-unknown", "chunk %d of op%d carries a pool %q that the profile does not have", i, c.Op.ID, k)
					continue
				}
				a, b := &pb.Pool{}, &pb.Pool{}
				proto.Merge(a, &pb.Pool{Name: p.GetPools()[k].GetName(), TagPresentFilters: p.GetPools()[k].GetTagPresentFilters(), StringEqualsFilters: p.GetPools()[k].GetStringEqualsFilters(), DoubleRangeFilters: p.GetPools()[k].GetDoubleRangeFilters(), CreationTimeRangeFilter: p.GetPools()[k].GetCreationTimeRangeFilter(), Extensions: p.GetPools()[k].GetExtensions()})
				proto.Merge(b, &pb.Pool{Name: wp.GetName(), TagPresentFilters: wp.GetTagPresentFilters(), StringEqualsFilters: wp.GetStringEqualsFilters(), DoubleRangeFilters: wp.GetDoubleRangeFilters(), CreationTimeRangeFilter: wp.GetCreationTimeRangeFilter(), Extensions: wp.GetExtensions()})
				if !proto.Equal(a, b) {
					w.violate([]string{"C07"}, "pool-changed", "chunk %d of op%d carries pool %q with another name, filters or extensions than the profile: got {%v} want {%v}", i, c.Op.ID, k, short(a), short(b))
				}
			}
		}
		if r.Complete {
			for _, k := range sortedKeys(want.GetPools()) {
				if r.Pools[k] == nil {
					w.violate([]string{"C07"}, "pool-missing", "pool %q of op%d's profile is in none of the %d chunks sent to mmf%d:%d", k, c.Op.ID, n, r.Host, r.Port)
				}
			}
		}
	}
	// Exactly one run for each reachable function, and the same participants.
	for _, c := range w.H.Calls {
		if c.Kind != "invoke" || c.Skipped != "" || c.StartSeq == 0 || c.Op.Inv == nil || w.expectedReject(c) {
			continue
		}
		if c.Ended && c.OK && !j.nearLimit(c) && j.mmfHealthy(c) && !w.impaired("core client", c.Core, -1, c.Start, c.End, true) &&
			w.stalledMs(c.Inc, c.Start, c.End) < int64(w.P.Cfg.MMFTimeout)*500 {
			for i := range c.Op.Inv.MMFs {
				m := &c.Op.Inv.MMFs[i]
				if m.Host < 0 || m.Type == "rest" || m.Sample != "" {
					continue
				}
				w.check("C07")
				if n := count[runKey{c, mmfBasePort + i}]; n != 1 {
					w.violate([]string{"C07", "C08", "C09"}, fmt.Sprintf("mmf-runs-%d", min(n, 2)), "op%d succeeded, but its function %d ran %d times instead of once", c.Op.ID, i, n)
				}
			}
		}
		var first *MMFRun
		for _, r := range byCall[c] {
			if !r.Complete {
				continue
			}
			if first == nil {
				first = r
				continue
			}
			w.check("C07")
			for _, k := range sortedKeys(c.Profile.GetPools()) {
				a, b := poolIDs(first.Pools[k]), poolIDs(r.Pools[k])
				if fmt.Sprint(a) != fmt.Sprint(b) {
					w.violate([]string{"C07"}, "mmfs-differ", "op%d: pool %q holds %d tickets for mmf%d:%d and %d for mmf%d:%d", c.Op.ID, k, len(a), first.Host, first.Port, len(b), r.Host, r.Port)
				}
			}
		}
	}
}

func short(m proto.Message) string {
	s := fmt.Sprint(m)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func poolIDs(v *PoolView) []string {
	if v == nil {
		return nil
	}
	var out []string
	for _, t := range v.Tickets {
		out = append(out, t.GetId())
	}
	sort.Strings(out)
	return out
}

// ---- C08, C09: matches ----

func (j *judge) matches() {
	w := j.w
	byCall := map[*Call][]*MMFRun{}
	for _, r := range w.H.Runs {
		if r.Call != nil {
			byCall[r.Call] = append(byCall[r.Call], r)
		}
	}
	for _, c := range w.H.Calls {
		if c.Kind != "invoke" || c.Skipped != "" || c.StartSeq == 0 || c.Op.Inv == nil {
			continue
		}
		hasSample, faulty := "", false
		for i := range c.Op.Inv.MMFs {
			m := &c.Op.Inv.MMFs[i]
			if m.Sample != "" {
				hasSample = m.Sample
			}
			faulty = faulty || m.End == "error" || m.End == "abort" || m.End == "hang" || m.Host < 0 || m.Type == "rest" || m.StopRecv > 0
		}
		faulty = faulty || !j.mmfHealthy(c)
		type sent struct {
			r *MMFRun
			s *SentMatch
			n int
		}
		n := func(s *sent) int {
			if s == nil {
				return 0
			}
			return s.n
		}
		all := map[string]*sent{}
		for _, r := range byCall[c] {
			for i := range r.Sent {
				k := detBytes(r.Sent[i].M)
				if all[k] == nil || r.Sent[i].Seq < all[k].s.Seq {
					all[k] = &sent{r: r, s: &r.Sent[i], n: n(all[k])}
				}
				all[k].n++
			}
		}
		got := map[string]int{}
		at := map[string]*RecvMatch{}
		var sampled []*pb.Match
		for i := range c.Matches {
			m := &c.Matches[i]
			k := detBytes(m.M)
			w.check("C08")
			s := all[k]
			if s == nil {
				if hasSample != "" {
					sampled = append(sampled, m.M)
					continue
				}
				same := ""
				for _, x := range all {
					if x.s.M.GetId() == m.M.GetId() {
						same = " (altered)"
					}
				}
				j.v(c, []string{"C08"}, "match-foreign", "op%d received match %q, which no function of the call returned%s", c.Op.ID, m.M.GetId(), same)
				continue
			}
			got[k]++
			at[k] = m
			if got[k] > s.n {
				j.v(c, []string{"C08"}, "match-dup", "op%d received match %q %d times; it was returned %d times", c.Op.ID, m.M.GetId(), got[k], s.n)
			}
			if m.Seq < s.s.Seq {
				j.v(c, []string{"C08"}, "match-early", "op%d received match %q before it was sent", c.Op.ID, m.M.GetId())
			}
		}
		if hasSample != "" {
			j.sampledMatches(c, hasSample, sampled, byCall[c])
		}
		if !c.Ended || c.Canceled || c.Op.Timeout > 0 && c.TimedOut {
			continue
		}
		if w.impaired("core client", c.Core, -1, c.Start, c.End, true) {
			continue
		}
		redisBad := j.redis && w.impaired("redis", c.Core, -1, c.Start, c.End, true)
		for _, r := range byCall[c] {
			if j.runBad(r) || r.EndKind == "abort" || r.EndKind == "dead" || r.EndKind == "send-error" {
				continue
			}
			for i := range r.Sent {
				s := &r.Sent[i]
				if s.M == nil || s.Err != "" || s.Over {
					continue
				}
				k := detBytes(s.M)
				w.check("C08")
				if faulty || r.EndKind != "ok" {
					w.check("C09")
				}
				props := []string{"C08"}
				if r.EndKind != "ok" {
					props = []string{"C09"}
				} else if faulty {
					props = append(props, "C09")
				}
				if got[k] == 0 && c.OK {
					// A call that outlived its limit for a hanging function still
					// has to deliver; one cut off by a dead store need not.
					if redisBad && j.nearLimit(c) {
						continue
					}
					j.v(c, props, "match-lost-"+r.EndKind, "op%d ended normally without match %q, which mmf%d:%d returned %d ms before the call ended (its run ended with %q)", c.Op.ID, s.M.GetId(), r.Host, r.Port, (c.End-s.T)/1e6, r.EndKind)
					continue
				}
				if m := at[k]; m != nil && got[k] == 1 && !redisBad {
					bound := w.callBoundMs() + w.stalledMs(c.Inc, s.T, m.T) + j.xferMs(c) + int64(len(c.Matches))*(c.Op.SlowMs+2) + 400
					if d := (m.T - s.T) / 1e6; d > bound {
						j.v(c, append(props, "C14"), "match-late", "op%d received match %q %d ms after mmf%d:%d sent it; at most %d ms are needed", c.Op.ID, s.M.GetId(), d, r.Host, r.Port, bound)
					}
				}
			}
		}
	}
}

func (j *judge) nearLimit(c *Call) bool {
	return c.End-c.Start >= int64(j.w.P.Cfg.MMFTimeout)*1e9-500e6
}

// sampledMatches judges what a sample function returned through om-core.
func (j *judge) sampledMatches(c *Call, fn string, ms []*pb.Match, runs []*MMFRun) {
	given := map[string]string{}
	var seen *MMFRun
	for _, r := range runs {
		if r.Complete {
			seen = r
		}
	}
	if seen == nil {
		return
	}
	counts := map[string]int{}
	bytes := 0
	for _, k := range sortedKeys(seen.Pools) {
		counts[k] = len(seen.Pools[k].Tickets)
		for _, t := range seen.Pools[k].Tickets {
			bytes += proto.Size(t)
		}
		for _, t := range seen.Pools[k].Tickets {
			if given[t.GetId()] != "" {
				return // pools share a ticket: nothing is promised
			}
			given[t.GetId()] = k
		}
	}
	j.w.check("C21")
	what := fmt.Sprintf("sample %s called by op%d", fn, c.Op.ID)
	j.sampleMatches(fn, what, ms, given)
	if c.OK && c.Ended && bytes < 4<<20 && !j.w.impaired("core client mmf", c.Core, -1, c.Start, c.End, true) && !j.nearLimit(c) {
		if want := sampleCount(fn, counts); len(ms) != want {
			j.w.violate([]string{"C21", "C08"}, "sample-count-via-"+fn, "%s: %d matches arrived; the documented rule allows %d of pools %v", what, len(ms), want, counts)
		}
	}
}

// ---- C02-C06, C11: what instances offer ----

func (j *judge) pools() {
	w := j.w
	runs := append([]*MMFRun(nil), w.H.Runs...)
	sort.SliceStable(runs, func(a, b int) bool { return runs[a].FirstSeq < runs[b].FirstSeq })
	type mark struct {
		seq int64
		pos int
	}
	marks := map[int32][]mark{}
	tol := w.skewTolMs() * 1e6
	ids := sortedKeys(w.H.ByID)
	labels := make([]int, 0)
	for l := range w.H.Created {
		labels = append(labels, l)
	}
	sort.Ints(labels)
	for _, r := range runs {
		c := r.Call
		if c == nil || !r.Complete || c.Op.Inv == nil || c.Profile == nil {
			continue
		}
		p := w.procs[uint8(r.CoreInc)]
		if p == nil || r.Core != c.Core {
			w.violate([]string{"C07"}, "wrong-core", "op%d was sent to core%d but its function was called by core%d", c.Op.ID, c.Core, r.Core)
			continue
		}
		w.check("C06")
		prof := wireProfile(c.Profile)
		// What is shown, and where.
		shown := map[string]*pb.Ticket{}
		in := map[string]map[string]int{}
		for _, k := range sortedKeys(r.Pools) {
			in[k] = map[string]int{}
			for _, t := range r.Pools[k].Tickets {
				id := t.GetId()
				in[k][id]++
				if in[k][id] == 2 {
					w.violate(w.props(nil, "C06", "C07"), "pool-dup", "pool %q of op%d holds ticket %s twice", k, c.Op.ID, id)
				}
				if prev := shown[id]; prev != nil {
					if !proto.Equal(prev, t) {
						w.violate(w.props(nil, "C06", "C01"), "pool-differ", "ticket %s differs between two pools of op%d", id, c.Op.ID)
					}
				} else {
					shown[id] = t
				}
				if poolInvalid(prof.GetPools()[k]) {
					w.violate(w.props(nil, "C06"), "pool-invalid", "pool %q of op%d has an invalid filter but holds ticket %s", k, c.Op.ID, id)
				}
			}
		}
		shownIDs := sortedKeys(shown)
		// C06: exactly what the filters select.
		for _, id := range shownIDs {
			t := shown[id]
			for _, k := range sortedKeys(prof.GetPools()) {
				pool := prof.GetPools()[k]
				if poolInvalid(pool) {
					continue
				}
				want, butTime := selects(pool, t)
				has := in[k][id] > 0
				if want == has {
					continue
				}
				if butTime && pool.GetCreationTimeRangeFilter() != nil {
					if has == invertedTime(pool, t) {
						w.known("C06", "creation-time filter: pool %q of op%d %s ticket %s created at %v (filter start %v, end %v, %v)", k, c.Op.ID, hasOrNot(has), id, t.GetAttributes().GetCreationTime().AsTime(), pool.GetCreationTimeRangeFilter().GetStart().AsTime(), pool.GetCreationTimeRangeFilter().GetEnd().AsTime(), pool.GetCreationTimeRangeFilter().GetBounds())
						continue
					}
					w.violate(w.props(nil, "C06"), "pool-time", "pool %q of op%d %s ticket %s created at %v (filter start %v, end %v, %v)", k, c.Op.ID, hasOrNot(has), id, t.GetAttributes().GetCreationTime().AsTime(), pool.GetCreationTimeRangeFilter().GetStart().AsTime(), pool.GetCreationTimeRangeFilter().GetEnd().AsTime(), pool.GetCreationTimeRangeFilter().GetBounds())
					continue
				}
				w.violate(w.props(nil, "C06"), "pool-filter", "pool %q of op%d %s ticket %s, which is active there and its filters %s: filters {%v} ticket {%v}", k, c.Op.ID, hasOrNot(has), id, map[bool]string{true: "select", false: "do not select"}[want], short(pool), short(t.GetAttributes()))
			}
		}
		// C01: content.
		for _, id := range shownIDs {
			t := shown[id]
			w.check("C01")
			cr := w.H.ByID[id]
			if cr == nil || !cr.Preload {
				l, ok := labelOf(t)
				if !ok {
					w.violate(w.props(nil, "C01", "C06"), "stranger", "op%d was offered ticket %q, which nobody submitted", c.Op.ID, id)
					continue
				}
				lc := w.H.Created[w.whose(l, id)]
				if lc == nil {
					w.violate(w.props(nil, "C01", "C06"), "stranger", "op%d was offered ticket %q with unknown content t%d", c.Op.ID, id, l)
					continue
				}
				if cr != nil && cr != lc {
					w.violate(w.props(nil, "C01", "C17"), "wrong-content", "op%d was offered ticket %s with the content of t%d; that id was given to the creator of t%d", c.Op.ID, id, l, cr.Label)
					continue
				}
				if cr == nil && lc.ID != "" {
					w.violate(w.props(nil, "C01", "C17"), "wrong-id", "op%d was offered t%d as ticket %s; its creator was given id %s", c.Op.ID, l, id, lc.ID)
					continue
				}
				cr = lc
			}
			if msg := j.differs(cr, t); msg != "" {
				w.violate(w.props(cr.Call, "C01", "C06"), "pool-content", "op%d was offered ticket %s (t%d), which differs from what was submitted: %s", c.Op.ID, id, cr.Label, msg)
			}
		}
		// The window of log positions this instance can be at.
		S, F := c.Start, r.FirstT
		lag := w.lagMs() * 1e6
		t0 := S - lag
		for i := 0; i < 4; i++ {
			t0 = S - lag - w.stalledMs(r.CoreInc, t0, F)*1e6
		}
		readBad := w.impaired("redis replica", r.Core, -1, t0, F, true) || w.impaired("core", r.Core, -1, t0, F, true)
		caughtUp := p.ReadyT != 0 && S >= p.ReadyT+lag+w.stalledMs(r.CoreInc, p.StartT, F)*1e6
		healthy := !readBad && caughtUp
		hi := sort.Search(len(j.log), func(i int) bool { return j.log[i].Seq >= r.FirstSeq })
		lo := 0
		for _, m := range marks[r.CoreInc] {
			if m.seq < c.StartSeq {
				lo = max(lo, m.pos)
			}
		}
		hlo := lo
		if healthy {
			hlo = max(lo, sort.Search(len(j.log), func(i int) bool { return j.log[i].T > t0 }))
		}
		newLo := lo
		cycle := int64(3*w.P.Cfg.InWait+200)*1e6 + w.stalledMs(r.CoreInc, S-int64(3*w.P.Cfg.InWait+200)*1e6-60e9, F)*1e6
		// Which hidden tickets should this call have seen?
		visible := func(cr *Created) bool {
			tk := &pb.Ticket{Attributes: cr.Req.GetAttributes()}
			for i := range c.Op.Inv.Pools {
				ps := &c.Op.Inv.Pools[i]
				if ps.Time != nil || ps.BadTS != "" {
					continue
				}
				if ok, _ := selects(prof.GetPools()[ps.Key], tk); ok {
					return true
				}
			}
			return false
		}
		settled := c.Phase == "settled" || c.Phase == "live" || c.Phase == "expired"
		for _, id := range ids {
			cr := w.H.ByID[id]
			_, is := shown[id]
			if !is && !visible(cr) {
				continue
			}
			if !is && cr.Call != nil && (!cr.Call.Ended || cr.Call.StartSeq > r.FirstSeq) {
				continue
			}
			exLo, exHi := j.expiry(cr)
			mayBeGone := F >= exLo-tol-1e6
			mustBeGone := S >= exHi+tol+cycle && exHi < forever
			if cr.Call != nil && (!cr.Call.Ended || S < cr.Call.End+lag+cycle) {
				mustBeGone = false // may have arrived just now
			}
			if is {
				w.check("C11")
				if mustBeGone && (healthy || caughtUp && !readBad) {
					w.violate(w.props(nil, "C11"), "expired-shown", "core%d offers ticket %s (t%d) %d ms after its expiration time (op%d, phase %s)", r.Core, id, cr.Label, (S-exHi)/1e6, c.Op.ID, c.Phase)
					continue
				}
			}
			j.interval(r, cr, id, is, healthy, t0, mayBeGone, mustBeGone)
			if j.redis {
				w.check("C05")
				if mustBeGone || !is && mayBeGone {
					continue
				}
				p1, any1 := j.feasible(id, is, lo, hi)
				if !any1 {
					what := "hides"
					if is {
						what = "offers"
					}
					went := ""
					if q, ok := j.feasible(id, is, 0, hi); ok {
						went = fmt.Sprintf("; that was so up to update %d, but this instance has shown update %d before", q, lo)
					}
					props := []string{"C05"}
					if went == "" && is && !j.everActive(id, hi) {
						props = append(props, "C02")
					}
					w.violate(props, "no-prefix", "core%d %s ticket %s (t%d) in op%d (phase %s), which no admissible prefix of the log (%d to %d updates) implies%s: %s", r.Core, what, id, cr.Label, c.Op.ID, c.Phase, lo, hi, went, j.history(id))
					continue
				}
				newLo = max(newLo, p1)
				if settled && healthy {
					if _, ok := j.feasible(id, is, hlo, hi); !ok {
						w.violate(append(j.recovers(c), "C05", map[bool]string{true: "C04", false: "C03"}[is]), "not-converged", "core%d shows ticket %s (t%d) as active=%v in op%d (phase %s), although the whole log implies the opposite: %s", r.Core, id, cr.Label, is, c.Op.ID, c.Phase, j.history(id))
					}
				}
			}
		}
		if newLo > 0 {
			marks[r.CoreInc] = append(marks[r.CoreInc], mark{r.FirstSeq, newLo})
		}
		// Tickets of creations that failed or were never acknowledged.
		for _, id := range shownIDs {
			if w.H.ByID[id] != nil {
				continue
			}
			w.check("C02")
			if !j.activationIssued(id, r.FirstSeq) {
				w.violate(w.props(nil, "C02"), "never-activated", "op%d on core%d was offered ticket %s before anybody asked to activate it", c.Op.ID, r.Core, id)
			}
		}
	}
}

func hasOrNot(has bool) string {
	if has {
		return "holds"
	}
	return "does not hold"
}

// known records an instance of a known finding.
func (w *World) known(prop, format string, a ...any) {
	for _, v := range w.H.Violations {
		if v.known && v.Props[0] == prop {
			return
		}
	}
	w.H.Violations = append(w.H.Violations, Violation{Props: []string{prop}, Key: "known", Msg: fmt.Sprintf(format, a...), known: true})
}

func (j *judge) everActive(id string, hi int) bool {
	for _, ch := range j.states[id] {
		if ch.on && ch.pos < hi {
			return true
		}
	}
	return false
}

// feasible finds the smallest log prefix in [lo, hi] in which the ticket is
// (not) offered.
func (j *judge) feasible(id string, active bool, lo, hi int) (int, bool) {
	chs := j.states[id]
	state := func(p int) bool {
		on, exists := false, false
		for _, ch := range chs {
			if ch.pos >= p {
				break
			}
			if j.log[ch.pos].Fields[0] == "ticket" {
				exists = true
			}
			on = ch.on
		}
		return on && exists
	}
	if state(lo) == active {
		return lo, true
	}
	for _, ch := range chs {
		if ch.pos+1 > lo && ch.pos+1 <= hi && state(ch.pos+1) == active {
			return ch.pos + 1, true
		}
	}
	return 0, false
}

func (j *judge) history(id string) string {
	s := ""
	for _, ch := range j.states[id] {
		e := j.log[ch.pos]
		s += fmt.Sprintf(" %d:%s@%d", ch.pos+1, e.Fields[0], (e.T-j.w.t0)/1e6)
	}
	return s
}

func (j *judge) activationIssued(id string, before int64) bool {
	if cr := j.w.H.ByID[id]; cr != nil && cr.PreAct {
		return true
	}
	for _, u := range j.byID[id] {
		if u.cmd == "activate" && u.startSeq < before {
			return true
		}
	}
	return false
}

// interval checks what the callers of the service may rely on, without looking
// into the log.
func (j *judge) interval(r *MMFRun, cr *Created, id string, is, healthy bool, t0 int64, mayBeGone, mustBeGone bool) {
	w := j.w
	c := r.Call
	w.check("C02")
	if is && !j.activationIssued(id, r.FirstSeq) {
		w.violate(w.props(nil, "C02"), "never-activated", "op%d on core%d was offered ticket %s (t%d) before anybody asked to activate it", c.Op.ID, r.Core, id, cr.Label)
		return
	}
	seenKey := fmt.Sprintf("%d/%s", r.CoreInc, id)
	if is {
		j.seenOn[seenKey] = r.FirstSeq
	}
	if !healthy {
		return
	}
	var acts, deacts []*upd
	for _, u := range j.byID[id] {
		if u.status == no || u.startSeq > r.FirstSeq {
			continue
		}
		switch u.cmd {
		case "activate":
			acts = append(acts, u)
		case "deactivate":
			deacts = append(deacts, u)
		}
	}
	if !is && !mayBeGone {
		w.check("C03")
		if cr.PreAct && len(deacts) == 0 {
			w.violate(w.props(nil, "C03"), "preloaded-hidden", "core%d does not offer ticket %s, which was active before the deployment started (op%d)", r.Core, id, c.Op.ID)
			return
		}
		for _, a := range acts {
			if a.status != sure || a.end > t0 {
				continue
			}
			ok := true
			for _, d := range deacts {
				if d.endSeq >= a.startSeq {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			props := []string{"C03", "C06"}
			if s, was := j.seenOn[seenKey]; was && s > a.endSeq {
				props = append(props, "C11")
			}
			if len(a.call.IDs) > len(a.call.Valid) {
				props = append(props, "C16")
			}
			if w.stopOverlap(a.call) {
				props = append(props, "C19")
			}
			w.violate(append(w.props(a.call, append(props, "C17")...), j.recovers(c)...), "activation-lost", "op%d (phase %s) on core%d was not offered ticket %s (t%d), although op%d activated it on core%d %d ms before, nobody asked to deactivate it and it has not expired", c.Op.ID, c.Phase, r.Core, id, cr.Label, a.call.Op.ID, a.call.Core, (c.Start-a.end)/1e6)
			return
		}
	}
	if is && !mustBeGone {
		w.check("C04")
		for _, d := range deacts {
			if d.endSeq == forever || d.end > t0 {
				continue
			}
			ok := true
			for _, a := range acts {
				if a.endSeq >= d.startSeq {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			by := fmt.Sprintf("op%d deactivated it", d.call.Op.ID)
			props := []string{"C04", "C06"}
			if d.run != nil {
				by = fmt.Sprintf("a match of mmf%d:%d in op%d contained it", d.run.Host, d.run.Port, d.call.Op.ID)
			} else {
				if len(d.call.IDs) > len(d.call.Valid) {
					props = append(props, "C16")
				}
				if w.stopOverlap(d.call) {
					props = append(props, "C19")
				}
			}
			w.violate(append(w.props(d.call, append(props, "C17")...), j.recovers(c)...), "deactivation-lost", "op%d (phase %s) on core%d was offered ticket %s (t%d), although %s %d ms before and nobody activated it since", c.Op.ID, c.Phase, r.Core, id, cr.Label, by, (c.Start-d.end)/1e6)
			return
		}
	}
}

// ---- C15: assignments ----

func (j *judge) watches() {
	w := j.w
	type made struct {
		u   *upd
		seq int64
	}
	byID := map[string][]*upd{}
	for _, u := range j.upds {
		if u.cmd == "assign" && u.id != "" {
			byID[u.id] = append(byID[u.id], u)
		}
	}
	for _, c := range w.H.Calls {
		if c.Kind != "watch" || c.Skipped != "" || c.StartSeq == 0 {
			continue
		}
		w.check("C15")
		want := map[string]int{}
		for _, id := range c.IDs {
			want[id]++
		}
		got := map[string]int{}
		end := j.endOf(c)
		lag := w.lagMs()
		for _, a := range c.Assigns {
			got[a.ID]++
			if want[a.ID] == 0 {
				j.v(c, []string{"C15"}, "watch-foreign", "op%d received an assignment for ticket %q, which it does not watch", c.Op.ID, a.ID)
				continue
			}
			if got[a.ID] > want[a.ID] {
				j.v(c, []string{"C15"}, "watch-dup", "op%d received %d assignments for ticket %s, which it watches %d time(s)", c.Op.ID, got[a.ID], a.ID, want[a.ID])
			}
			ok := false
			for _, u := range byID[a.ID] {
				if u.startSeq < a.Seq && sameAssign(u.val, a.A) {
					ok = true
					// Superseded long ago?
					for _, v := range byID[a.ID] {
						if v.status == sure && v.end+(lag+1000+w.stalledMs(c.Inc, v.end, a.T)+c.Op.SlowMs*int64(len(c.Assigns))+j.w.rttMs())*1e6 < a.T && u.endSeq < v.startSeq && v != u && !sameAssign(u.val, v.val) &&
							!w.impaired("redis replica core client", c.Core, -1, v.end, a.T, true) && w.caughtUp(c, a.T) {
							stale := true
							for _, x := range byID[a.ID] {
								if x.status != no && sameAssign(x.val, a.A) && x.endSeq >= v.startSeq {
									stale = false
								}
							}
							if stale {
								j.v(c, []string{"C15"}, "watch-stale", "op%d received assignment %q for ticket %s, which op%d had replaced by %q %d ms before", c.Op.ID, a.A.GetConnection(), a.ID, v.call.Op.ID, v.val.GetConnection(), (a.T-v.end)/1e6)
							}
						}
					}
				}
			}
			if !ok {
				j.v(c, []string{"C15"}, "watch-wrong", "op%d received assignment %q for ticket %s, which nobody had made", c.Op.ID, a.A.GetConnection(), a.ID)
			}
		}
		own := c.Canceled || c.TimedOut
		bad := w.impaired("core client", c.Core, -1, c.Start, end, true) || !w.alive(c.Inc, c.Start, end)
		if bad {
			continue
		}
		if !c.OK && !own {
			if c.Ended {
				j.v(c, []string{"C15", "C14"}, "watch-fails", "op%d WatchAssignments on core%d failed after %d ms with %s %q", c.Op.ID, c.Core, (end-c.Start)/1e6, c.Code, c.Msg)
			}
			continue
		}
		readBad := w.impaired("redis replica", c.Core, -1, c.Start, end, true)
		ttl := int64(w.P.Cfg.TTL) * 1000
		stalls := w.stalledMs(c.Inc, c.Start, end)
		tol := w.skewTolMs() + 200
		slow := c.Op.SlowMs * int64(len(c.Assigns)+1)
		all := true
		for _, id := range sortedKeys(want) {
			if got[id] >= want[id] {
				continue
			}
			all = false
			for _, u := range byID[id] {
				if u.status != sure || readBad || w.impaired("redis replica", c.Core, -1, u.end, end, true) {
					continue
				}
				from := max(u.end, c.Start)
				if p := w.procs[uint8(c.Inc)]; p != nil {
					from = max(from, p.ReadyT)
				}
				due := from + (lag+1000+100+stalls+slow+w.rttMs())*1e6
				if due > end {
					continue
				}
				// Is it still kept?
				if ms, ok := idMs(id); !ok || due+tol*1e6 > (ms+ttl+int64(w.P.Cfg.AssignTTL)*1000)*1e6 {
					continue
				}
				j.v(c, append(j.recovers(c), "C15"), "watch-missing", "op%d watched ticket %s on core%d for %d ms but never received the assignment op%d had made %d ms before the watch ended", c.Op.ID, id, c.Core, (end-c.Start)/1e6, u.call.Op.ID, (end-u.end)/1e6)
			}
		}
		if !c.OK {
			if own && c.TimedOut && all && len(c.IDs) > 0 {
				last := c.Start
				for _, a := range c.Assigns {
					last = max(last, a.T)
				}
				if (end-last)/1e6 > 2000+stalls+slow {
					j.v(c, []string{"C15"}, "watch-no-end", "op%d received everything it watches but was still open %d ms later", c.Op.ID, (end-last)/1e6)
				}
			}
			newest := c.Start
			for id := range want {
				if ms, ok := idMs(id); ok && idFormat.MatchString(id) {
					newest = max(newest, ms*1e6)
				} else {
					newest = forever // how old is that?
				}
			}
			if own && c.TimedOut && (end-newest)/1e6 > ttl+2000+stalls+tol+slow {
				j.v(c, []string{"C15", "C14"}, "watch-outlives", "op%d is still watching %d ms after its start; the ticket time to live is %d ms", c.Op.ID, (end-c.Start)/1e6, ttl)
			}
			continue
		}
		if !all && (end-c.Start)/1e6 < ttl-tol {
			j.v(c, []string{"C15"}, "watch-early", "op%d ended normally after %d ms with %d of %d assignments; the ticket time to live is %d ms", c.Op.ID, (end-c.Start)/1e6, len(c.Assigns), len(c.IDs), ttl)
		}
	}
}

// idMs is the creation time a ticket id carries.
func idMs(id string) (int64, bool) {
	if !idFormat.MatchString(id) {
		return 0, false
	}
	var ms int64
	fmt.Sscanf(id, "%d", &ms)
	return ms, ms > 1e11
}

func (w *World) caughtUp(c *Call, t int64) bool {
	p := w.procs[uint8(c.Inc)]
	return p != nil && p.ReadyT != 0 && t >= p.ReadyT+w.lagMs()*1e6
}

func sameAssign(a, b *pb.Assignment) bool {
	if a == nil {
		a = &pb.Assignment{}
	}
	if b == nil {
		b = &pb.Assignment{}
	}
	return proto.Equal(a, b)
}

// recovers: what a failure after the faults have ended also breaks.
func (j *judge) recovers(c *Call) []string {
	if len(j.w.Impairs) > 0 && (c.Phase == "settled" || c.Phase == "live" || c.Phase == "expired") {
		return []string{"C14"}
	}
	return nil
}
