package sim

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/dst/simredis"
)

// An upd is one state change somebody asked for.
type upd struct {
	cmd      string // ticket, activate, deactivate, assign
	id       string
	label    int
	val      *pb.Assignment
	call     *Call
	run      *MMFRun
	startSeq int64
	start    int64
	endSeq   int64 // certainly stored by (forever: unknown)
	end      int64
	status   int
	sample   bool
}

const (
	no    = iota // certainly refused
	maybe        // may have been stored
	sure         // acknowledged: stored
)

type judge struct {
	w      *World
	upds   []*upd
	byID   map[string][]*upd
	log    []*simredis.Entry
	logT   map[string]*pb.Ticket  // tickets of the log, by id
	states map[string][]logChange // state changes by ticket id, in log order
	seenOn map[string]int64       // "inc/id" -> FirstSeq of an observation that showed it
	redis  bool
	lax    bool // deactivations of unknown matches may be in the log
}

type logChange struct {
	pos int // index in the log
	on  bool
}

func (w *World) judge() {
	if w.P.Example != nil {
		if w.ex != nil {
			w.ex.judge()
		}
		return
	}
	j := &judge{w: w, byID: map[string][]*upd{}, logT: map[string]*pb.Ticket{}, states: map[string][]logChange{}, seenOn: map[string]int64{}, redis: w.P.Cfg.Storage == "redis"}
	if j.redis {
		j.log = w.Redis.Log
	}
	j.readLog()
	j.collect()
	j.calls()
	j.accounting()
	j.batches()
	j.runs()
	j.matches()
	j.laterDeactivated()
	j.pools()
	j.watches()
	j.trims()
	j.samples()
	j.metrics()
	j.storage()
	for _, p := range w.procs {
		if p != nil && p.Kind == "core" {
			w.check("C10")
		}
	}
}

// v reports a violation by a call: also one of the properties covering its path.
func (j *judge) v(c *Call, props []string, key, format string, a ...any) {
	j.w.violate(j.w.props(c, props...), key, format, a...)
}

func (j *judge) readLog() {
	for i, e := range j.log {
		if e.From == "foreign" {
			continue
		}
		switch e.Fields[0] {
		case "ticket":
			t := &pb.Ticket{}
			if len(e.Fields) < 2 || proto.Unmarshal([]byte(e.Fields[1]), t) != nil {
				j.w.violate([]string{"C01", "C13"}, "log-garbage", "log entry %s holds no ticket", e.ID)
				continue
			}
			j.logT[e.ID] = t
			j.states[e.ID] = append(j.states[e.ID], logChange{i, false})
		case "activate":
			j.states[e.Fields[1]] = append(j.states[e.Fields[1]], logChange{i, true})
		case "deactivate":
			j.states[e.Fields[1]] = append(j.states[e.Fields[1]], logChange{i, false})
		}
	}
}

// expectedReject says whether a request is invalid as a whole.
func (w *World) expectedReject(c *Call) bool {
	switch c.Kind {
	case "create":
		return c.Op.Bad == "noticket"
	case "activate", "deactivate":
		return len(c.IDs) == 0 || len(c.IDs) > w.P.Cfg.MaxUpd
	case "assign":
		return c.Op.Bad == "noroster" || c.Op.Bad == "noassignment"
	case "invoke":
		return c.Op.Bad == "noprofile" || c.Op.Bad == "nommfs"
	}
	return false
}

// answered: the outcome was decided by the service, not by the transport.
func answered(c *Call) bool {
	switch c.Code {
	case "OK", "InvalidArgument":
		return true
	case "Unknown", "Internal", "FailedPrecondition", "NotFound", "AlreadyExists", "Aborted", "OutOfRange", "DataLoss", "ResourceExhausted":
		return !c.TimedOut && !c.Canceled
	}
	return false
}

func (j *judge) collect() {
	w := j.w
	add := func(u *upd) {
		j.upds = append(j.upds, u)
		j.byID[u.id] = append(j.byID[u.id], u)
	}
	for _, c := range w.H.Calls {
		if c.Skipped != "" || c.StartSeq == 0 {
			continue
		}
		reject := w.expectedReject(c)
		base := upd{call: c, startSeq: c.StartSeq, start: c.Start, endSeq: forever, end: forever, status: maybe, label: -1 << 30}
		if reject {
			base.status = no
		} else if c.OK {
			base.status = sure
		}
		if base.status == sure {
			base.endSeq, base.end = c.EndSeq, c.End
		}
		switch c.Kind {
		case "create":
			if c.Op.Bad != "" {
				continue
			}
			u := base
			u.cmd, u.id, u.label = "ticket", c.ID, c.Op.T[0]
			add(&u)
		case "activate", "deactivate":
			named := map[string]bool{}
			for _, id := range c.ErrIDs {
				named[id] = true
			}
			for _, id := range c.IDs {
				u := base
				u.cmd, u.id = c.Kind, id
				if !idFormat.MatchString(id) {
					u.status = no
				} else if u.status == maybe && c.Ended && c.Code == "InvalidArgument" && len(named) > 0 && !named[id] {
					// A partial failure: this one succeeded.
					u.status, u.endSeq, u.end = sure, c.EndSeq, c.End
				}
				add(&u)
			}
		case "assign":
			for _, id := range c.IDs {
				u := base
				u.cmd, u.id, u.val = "assign", id, c.Assign
				if id == "" {
					u.status = no
				} else if j.redis && c.Assign != nil && proto.Size(c.Assign) == 0 && c.Ended && (c.OK || answered(c) && !hasEmpty(c.IDs) && !j.updatesExcused(c)) {
					// An assignment without content: taken or rejected, but as
					// a whole, whatever else is written at the time.
					if !c.OK {
						u.status = no
					}
				} else if c.Op.Bad == "emptyassign" || proto.Size(c.Assign) == 0 || !idFormat.MatchString(id) {
					u.status = maybe
					u.endSeq, u.end = forever, forever
				} else if u.status == maybe && c.Ended && answered(c) && hasEmpty(c.IDs) && !j.updatesExcused(c) {
					u.status, u.endSeq, u.end = sure, c.EndSeq, c.End
				}
				add(&u)
			}
		}
	}
	for _, r := range w.H.Runs {
		for i := range r.Sent {
			s := &r.Sent[i]
			recv := j.received(r, s)
			ids := matchIDs(s.M)
			for _, id := range ids {
				u := &upd{cmd: "deactivate", id: id, run: r, call: r.Call, startSeq: s.Seq, start: s.T, endSeq: forever, end: forever, status: maybe, label: -1 << 30}
				if id == "" {
					u.status = no
					if !j.redis {
						u.status = maybe
					}
				} else if recv != nil && !w.impaired("redis reject core", r.Core, -1, s.T, recv.T, true) && !j.staleAt(r.Call, s.T, s.Seq) {
					if w.P.Cfg.DeactWait {
						u.status, u.endSeq, u.end = sure, recv.Seq, recv.T
					} else if r.Call.OK {
						u.status, u.endSeq, u.end = sure, r.Call.EndSeq, r.Call.End
					}
				}
				if u.status == maybe && j.redis && s.Err == "" {
					// The log knows when it was stored at the latest: several
					// functions may have asked for the same.
					for _, ch := range j.states[id] {
						e := j.log[ch.pos]
						if !ch.on && e.Fields[0] == "deactivate" && e.Seq > s.Seq && e.From == fmt.Sprintf("core%d", r.Core) {
							u.endSeq, u.end = e.Seq, e.T
						}
					}
				}
				add(u)
			}
		}
	}
	j.sampleUpds(add)
}

// sampleUpds adds the deactivations of matches returned by sample functions,
// which run without a script.
func (j *judge) sampleUpds(add func(*upd)) {
	w := j.w
	for _, c := range w.H.Calls {
		if c.Kind != "invoke" || c.Op.Inv == nil || c.StartSeq == 0 {
			continue
		}
		has := false
		for i := range c.Op.Inv.MMFs {
			has = has || c.Op.Inv.MMFs[i].Sample != ""
		}
		if !has {
			continue
		}
		if !c.OK || w.impaired("core redis client", c.Core, -1, c.Start, j.endOf(c), true) || j.staleConn(c) {
			// Undelivered matches are not known: they may concern any ticket.
			j.lax = true
			for _, cr := range w.H.Created {
				if cr.ID != "" && (!c.Ended || cr.Call == nil || cr.Call.StartSeq < c.EndSeq) {
					add(&upd{cmd: "deactivate", id: cr.ID, sample: true, call: c, startSeq: c.StartSeq, start: c.Start, endSeq: forever, end: forever, status: maybe, label: -1 << 30})
				}
			}
		}
		for i := range c.Matches {
			m := &c.Matches[i]
			if strings.HasPrefix(m.M.GetId(), "m-") {
				continue
			}
			for _, id := range matchIDs(m.M) {
				u := &upd{cmd: "deactivate", id: id, sample: true, call: c, startSeq: c.StartSeq, start: c.Start, endSeq: forever, end: forever, status: maybe, label: -1 << 30}
				if !w.impaired("redis reject core", c.Core, -1, c.Start, m.T, true) {
					if w.P.Cfg.DeactWait {
						u.status, u.endSeq, u.end = sure, m.Seq, m.T
					} else if c.OK {
						u.status, u.endSeq, u.end = sure, c.EndSeq, c.End
					}
				}
				add(u)
			}
		}
	}
}

// laterDeactivated: every ticket of every match a function returned ends up
// deactivated, whoever else fails.
func (j *judge) laterDeactivated() {
	w := j.w
	if !j.redis {
		return
	}
	for _, r := range w.H.Runs {
		if r.Call == nil || j.runBad(r) || (r.EndKind != "ok" && r.EndKind != "error" && r.EndKind != "hang") {
			continue
		}
		p := w.procs[uint8(r.CoreInc)]
		for i := range r.Sent {
			s := &r.Sent[i]
			if s.Err != "" || s.M == nil || s.Over {
				continue
			}
			by := s.T + (w.callBoundMs()+w.stalledMs(r.CoreInc, s.T, w.now())+j.xferMs(r.Call))*1e6
			if by > w.now() || w.impaired("redis reject core", r.Core, -1, s.T, by, true) || p == nil || p.AskT != 0 && p.AskT <= by || p.Dead && p.DeadT <= by || j.staleAt(r.Call, s.T, s.Seq) {
				continue
			}
			for _, id := range matchIDs(s.M) {
				if id == "" {
					continue
				}
				w.check("C04")
				ok := false
				for _, ch := range j.states[id] {
					ok = ok || !ch.on && j.log[ch.pos].Fields[0] == "deactivate" && j.log[ch.pos].Seq > s.Seq
				}
				if !ok {
					j.v(r.Call, []string{"C04"}, "match-never-deactivated", "mmf%d:%d returned match %s with ticket %s in op%d, but no deactivation of it was ever stored (the run ended with %q)", r.Host, r.Port, s.M.GetId(), id, r.Call.Op.ID, r.EndKind)
				}
			}
		}
	}
}

func hasEmpty(ids []string) bool {
	for _, id := range ids {
		if id == "" {
			return true
		}
	}
	return false
}

// received finds the delivery of a sent match at its caller.
func (j *judge) received(r *MMFRun, s *SentMatch) *RecvMatch {
	if r.Call == nil || s.M == nil {
		return nil
	}
	// The last one: identical matches cannot be told apart.
	for i := len(r.Call.Matches) - 1; i >= 0; i-- {
		if m := &r.Call.Matches[i]; m.M.GetId() == s.M.GetId() && m.Seq > s.Seq && proto.Equal(m.M, s.M) {
			return m
		}
	}
	return nil
}

// updatesExcused: storage or the instance may have failed this call's updates.
func (j *judge) updatesExcused(c *Call) bool {
	classes := "core"
	if j.redis {
		classes += " redis reject"
	}
	return j.w.impaired(classes, c.Core, -1, c.Start, j.endOf(c), true)
}

func (j *judge) endOf(c *Call) int64 {
	if c.Ended {
		return c.End
	}
	return j.w.now()
}

// ---- C13/C14/C16: every call's own outcome ----

func (j *judge) callProps(c *Call, base ...string) []string {
	p := j.w.props(c, base...)
	if c.Kind == "invoke" {
		p = append(p, "C09")
	}
	return p
}

func (j *judge) mmfHealthy(c *Call) bool {
	if c.Op.Inv == nil {
		return true
	}
	for i := range c.Op.Inv.MMFs {
		m := &c.Op.Inv.MMFs[i]
		if m.Host == -1 || m.Type == "rest" || m.Sample != "" {
			continue
		}
		if j.w.impaired("mmf", c.Core, max(0, m.Host), c.Start, j.endOf(c), true) {
			return false
		}
	}
	return true
}

// scriptMs: how long the functions of a call want to take at most.
func (j *judge) scriptMs(c *Call) int64 {
	if c.Op.Inv == nil {
		return 0
	}
	limit := int64(j.w.P.Cfg.MMFTimeout) * 1000
	var longest int64
	for i := range c.Op.Inv.MMFs {
		m := &c.Op.Inv.MMFs[i]
		var t int64
		if m.End == "hang" {
			t = limit
		}
		t += m.EndDelayMs
		for k := range m.Matches {
			t += m.Matches[k].DelayMs
		}
		chunks := int64(1)
		for _, r := range j.w.H.Runs {
			if r.Call == c {
				chunks = max(chunks, int64(len(r.Chunks)))
			}
		}
		t += m.RecvDelay * chunks
		if m.Host == -1 || m.Sample != "" {
			t += 5000
		}
		longest = max(longest, t)
	}
	if !j.mmfHealthy(c) {
		longest = limit
	}
	return min(longest, limit)
}

// xferMs is how long the bytes of a call take on the slow simulated links.
func (j *judge) xferMs(c *Call) int64 {
	var bytes int64
	for _, m := range c.Matches {
		bytes += int64(proto.Size(m.M))
	}
	for _, r := range j.w.H.Runs {
		if r.Call == c {
			for _, ch := range r.Chunks {
				bytes += int64(proto.Size(ch))
			}
			for _, s := range r.Sent {
				bytes += int64(proto.Size(s.M))
			}
		}
	}
	return j.w.xferMs(bytes)
}

func (w *World) xferMs(bytes int64) int64 {
	win := int64(w.P.Cfg.Window)
	if win <= 0 {
		win = 65536
	}
	win = min(win, 65535) // HTTP/2 flow control starts with this
	return (bytes/win + 1) * w.rttMs() * 2
}

func (j *judge) calls() {
	w := j.w
	for _, c := range w.H.Calls {
		if c.Skipped != "" || c.StartSeq == 0 {
			continue
		}
		w.check("C14")
		if c.Via == "rest" {
			w.check("C18")
		}
		if !j.redis {
			w.check("C20")
		}
		final := c.Phase == "live" || c.Phase == "settled" || c.Phase == "expired"
		end := j.endOf(c)
		dur := (end - c.Start) / 1e6
		stalls := w.stalledMs(c.Inc, c.Start, end)
		bound := w.callBoundMs() + stalls
		own := c.Canceled || c.Op.Cancel > 0 || (c.Op.Timeout > 0 && c.TimedOut && c.Kind != "watch")
		coreBad := w.impaired("core", c.Core, -1, c.Start, end, true)
		clientBad := w.impaired("client", c.Core, -1, c.Start, end, true)
		redisBad := j.redis && w.impaired("redis", c.Core, -1, c.Start, end, true)
		reject := j.redis && w.impaired("reject", c.Core, -1, c.Start, end, true)
		if !w.alive(c.Inc, c.Start, end) {
			coreBad = coreBad || w.procs[uint8(c.Inc)] == nil || w.procs[uint8(c.Inc)].Asked
		}
		// A server held up for longer than a client waits for a handshake.
		held := c.Code == "Unavailable" && strings.Contains(c.Msg, "connection error") && w.stalledMs(c.Inc, c.Start-15e9, end) >= 3000
		coreBad = coreBad || held
		if c.BadBody != "" {
			j.v(c, []string{"C18"}, "rest-body", "op%d %s over REST answered HTTP %d with a body that is not the documented message: %.200q", c.Op.ID, c.Kind, c.HTTP, c.BadBody)
		}
		if !c.Ended {
			if !final && (own || coreBad || clientBad || redisBad) {
				continue
			}
			j.w.violate(j.callProps(c, "C14"), "never-ends", "op%d %s to core%d (%s, phase %s) is still running after %d ms", c.Op.ID, c.Kind, c.Core, c.Via, c.Phase, dur)
			continue
		}
		if w.expectedReject(c) {
			w.check("C16")
			if c.OK {
				j.v(c, []string{"C16"}, "reject-"+c.Kind+c.Op.Bad, "op%d %s (%s, %d ids, limit %d) is invalid but was accepted", c.Op.ID, c.Kind, c.Op.Bad, len(c.IDs), w.P.Cfg.MaxUpd)
			} else if c.Code != "InvalidArgument" && !own && !coreBad && !clientBad && w.alive(c.Inc, c.Start, end) {
				j.v(c, []string{"C16"}, "reject-code-"+c.Kind, "op%d %s (%s) is invalid but failed with %s %q instead of InvalidArgument", c.Op.ID, c.Kind, c.Op.Bad, c.Code, c.Msg)
			}
			continue
		}
		if c.Kind == "assign" && hasEmpty(c.IDs) {
			if c.OK {
				j.v(c, []string{"C13", "C16"}, "assign-empty", "op%d CreateAssignments with an empty ticket id reported success", c.Op.ID)
			}
			continue
		}
		if c.Op.Bad == "emptyassign" || c.Op.Bad == "oddassign" || c.Kind == "assign" && proto.Size(c.Assign) == 0 {
			continue
		}
		if c.Kind == "watch" {
			continue // judged by watches
		}
		if c.OK && c.Kind == "create" && c.ID == "" {
			j.v(c, []string{"C01", "C13", "C17"}, "empty-id", "op%d CreateTicket on core%d succeeded with an empty ticket id", c.Op.ID, c.Core)
		}
		if (c.Kind == "activate" || c.Kind == "deactivate") && !c.OK {
			w.check("C13")
			asked := map[string]bool{}
			for _, id := range c.IDs {
				asked[id] = true
			}
			for _, id := range c.ErrIDs {
				if !asked[id] {
					j.v(c, []string{"C13", "C17"}, "err-foreign", "op%d %s failed naming ticket %q, which is not among the ids it asked for %v", c.Op.ID, c.Kind, id, c.IDs)
				}
			}
			if answered(c) && len(c.ErrIDs) == 0 && !coreBad && !clientBad {
				j.v(c, []string{"C13"}, "err-unnamed", "op%d %s failed with %s %q without naming the tickets concerned", c.Op.ID, c.Kind, c.Code, c.Msg)
			}
		}
		if !c.OK {
			ok := own || coreBad || clientBad
			if c.Kind != "invoke" && (redisBad || reject || j.staleConn(c)) {
				ok = true
			}
			if c.Kind == "invoke" && redisBad && c.TimedOut {
				ok = true
			}
			if final && !own {
				// Faults ended long ago; nothing excuses a failure now.
				ok = held
				if w.P.Cfg.Storage == "redis" && (w.unendedImpair(c.Core) || c.Kind != "invoke" && j.staleConn(c)) {
					ok = true
				}
			}
			if !ok {
				props := []string{"C14"}
				switch {
				case c.Kind == "invoke":
					props = append(props, "C08")
				case c.TimedOut:
				default:
					props = append(props, "C17")
					if c.Kind != "create" {
						props = append(props, "C16")
					}
				}
				j.w.violate(j.callProps(c, props...), "fails-"+c.Kind+"-"+c.Phase, "op%d %s on core%d (%s, phase %s) failed after %d ms with %s %q although nothing it needs was impaired", c.Op.ID, c.Kind, c.Core, c.Via, c.Phase, dur, c.Code, c.Msg)
			}
			continue
		}
		if own || coreBad || clientBad || redisBad && !final {
			continue
		}
		if c.Kind == "invoke" {
			bound += j.scriptMs(c) + j.xferMs(c) + int64(len(c.Matches))*(c.Op.SlowMs+2) + 300
		}
		if dur > bound {
			j.w.violate(j.callProps(c, "C14"), "slow-"+c.Kind, "op%d %s on core%d (%s, phase %s) took %d ms; it needs at most %d ms with this configuration", c.Op.ID, c.Kind, c.Core, c.Via, c.Phase, dur, bound)
		}
	}
}

// staleConn: the connections to redis of this instance broke, and it may not
// have noticed yet: one batch can fail on every broken connection of its pool,
// unless it was idle long enough to be tested first.
func (j *judge) staleConn(c *Call) bool {
	return !c.TimedOut && j.staleAt(c, c.Start, c.StartSeq)
}

// staleAt is staleConn for updates a call makes at some time.
func (j *judge) staleAt(c *Call, start, startSeq int64) bool {
	if !j.redis {
		return false
	}
	w := j.w
	for _, im := range w.Impairs {
		if im.Class != "redis" || !im.Hard || im.From > start || im.Core >= 0 && im.Core != c.Core {
			continue
		}
		done := int64(0)
		for _, o := range w.H.Calls {
			if o != c && o.Core == c.Core && o.Inc == c.Inc && o.Ended && o.Start > im.To && o.OK && o.EndSeq < startSeq &&
				(o.Kind == "create" || o.Kind == "activate" || o.Kind == "deactivate" || o.Kind == "assign") && j.wrote(o) {
				done = o.End
			}
		}
		if done == 0 && start <= im.To+max(20e9, 2*(im.To-im.From)) {
			return true
		}
	}
	return false
}

// wrote: did this instance write to storage during the call? A call that names
// nothing but malformed ids does not.
func (j *judge) wrote(c *Call) bool {
	i := sort.Search(len(j.log), func(i int) bool { return j.log[i].Seq > c.StartSeq })
	for ; i < len(j.log) && j.log[i].Seq < c.EndSeq; i++ {
		if j.log[i].From == fmt.Sprintf("core%d", c.Core) {
			return true
		}
	}
	return false
}

// unendedImpair: a fault of this core's storage never ended.
func (w *World) unendedImpair(core int) bool {
	for _, im := range w.Impairs {
		if im.To == forever && im.Class != "selfdeath" && (im.Core < 0 || im.Core == core) {
			return true
		}
	}
	return false
}

// alive: was this process running all the time between?
func (w *World) alive(inc int32, from, to int64) bool {
	p := w.procs[uint8(inc)]
	return p != nil && p.StartT <= from && (!p.Dead || p.DeadT >= to)
}

// ---- C13: acknowledged if and only if stored ----

func (j *judge) accounting() {
	w := j.w
	if !j.redis {
		return
	}
	type key struct{ cmd, id string }
	entries := map[key][]*simredis.Entry{}
	labels := map[int][]*simredis.Entry{}
	for _, e := range j.log {
		if e.From == "preload" || e.From == "foreign" {
			continue
		}
		switch e.Fields[0] {
		case "ticket":
			if t := j.logT[e.ID]; t != nil {
				if l, ok := labelOf(t); ok {
					l = w.whose(l, e.ID)
					labels[l] = append(labels[l], e)
				} else if t != nil {
					w.violate([]string{"C13", "C01", "C16"}, "log-stranger", "log entry %s is a ticket nobody submitted", e.ID)
				}
			}
		case "activate", "deactivate", "assign":
			k := key{e.Fields[0], e.Fields[1]}
			entries[k] = append(entries[k], e)
		default:
			w.violate([]string{"C13", "C16"}, "log-unknown", "log entry %s of unknown kind %q", e.ID, e.Fields[0])
		}
	}
	// Tickets.
	for _, u := range j.upds {
		if u.cmd != "ticket" {
			continue
		}
		w.check("C13")
		es := labels[u.label]
		if u.status == sure {
			var hit *simredis.Entry
			for _, e := range es {
				if e.ID == u.id {
					hit = e
				}
			}
			props := []string{"C13", "C01", "C17"}
			if w.stopOverlap(u.call) {
				props = append(props, "C19")
			}
			switch {
			case hit == nil && len(es) == 0:
				j.v(u.call, props, "create-lost", "op%d CreateTicket (ticket t%d) returned id %q but its ticket is not in the log", u.call.Op.ID, u.label, u.id)
			case hit == nil:
				j.v(u.call, props, "create-other", "op%d CreateTicket (ticket t%d) returned id %q but its ticket is stored as %s", u.call.Op.ID, u.label, u.id, es[0].ID)
			case hit.Seq < u.startSeq || hit.Seq > u.endSeq:
				j.v(u.call, props, "create-late", "op%d CreateTicket returned before its ticket %s was stored", u.call.Op.ID, u.id)
			}
		}
		if len(es) > 1 {
			j.v(u.call, []string{"C13", "C01"}, "create-twice", "ticket t%d of op%d is in the log %d times (%s, %s)", u.label, u.call.Op.ID, len(es), es[0].ID, es[1].ID)
		}
		if u.status == no && len(es) > 0 {
			j.v(u.call, []string{"C16"}, "create-rejected", "op%d was rejected but its ticket is in the log", u.call.Op.ID)
		}
		for _, e := range es {
			j.content(u, e.ID, j.logT[e.ID], "the log")
		}
	}
	// Updates.
	by := map[key][]*upd{}
	for _, u := range j.upds {
		if u.cmd != "ticket" {
			by[key{u.cmd, u.id}] = append(by[key{u.cmd, u.id}], u)
		}
	}
	var keys []key
	for k := range entries {
		keys = append(keys, k)
	}
	for k := range by {
		if entries[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(a, b int) bool {
		if keys[a].cmd != keys[b].cmd {
			return keys[a].cmd < keys[b].cmd
		}
		return lessID(keys[a].id, keys[b].id)
	})
	for _, k := range keys {
		w.check("C13")
		us, es := by[k], entries[k]
		may, rejected := 0, 0
		for _, u := range us {
			if u.status != no {
				may++
			} else if u.call != nil {
				rejected++
			}
		}
		if len(es) > may && !(j.lax && k.cmd == "deactivate") {
			props := []string{"C13"}
			if rejected > 0 || (k.cmd != "assign" && !idFormat.MatchString(k.id) && !j.fromMatch(us)) {
				props = append(props, "C16")
			}
			var c *Call
			if len(us) > 0 {
				c = us[0].call
			}
			if may == 0 || k.cmd == "deactivate" {
				props = append(props, "C05")
			}
			j.v(c, append(props, "C17"), "log-extra-"+k.cmd, "the log holds %d times %q for ticket %q, but at most %d such updates were asked for (%d of rejected requests)", len(es), k.cmd, k.id, may, rejected)
		}
		// Values.
		if k.cmd == "assign" {
			for _, e := range es {
				a := &pb.Assignment{}
				if len(e.Fields) < 4 || proto.Unmarshal([]byte(e.Fields[3]), a) != nil {
					w.violate([]string{"C13", "C15"}, "log-assign", "log entry %s holds no assignment", e.ID)
					continue
				}
				ok := false
				for _, u := range us {
					ok = ok || proto.Equal(a, u.val)
				}
				if !ok {
					w.violate([]string{"C13", "C15", "C17"}, "log-assign-value", "log entry %s assigns %q to ticket %s, which no call asked for", e.ID, a.GetConnection(), k.id)
				}
			}
		}
		// Every acknowledged update has an entry of its own in its interval.
		var need []*upd
		for _, u := range us {
			if u.status == sure {
				need = append(need, u)
			}
		}
		used := make([]bool, len(need))
		for _, e := range es {
			best := -1
			for i, u := range need {
				if used[i] || e.Seq < u.startSeq || e.Seq > j.storeBy(u) {
					continue
				}
				if u.cmd == "assign" {
					a := &pb.Assignment{}
					if len(e.Fields) < 4 || proto.Unmarshal([]byte(e.Fields[3]), a) != nil || !proto.Equal(a, u.val) {
						continue
					}
				}
				if best < 0 || j.storeBy(u) < j.storeBy(need[best]) {
					best = i
				}
			}
			if best >= 0 {
				used[best] = true
			}
		}
		for i, u := range need {
			if used[i] {
				continue
			}
			if u.run != nil || u.sample {
				host, port := 100, 0
				if u.run != nil {
					host, port = u.run.Host, u.run.Port
				}
				when := "by the end of the call"
				if w.P.Cfg.DeactWait {
					when = "when the match was returned"
				}
				j.v(u.call, []string{"C04"}, "match-not-deactivated", "mmf%d:%d returned a match with ticket %s in op%d; its deactivation was not stored %s", host, port, u.id, u.call.Op.ID, when)
				continue
			}
			props := []string{"C13", "C17"}
			if w.stopOverlap(u.call) {
				props = append(props, "C19")
			}
			if len(u.call.IDs) > len(u.call.Valid) {
				props = append(props, "C16")
			}
			if u.cmd == "assign" {
				props = append(props, "C15")
			}
			j.v(u.call, props, "lost-"+u.cmd, "op%d %s on core%d (%s) acknowledged ticket %s, but no such update was stored between request and reply (%d of its kind in the log)", u.call.Op.ID, u.cmd, u.call.Core, u.call.Via, u.id, len(es))
		}
	}
}

func (j *judge) fromMatch(us []*upd) bool {
	for _, u := range us {
		if u.run != nil || u.sample {
			return true
		}
	}
	return false
}

// storeBy is the sequence number by which an acknowledged update is stored.
func (j *judge) storeBy(u *upd) int64 { return u.endSeq }

// stopOverlap: the instance was told to stop while the call ran.
func (w *World) stopOverlap(c *Call) bool {
	p := w.procs[uint8(c.Inc)]
	return p != nil && p.AskT != 0 && c.Start <= p.AskT && c.End >= p.AskT-2e9
}

// ---- C17 and C13: with only refusals, every outcome is determined ----

func (j *judge) batches() {
	w := j.w
	if !j.redis {
		return
	}
	rej := map[string][]int64{} // "cmd id" -> times
	for _, r := range w.Redis.Rejects {
		if r.Kind != "error" {
			continue
		}
		k := ""
		switch r.Fields[0] {
		case "ticket":
			t := &pb.Ticket{}
			if proto.Unmarshal([]byte(r.Fields[1]), t) == nil {
				if l, ok := labelOf(t); ok {
					k = fmt.Sprintf("ticket t%d", l)
				}
			}
		default:
			k = r.Fields[0] + " " + r.Fields[1]
		}
		k = r.From + " " + k // another instance's refusals are none of this one's
		rej[k] = append(rej[k], r.T)
	}
	for _, c := range w.H.Calls {
		if c.Skipped != "" || c.StartSeq == 0 || !c.Ended || w.expectedReject(c) || c.Op.Bad != "" || hasEmpty(c.IDs) || c.Kind == "assign" && proto.Size(c.Assign) == 0 {
			continue
		}
		if c.Kind != "create" && c.Kind != "activate" && c.Kind != "deactivate" && c.Kind != "assign" {
			continue
		}
		if c.Canceled || c.TimedOut || w.impaired("redis core client", c.Core, -1, c.Start, c.End, true) || c.Code == "Unavailable" || j.staleConn(c) {
			continue
		}
		within := func(k string) int {
			n := 0
			for _, t := range rej[fmt.Sprintf("core%d %s", c.Core, k)] {
				if t >= c.Start && t <= c.End {
					n++
				}
			}
			return n
		}
		w.check("C17")
		var keys []string
		if c.Kind == "create" {
			keys = []string{fmt.Sprintf("ticket t%d", w.root(c.Op.T[0]))}
		} else {
			for _, id := range c.IDs {
				if c.Kind == "assign" || idFormat.MatchString(id) {
					keys = append(keys, c.Kind+" "+id)
				}
			}
		}
		bad, sureBad := 0, 0
		badIDs := map[string]bool{}
		for i, k := range keys {
			if within(k) > 0 {
				bad++
				if c.Kind == "create" && !w.hasTwin(w.root(c.Op.T[0])) || c.Kind != "create" && !j.shared(c, k) {
					sureBad++
				}
				if c.Kind != "create" {
					badIDs[strings.TrimPrefix(keys[i], c.Kind+" ")] = true
				}
			}
		}
		if c.OK && sureBad > 0 {
			j.v(c, []string{"C13", "C17"}, "refused-ok-"+c.Kind, "op%d %s reported success although storage refused %d of its updates", c.Op.ID, c.Kind, sureBad)
		}
		if !c.OK && bad == 0 {
			j.v(c, []string{"C17"}, "fails-innocent-"+c.Kind, "op%d %s failed with %s %q although storage accepted all its updates (another update of the batch was refused)", c.Op.ID, c.Kind, c.Code, c.Msg)
		}
		if !c.OK && c.Kind != "assign" && c.Kind != "create" {
			for _, id := range c.ErrIDs {
				if !badIDs[id] {
					j.v(c, []string{"C13", "C17"}, "err-wrong", "op%d %s names ticket %q as failed, but storage did not refuse that update", c.Op.ID, c.Kind, id)
				}
			}
			named := map[string]bool{}
			for _, id := range c.ErrIDs {
				named[id] = true
			}
			for id := range badIDs {
				if !named[id] && !j.shared(c, c.Kind+" "+id) {
					j.v(c, []string{"C13", "C17"}, "err-missing", "op%d %s failed without naming ticket %q, whose update storage refused (it named %v)", c.Op.ID, c.Kind, id, c.ErrIDs)
				}
			}
		}
	}
}

// shared: does anybody else ask for the same update at about the same time, or
// the same call twice?
func (j *judge) shared(c *Call, k string) bool {
	_, id, _ := strings.Cut(k, " ")
	n := 0
	for _, u := range j.byID[id] {
		if u.cmd != c.Kind || u.status == no {
			continue
		}
		if u.run != nil || u.sample || u.call == c || u.startSeq < c.EndSeq && (!u.call.Ended || u.status == maybe || u.call.EndSeq > c.StartSeq) {
			n++
		}
	}
	return n > 1
}

// ---- C12: trimming ----

func (j *judge) trims() {
	w := j.w
	if !j.redis {
		return
	}
	ttl := int64(w.P.Cfg.TTL) * 1000
	for _, e := range j.log {
		if e.TrimT == 0 {
			continue
		}
		w.check("C12")
		age := (e.TrimT - e.T) / 1e6
		if e.From == "preload" {
			continue
		}
		if age < ttl-w.skewTolMs() {
			w.violate([]string{"C12"}, "trim-young", "log entry %s (%s) was trimmed by %s at the age of %d ms; the time to live is %d ms", e.ID, e.Fields[0], e.TrimBy, age, ttl)
			return
		}
	}
}

// ---- C21: sample functions ----

func (j *judge) samples() {
	w := j.w
	for i, r := range w.H.Samples {
		w.check("C21")
		given := map[string]string{}
		total := 0
		for name, ts := range r.Pools {
			for _, t := range ts {
				given[t.GetId()] = name
				total++
			}
		}
		what := fmt.Sprintf("sample %s run %d (pools %v, %d chunks, order %q, empty %q)", r.Fn, i, r.Spec.Pools, r.Chunks, r.Spec.Order, r.Spec.Empty)
		j.sampleMatches(r.Fn, what, r.Matches, given)
		if r.Fault {
			continue
		}
		if r.Err != "" || !r.Done {
			if w.sample != nil && w.impaired("mmf", -1, 100, r.Start, r.End, true) {
				continue
			}
			w.violate([]string{"C21"}, "sample-error-"+r.Fn, "%s failed: %s", what, r.Err)
			continue
		}
		counts := map[string]int{}
		for name, ts := range r.Pools {
			counts[name] = len(ts)
		}
		if want := sampleCount(r.Fn, counts); len(r.Matches) != want {
			w.violate([]string{"C21"}, "sample-count-"+r.Fn, "%s returned %d matches; the documented rule allows %d", what, len(r.Matches), want)
		}
	}
}

// sampleCount: how many matches the documented rule allows.
func sampleCount(fn string, n map[string]int) int {
	total := 0
	for _, k := range n {
		total += k
	}
	switch fn {
	case "soloduel":
		return total / 2
	case "battleroyale":
		return n["competitive"] / 100
	case "teamshooter":
		return min(n["tank"]/2, n["healer"]/2, n["dps"]/6)
	}
	return 0
}

func (j *judge) sampleMatches(fn, what string, ms []*pb.Match, given map[string]string) {
	w := j.w
	used := map[string]string{}
	seen := map[string]bool{}
	for _, m := range ms {
		if m == nil {
			w.violate([]string{"C21"}, "sample-nil-"+fn, "%s returned an empty match", what)
			continue
		}
		if seen[m.GetId()] {
			w.violate([]string{"C21"}, "sample-matchid-"+fn, "%s returned two matches with id %s", what, m.GetId())
		}
		seen[m.GetId()] = true
		n := 0
		pools := map[string]int{}
		for _, rk := range sortedKeys(m.GetRosters()) {
			perTeam := map[string]int{}
			for _, t := range m.GetRosters()[rk].GetTickets() {
				n++
				id := t.GetId()
				pool, ok := given[id]
				if !ok {
					w.violate([]string{"C21"}, "sample-foreign-"+fn, "%s put ticket %q into match %s, which was in none of the pools it was given", what, id, m.GetId())
				}
				pools[pool]++
				perTeam[pool]++
				if prev, dup := used[id]; dup {
					w.violate([]string{"C21"}, "sample-dup-"+fn, "%s put ticket %s into match %s and again into match %s", what, id, prev, m.GetId())
				}
				used[id] = m.GetId()
			}
			if fn == "teamshooter" && (perTeam["tank"] != 1 || perTeam["healer"] != 1 || perTeam["dps"] != 3) {
				w.violate([]string{"C21"}, "sample-team-"+fn, "%s returned match %s with a team of %v", what, m.GetId(), perTeam)
			}
		}
		want := map[string]int{"soloduel": 2, "battleroyale": 100, "teamshooter": 10}[fn]
		if n != want {
			w.violate([]string{"C21"}, "sample-size-"+fn, "%s returned match %s with %d tickets instead of %d", what, m.GetId(), n, want)
		}
		if fn == "battleroyale" && pools["competitive"] != n {
			w.violate([]string{"C21"}, "sample-pool-"+fn, "%s returned match %s with tickets of %v", what, m.GetId(), pools)
		}
	}
}
