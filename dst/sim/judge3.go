package sim

import (
	"strconv"
	"strings"
)

// ---- C22: metrics ----

var rpcNames = map[string]string{
	"create": "CreateTicket", "activate": "ActivateTickets", "deactivate": "DeactivateTickets",
	"invoke": "InvokeMatchmakingFunctions", "assign": "CreateAssignments", "watch": "WatchAssignments",
}

// tally is what an instance must have counted at least, and at most.
type tally struct{ lo, hi float64 }

func (t *tally) add(n float64, certain bool) {
	t.hi += n
	if certain {
		t.lo += n
	}
}

func (j *judge) metrics() {
	for i := range j.w.H.Metrics {
		if m := &j.w.H.Metrics[i]; m.Err == "" && m.Inc != 0 {
			j.metric(m)
		}
	}
}

func (j *judge) metric(m *Metric) {
	w := j.w
	p := w.procs[uint8(m.Inc)]
	if p == nil || p.Kind != "core" || p.Dead && p.DeadT < m.T {
		return
	}
	// What ended long before the scrape has been counted.
	before := m.T0 - (w.stalledMs(m.Inc, p.StartT, m.T)+250)*1e6
	if !m.Quiet {
		for _, im := range w.Impairs {
			if im.Class == "core" && (im.Core < 0 || im.Core == m.Core) && im.From <= m.T && im.To >= m.T0-5e9 {
				return // paused
			}
		}
	}
	t := map[string]*tally{}
	at := func(name string) *tally {
		if t[name] == nil {
			t[name] = &tally{}
		}
		return t[name]
	}
	var dur = map[string]*tally{}
	watches := &tally{}
	for _, c := range w.H.Calls {
		if c.Skipped != "" || c.StartSeq == 0 || c.Core != m.Core || c.Start > m.T || c.Ended && c.End < p.StartT {
			continue
		}
		rpc := rpcNames[c.Kind]
		if rpc == "" {
			continue
		}
		// Certainly handled by this process, and by now completely.
		sure := c.Ended && c.Start >= p.StartT && c.End <= before && (c.OK || c.Code == "InvalidArgument" && c.Via != "rest")
		rejected := w.expectedReject(c)
		if c.Kind == "create" && c.Op.Bad == "" && c.Ended && !c.OK {
			rejected = false
		}
		if c.Via == "rest" && rejected && !c.OK {
			sure = false
		}
		at("om_core_rpc_duration_milliseconds_count "+rpc).add(1, sure)
		d := dur[rpc]
		if d == nil {
			d = &tally{}
			dur[rpc] = d
		}
		if sure {
			d.hi += float64(c.End-c.Start) / 1e6
			if c.Kind == "watch" && c.Via != "rest" && len(w.Impairs) == 0 && len(w.P.Sched.Stalls) == 0 && c.Op.SlowMs == 0 {
				d.lo += max(0, float64(c.End-c.Start)/1e6-1500-float64(4*w.rttMs()))
			}
		} else {
			d.hi = 1e18
		}
		e := at("om_core_rpc_errors_total " + rpc)
		if !c.OK {
			e.add(1, sure)
		}
		n := 0.0
		switch c.Kind {
		case "activate", "deactivate":
			n = float64(len(c.Valid))
			name := map[string]string{"activate": "om_core_ticket_activation_requests", "deactivate": "om_core_ticket_deactivation_requests"}[c.Kind]
			if !rejected {
				at(name+"_count").add(1, sure)
				at(name+"_sum").add(n, sure)
			}
		case "assign":
			if !rejected && c.Op.Bad == "" {
				for _, id := range c.IDs {
					if id != "" {
						n++
					}
				}
				at("om_core_ticket_assignment_count").add(1, sure && c.OK)
				at("om_core_ticket_assignment_sum").add(n, sure && c.OK)
			} else if !rejected {
				at("om_core_ticket_assignment_count").hi = 1e18
				at("om_core_ticket_assignment_sum").hi = 1e18
			}
		case "watch":
			// A call that ended or was given up by its client is not watching any more.
			over := sure && c.OK || m.Quiet && c.Ended && c.End < before-10e9 && len(w.Impairs) == 0
			if !over {
				watches.hi += float64(len(c.IDs))
			}
			if m.Quiet && !c.Ended && c.Start < before-5e9 && len(w.Impairs) == 0 && !c.Canceled {
				watches.lo += float64(len(c.IDs) - len(c.Assigns))
			}
		case "invoke":
			at("om_core_match_received_total").add(float64(len(c.Matches)), sure)
			if c.Op.Inv != nil {
				for i := range c.Op.Inv.MMFs {
					if c.Op.Inv.MMFs[i].Sample != "" {
						at("om_core_match_received_total").hi = 1e18
					}
				}
			}
		}
	}
	mt := at("om_core_match_received_total")
	if mt.hi < 1e18 {
		mt.hi = 0
		for _, r := range w.H.Runs {
			if r.CoreInc == m.Inc || r.CoreInc <= 0 {
				mt.hi += float64(len(r.Sent))
			}
		}
	}
	slack := 0.0
	if len(w.Impairs) > 0 {
		slack = 3 // calls may be sent again transparently
	}
	for _, name := range sortedKeys(t) {
		x, v := t[name], m.Vals[name]
		w.check("C22")
		hi := x.hi
		if strings.HasPrefix(name, "om_core_rpc") {
			hi += slack
		}
		if v < x.lo || v > hi {
			key := name[:strings.IndexByte(name+" ", ' ')]
			w.violate([]string{"C22"}, "metric-"+key, "core%d reports %s = %g at %d ms; the calls it has served since its start make it at least %g and at most %g", m.Core, name, v, (m.T-w.t0)/1e6, x.lo, hi)
		}
	}
	for _, rpc := range sortedKeys(dur) {
		v := m.Vals["om_core_rpc_duration_milliseconds_sum "+rpc]
		x := dur[rpc]
		w.check("C22")
		// A call can be held up after its answer is on its way.
		if v < x.lo || v > x.hi+1+float64(w.stalledMs(m.Inc, p.StartT, m.T)) {
			w.violate([]string{"C22"}, "metric-duration", "core%d reports %g ms spent in %s; clients saw these calls take %g ms, at least %g ms of them in the service", m.Core, v, rpc, x.hi, x.lo)
		}
	}
	if !m.Quiet {
		return
	}
	w.check("C22")
	if v, ok := m.Vals["om_core_ticket_assigment_watch"]; ok && (v < watches.lo || v > watches.hi) {
		w.violate([]string{"C22"}, "metric-watches", "core%d reports %g assignments being watched; %g to %g of its calls still watch", m.Core, v, watches.lo, watches.hi)
	}
	j.gauges(m)
}

// gauges compares the sizes of the cache with the log and the last pool delivered.
func (j *judge) gauges(m *Metric) {
	w := j.w
	p := w.procs[uint8(m.Inc)]
	c := &w.P.Cfg
	tol := int64(3*c.InWait+1500)*1e6 + (w.stalledMs(m.Inc, m.T0-60e9, m.T)+w.skewTolMs())*1e6
	if m.Probe != nil && m.Probe.OK {
		for _, r := range w.H.Runs {
			if r.Call != m.Probe || !r.Complete || r.Pools["all"] == nil {
				continue
			}
			w.check("C22")
			tix := r.Pools["all"].Tickets
			lo := 0.0
			for _, t := range tix {
				if t.GetExpirationTime().AsTime().UnixNano() > m.T+tol {
					lo++
				}
			}
			v, ok := m.Vals["om_core_cache_tickets_active"]
			if !ok || v < lo || v > float64(len(tix)) {
				w.violate([]string{"C22"}, "metric-active", "core%d reports %g active tickets; the pool of all tickets it delivered just before held %d, of which %g have not expired since", m.Core, v, len(tix), lo)
			}
		}
	}
	if !j.redis || len(w.Redis.Trims) > 0 || w.hasForeign {
		return
	}
	w.check("C22")
	now := m.T
	age := func(id string) (int64, bool) {
		ms, err := strconv.ParseInt(strings.Split(id, "-")[0], 10, 64)
		return now/1e6 - ms, err == nil
	}
	var ina, asg tally
	count := func(x *tally, id string, ttl int64) {
		a, ok := age(id)
		switch {
		case !ok || a > ttl+tol/1e6:
		case a < ttl-tol/1e6:
			x.add(1, true)
		default:
			x.add(1, false)
		}
	}
	for id, chs := range j.states {
		if !chs[len(chs)-1].on {
			count(&ina, id, int64(c.TTL)*1000)
		}
	}
	seen := map[string]bool{}
	for _, e := range j.log {
		if e.Fields[0] == "assign" && !seen[e.Fields[1]] {
			seen[e.Fields[1]] = true
			count(&asg, e.Fields[1], int64(c.TTL+c.AssignTTL)*1000)
		}
	}
	_ = p
	if v := m.Vals["om_core_cache_tickets_inactive"]; v < ina.lo || v > ina.hi {
		w.violate([]string{"C22"}, "metric-inactive", "core%d reports %g inactive tickets; by the log there are %g to %g", m.Core, v, ina.lo, ina.hi)
	}
	if v := m.Vals["om_core_cache_assignments"]; v < asg.lo || v > asg.hi {
		w.violate([]string{"C22"}, "metric-assignments", "core%d reports %g assignments; by the log there are %g to %g", m.Core, v, asg.lo, asg.hi)
	}
}
