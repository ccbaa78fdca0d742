package sim

import (
	"fmt"
	"sort"

	"verif.local/dst/simredis"
)

// ---- C23: the state storage is used as configured ----

func (j *judge) storage() {
	w := j.w
	c := &w.P.Cfg
	if !j.redis {
		return
	}
	r := w.Redis
	for _, m := range r.Misuse {
		if p := w.procs[uint8(m.Inc)]; p != nil && p.Kind == "core" {
			w.violate([]string{"C23"}, "storage-misuse", "core%d at %d ms: %s", p.Idx, (m.T-w.t0)/1e6, m.What)
		}
	}
	for _, b := range r.Batches {
		w.check("C23")
		if b.N > c.OutMax {
			w.violate([]string{"C23"}, "batch-size", "%s sent %d updates in one batch at %d ms; configured are at most %d", b.From, b.N, (b.T-w.t0)/1e6, c.OutMax)
		}
	}
	// Connections, to either server.
	most := c.PoolActive
	if !c.Replica {
		most *= 2
	}
	for _, p := range w.procs {
		if p == nil || p.Kind != "core" {
			continue
		}
		for _, h := range []string{"redis", "replica"} {
			w.check("C23")
			if n := w.Net.MostOpen(p.ID, h); n > most {
				w.violate([]string{"C23"}, "pool-size", "core%d#%d had %d connections to %s open at the same time; configured are %d per pool", p.Idx, p.ID, n, h, c.PoolActive)
			}
		}
	}
	j.polls()
	j.waits()
}

// polls checks how an instance reads the log.
func (j *judge) polls() {
	w := j.w
	c := &w.P.Cfg
	last := map[int32]*simredis.Poll{}
	for _, p := range w.Redis.Polls {
		pr := w.procs[uint8(p.Inc)]
		if pr == nil || pr.Kind != "core" {
			continue
		}
		w.check("C23")
		switch {
		case p.Count > c.InMax || p.Count <= 0 && p.N >= 0:
			w.violate([]string{"C23"}, "poll-size", "core%d asked for up to %d updates at once at %d ms (0: any number); configured are %d", pr.Idx, p.Count, (p.T-w.t0)/1e6, c.InMax)
		case p.Block > int64(c.InWait) || p.Block == 0 && p.N >= 0:
			w.violate([]string{"C23"}, "poll-wait", "core%d asked to wait up to %d ms for updates at %d ms (0: for ever); configured are %d ms", pr.Idx, p.Block, (p.T-w.t0)/1e6, c.InWait)
		}
		if l := last[p.Inc]; l != nil && l.N == 0 && !w.impaired("redis core", pr.Idx, -1, l.T-5e9, p.T, true) {
			w.check("C23")
			if gap := (p.T - l.T) / 1e6; gap < int64(c.InWait)-2 {
				w.violate([]string{"C23"}, "poll-early", "core%d read the log at %d ms and found nothing new, and read again %d ms later; configured are polls of %d ms", pr.Idx, (l.T-w.t0)/1e6, gap, c.InWait)
			}
		}
		last[p.Inc] = p
	}
}

// waits checks that no update waits for its batch longer than configured.
func (j *judge) waits() {
	w := j.w
	c := &w.P.Cfg
	byKey := map[string][]*simredis.Entry{}
	byID := map[string]*simredis.Entry{}
	for _, e := range j.log {
		if e.Fields[0] == "ticket" {
			byID[e.ID] = e
		} else if len(e.Fields) > 1 {
			k := e.Fields[0] + " " + e.Fields[1]
			byKey[k] = append(byKey[k], e)
		}
	}
	ends := make([]int64, 0, len(j.log)) // append times, for counting
	for _, e := range j.log {
		ends = append(ends, e.T)
	}
	for _, u := range j.upds {
		if u.call == nil || u.run != nil || u.status != sure || u.call.Start == 0 {
			continue
		}
		from := fmt.Sprintf("core%d", u.call.Core)
		var e *simredis.Entry
		if u.cmd == "ticket" {
			e = byID[u.id]
		} else {
			es := byKey[u.cmd+" "+u.id]
			i := sort.Search(len(es), func(i int) bool { return es[i].Seq > u.startSeq })
			for i < len(es) && es[i].From != from {
				i++
			}
			if i < len(es) {
				e = es[i]
			}
		}
		if e == nil || e.From != from || e.Seq < u.startSeq {
			continue
		}
		s := u.call.Start
		if w.impaired("redis core client reject clock", u.call.Core, -1, s, e.T, true) {
			continue
		}
		// Updates that went before it, of any instance.
		n := sort.Search(len(ends), func(i int) bool { return ends[i] > e.T }) - sort.Search(len(ends), func(i int) bool { return ends[i] >= s })
		batches := int64(n/max(1, c.OutMax) + 3)
		bound := int64(c.OutWait) + batches*w.rttMs() + 8*w.rttMs() + 100 + w.stalledMs(u.call.Inc, s-1e9, e.T)
		for _, p := range w.cores[u.call.Core].all {
			bound += w.stalledMs(p.ID, s-1e9, e.T)
		}
		bound += w.xferMs(w.bytesTotal())
		w.check("C23")
		if d := (e.T - s) / 1e6; d > bound {
			w.violate([]string{"C23"}, "batch-wait", "op%d (%s %s) was called at %d ms and its update reached the log %d ms later; updates wait at most %d ms for their batch (bound %d ms)", u.call.Op.ID, u.cmd, u.id, (s-w.t0)/1e6, d, c.OutWait, bound)
		}
	}
}
