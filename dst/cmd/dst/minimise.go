package main

import (
	"encoding/json"
	"runtime"
	"sync"
	"time"

	"verif.local/dst/plan"
)

func clone(p *plan.Plan) *plan.Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &plan.Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// minimise shrinks the plan of a violation while it shows the same class of
// violation of the same property, then records the final execution.
func minimise(rp *Replay, budget time.Duration) {
	deadline := time.Now().Add(budget)
	late := func() bool { return time.Now().After(deadline) }
	cur := rp.Plan
	// try evaluates candidates at the same time and takes the first (in order)
	// that still fails.
	try := func(cands []*plan.Plan) bool {
		for len(cands) > 0 && !late() {
			n := min(len(cands), runtime.NumCPU())
			res := make([]bool, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := simulate(cands[i])
					res[i] = r.crash == "" && r.has(rp.Property, rp.Violation.Key) != nil
				}()
			}
			wg.Wait()
			for i := 0; i < n; i++ {
				if res[i] {
					cur = cands[i]
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	edit := func(f func(p *plan.Plan) bool) *plan.Plan {
		q := clone(cur)
		if !f(q) {
			return nil
		}
		return q
	}
	// drop removes elements from a list, big pieces first.
	drop := func(length func(p *plan.Plan) int, cut func(p *plan.Plan, lo, hi int)) {
		for size := (length(cur) + 1) / 2; size >= 1 && !late(); {
			n := length(cur)
			var cands []*plan.Plan
			for lo := 0; lo < n; lo += size {
				cands = append(cands, edit(func(p *plan.Plan) bool { cut(p, lo, min(n, lo+size)); return true }))
			}
			if len(cands) == 0 {
				return
			}
			if !try(cands) {
				size /= 2
			} else if size > length(cur) {
				size = max(1, length(cur))
			}
		}
	}
	one := func(fs ...func(p *plan.Plan) bool) {
		for _, f := range fs {
			if late() {
				return
			}
			if q := edit(f); q != nil {
				try([]*plan.Plan{q})
			}
		}
	}
	for round := 0; round < 3 && !late(); round++ {
		before := sizeOf(cur)
		drop(func(p *plan.Plan) int { return len(p.Faults) }, func(p *plan.Plan, lo, hi int) { p.Faults = append(p.Faults[:lo], p.Faults[hi:]...) })
		drop(func(p *plan.Plan) int { return len(p.Ops) }, func(p *plan.Plan, lo, hi int) { p.Ops = append(p.Ops[:lo], p.Ops[hi:]...) })
		drop(func(p *plan.Plan) int { return len(p.Sched.Stalls) }, func(p *plan.Plan, lo, hi int) {
			p.Sched.Stalls = append(p.Sched.Stalls[:lo], p.Sched.Stalls[hi:]...)
		})
		one(
			func(p *plan.Plan) bool { d := p.Sched.Yield > 0; p.Sched.Yield = 0; return d },
			func(p *plan.Plan) bool { d := p.Final.Expire; p.Final.Expire = false; return d },
			func(p *plan.Plan) bool { d := p.Final.Join; p.Final.Join = false; return d },
			func(p *plan.Plan) bool { d := p.Final.Metrics; p.Final.Metrics = false; return d },
			func(p *plan.Plan) bool { d := p.Final.Live; p.Final.Live = false; return d },
			func(p *plan.Plan) bool { d := p.Final.Stop; p.Final.Stop = false; return d },
			func(p *plan.Plan) bool { d := p.Cfg.Preload != nil; p.Cfg.Preload = nil; return d },
			func(p *plan.Plan) bool { d := p.Cfg.Replica; p.Cfg.Replica, p.Cfg.ReplicaLag = false, 0; return d },
			func(p *plan.Plan) bool { d := len(p.Cfg.SkewMs) > 0; p.Cfg.SkewMs = nil; return d },
			func(p *plan.Plan) bool { d := p.Cfg.RedisSkewMs != 0; p.Cfg.RedisSkewMs = 0; return d },
			func(p *plan.Plan) bool { d := p.Cfg.JitterUS != 0; p.Cfg.JitterUS = 0; return d },
			func(p *plan.Plan) bool { d := p.Cfg.Frag; p.Cfg.Frag = false; return d },
			func(p *plan.Plan) bool { d := p.Cfg.NoReuse; p.Cfg.NoReuse = false; return d },
			func(p *plan.Plan) bool {
				m := 0
				for _, o := range p.Ops {
					m = max(m, o.Node)
				}
				for _, f := range p.Faults {
					m = max(m, f.Node)
				}
				d := p.Cfg.Cores > m+1
				p.Cfg.Cores = m + 1
				return d
			},
			func(p *plan.Plan) bool {
				var end int64
				for _, o := range p.Ops {
					end = max(end, o.AtMs+500)
				}
				for _, f := range p.Faults {
					end = max(end, f.AtMs+f.DurMs+500)
				}
				d := end < p.WorkMs
				p.WorkMs = end
				return d
			},
			func(p *plan.Plan) bool {
				d := false
				for i := range p.Tickets {
					d = d || p.Tickets[i].Pad > 0
					p.Tickets[i].Pad = 0
				}
				return d
			},
		)
		if cur.Example != nil {
			drop(func(p *plan.Plan) int { return len(p.Example.Rounds) }, func(p *plan.Plan, lo, hi int) {
				p.Example.Rounds = append(p.Example.Rounds[:lo], p.Example.Rounds[hi:]...)
			})
			ex := func(f func(e *plan.Example) bool) func(p *plan.Plan) bool {
				return func(p *plan.Plan) bool { return f(p.Example) }
			}
			one(
				ex(func(e *plan.Example) bool { d := !e.NoSim; e.NoSim, e.Tix = true, 0; return d }),
				ex(func(e *plan.Example) bool { d := e.Tix > 1; e.Tix = 1; return d }),
				ex(func(e *plan.Example) bool { d := e.Dur != 1; e.Dur = 1; return d }),
				ex(func(e *plan.Example) bool { d := e.CreateErr > 0; e.CreateErr = 0; return d }),
				ex(func(e *plan.Example) bool { d := e.CreateMs > 0; e.CreateMs = 0; return d }),
				ex(func(e *plan.Example) bool { d := e.ActMs > 0; e.ActMs = 0; return d }),
				ex(func(e *plan.Example) bool { d := e.IgnoreEmpty; e.IgnoreEmpty = false; return d }),
				ex(func(e *plan.Example) bool { d := e.Cycles != len(e.Rounds)+1; e.Cycles = len(e.Rounds) + 1; return d }),
			)
			for i := range cur.Example.Rounds {
				round := func(f func(r *plan.ExRound) bool) func(p *plan.Plan) bool {
					return func(p *plan.Plan) bool { return f(&p.Example.Rounds[i]) }
				}
				one(
					round(func(r *plan.ExRound) bool { d := r.DelayMs > 0 || r.GapMs > 0; r.DelayMs, r.GapMs = 0, 0; return d }),
					round(func(r *plan.ExRound) bool { d := r.Err; r.Err = false; return d }),
					round(func(r *plan.ExRound) bool { d := r.Rosters > 1; r.Rosters = 1; return d }),
					round(func(r *plan.ExRound) bool { d := r.Size > 1; r.Size = 1; return d }),
					round(func(r *plan.ExRound) bool { d := r.Matches > 1; r.Matches /= 2; return d }),
				)
			}
		}
		// Within the operations.
		for i := 0; i < len(cur.Ops) && !late(); i++ {
			if cur.Ops[i].Inv != nil {
				at := i
				inv := func(p *plan.Plan) *plan.Invoke { return p.Ops[at].Inv }
				drop(func(p *plan.Plan) int { return len(inv(p).MMFs) }, func(p *plan.Plan, lo, hi int) {
					inv(p).MMFs = append(inv(p).MMFs[:lo], inv(p).MMFs[hi:]...)
				})
				drop(func(p *plan.Plan) int { return len(inv(p).Pools) }, func(p *plan.Plan, lo, hi int) {
					inv(p).Pools = append(inv(p).Pools[:lo], inv(p).Pools[hi:]...)
				})
				for k := range inv(cur).MMFs {
					drop(func(p *plan.Plan) int { return len(inv(p).MMFs[k].Matches) }, func(p *plan.Plan, lo, hi int) {
						inv(p).MMFs[k].Matches = append(inv(p).MMFs[k].Matches[:lo], inv(p).MMFs[k].Matches[hi:]...)
					})
				}
			}
			if len(cur.Ops[i].T) > 1 {
				at := i
				drop(func(p *plan.Plan) int { return len(p.Ops[at].T) }, func(p *plan.Plan, lo, hi int) {
					p.Ops[at].T = append(p.Ops[at].T[:lo], p.Ops[at].T[hi:]...)
				})
			}
		}
		if sizeOf(cur) == before {
			break
		}
	}
	cur = clone(cur)
	cur.Note = "minimised"
	r := simulate(cur, "-trace")
	if v := r.has(rp.Property, rp.Violation.Key); v != nil {
		rp.Plan, rp.Violation, rp.Hash, rp.Sched, rp.Trace = cur, *v, r.Hash, r.Sched, r.Trace
	} else {
		r = simulate(rp.Plan, "-trace")
		rp.Hash, rp.Sched, rp.Trace = r.Hash, r.Sched, r.Trace
	}
	if len(rp.Trace) > 4000 {
		rp.Trace = rp.Trace[len(rp.Trace)-4000:]
	}
	rp.Minimised = sizeOf(rp.Plan)
}
