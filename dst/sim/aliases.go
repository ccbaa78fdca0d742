// Package sim runs one simulated execution of an Open Match deployment: several
// om-core processes, MMF servers, clients and a storage server, on a simulated
// network and clock, following a plan, and judges the recorded history.
package sim

import "verif.local/dst/plan"

type (
	Plan       = plan.Plan
	Cfg        = plan.Cfg
	Preload    = plan.Preload
	Sched      = plan.Sched
	Stall      = plan.Stall
	Spec       = plan.Spec
	Op         = plan.Op
	Sample     = plan.Sample
	Invoke     = plan.Invoke
	Pool       = plan.Pool
	DblFilter  = plan.DblFilter
	TimeFilter = plan.TimeFilter
	MMFCall    = plan.MMFCall
	MatchSpec  = plan.MatchSpec
	Fault      = plan.Fault
	Final      = plan.Final
	Example    = plan.Example
	ExRound    = plan.ExRound
)
