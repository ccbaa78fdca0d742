id="c03-already-active"; property="C03"
needs='An activation that reaches an instance which has not yet seen the deactivation before it'
breaks='The activation is acknowledged but never stored, the ticket stays inactive everywhere'
edits=[('core/main.go',"""	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
""","""	// Tickets that are active already need no replication.
	toActivate := make([]string, 0, len(validTicketIds))
	for _, id := range validTicketIds {
		_, known := tc.Tickets.Load(id)
		_, inactive := tc.InactiveSet.Load(id)
		if known && !inactive {
			continue
		}
		toActivate = append(toActivate, id)
	}
	errs := updateTicketsActiveState(parentCtx, toActivate, store.Activate)
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_IN_WAIT_TIMEOUT_MS=700")
	id := c.create(&pb.Ticket{})
	c.activate(id)
	time.Sleep(2 * time.Second)
	c.deactivate(id)
	c.activate(id)
	time.Sleep(2 * time.Second)
	p := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}
	if n := len(tickets(c.look(p), "all")); n != 1 {
		fail("the pool has %d tickets instead of 1", n)
	}
	pass()
}
'''
