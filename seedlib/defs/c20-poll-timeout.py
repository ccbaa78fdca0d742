id="c20-poll-timeout"; property="C20"
needs="Memory mode under a steady load whose updates are closer together than the poll timeout"
breaks="Reading updates never times out while the load lasts, so no update is applied and activated tickets are not offered"
edits=[("core/internal/statestore/memory/main.go","""	// Timeout
	timeout := time.After(time.Millisecond * time.Duration(rc.cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")))

""",""),("core/internal/statestore/memory/main.go","""		case <-timeout:
""","""		case <-time.After(time.Millisecond * time.Duration(rc.cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS"))):
			// No more updates
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(nil, "OM_CACHE_IN_WAIT_TIMEOUT_MS=200")
	id := c.create(&pb.Ticket{})
	c.activate(id)
	go func() {
		for {
			c.cl.ActivateTickets(ctxT(10*time.Second), &pb.ActivateTicketsRequest{TicketIds: []string{"1-1"}})
			time.Sleep(20 * time.Millisecond)
		}
	}()
	time.Sleep(4 * time.Second)
	if c.offered()[id] == nil {
		fail("a ticket activated 4 s ago is not offered")
	}
	pass()
}
'''
