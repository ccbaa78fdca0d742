id="c02-future-creation"; property="C02"
needs="A ticket that was never activated, created with a creation time in the future, and a query after its id's time to live"
breaks="The inactive entry is removed before the ticket, so the ticket counts as active and is offered without anybody having activated it"
edits=[("core/internal/statestore/cache/replicatedticketcache.go","""					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
					_, existed := tc.Tickets.LoadAndDelete(id)
					if existed {
						numTickets++
						numTicketDeletions++
					}

""","""					// The ticket itself has expired too, and is removed from the cache below.
""")]
demo='''package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_TICKET_TTL_SECS=3")
	id := c.create(&pb.Ticket{
		Attributes: &pb.Ticket_FilterableData{CreationTime: timestamppb.New(time.Now().Add(5 * time.Second))},
	})
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		if c.offered()[id] != nil {
			fail("a ticket that was never activated is offered")
		}
		time.Sleep(50 * time.Millisecond)
	}
	pass()
}
'''
