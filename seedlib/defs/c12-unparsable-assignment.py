id="c12-unparsable-assignment"; property="C12"
needs="An assignment for an id whose first part is not a number"
breaks="Its entry is never removed from the instances' memory"
edits=[("core/internal/statestore/cache/replicatedticketcache.go","""				if err != nil {
					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
				}
				if (time.Now().UnixMilli() - ticketCreationTime) >
""","""				if err != nil {
					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
					return true
				}
				if (time.Now().UnixMilli() - ticketCreationTime) >
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_TICKET_TTL_SECS=1", "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS=1")
	_, err := c.cl.CreateAssignments(ctxT(10*time.Second), &pb.CreateAssignmentsRequest{
		AssignmentRoster: &pb.Roster{Tickets: []*pb.Ticket{{Id: "garbage"}}, Assignment: &pb.Assignment{Connection: "x"}}})
	must(err)
	time.Sleep(4 * time.Second)
	c.create(&pb.Ticket{})
	time.Sleep(500 * time.Millisecond)
	// Anything that is still kept is delivered to a watcher.
	s, err := c.cl.WatchAssignments(ctxT(2*time.Second), &pb.WatchAssignmentsRequest{TicketIds: []string{"garbage"}})
	must(err)
	if m, err := s.Recv(); err == nil {
		fail("the assignment is still kept: %v", m)
	}
	pass()
}
'''
