id="c15-loadorstore"; property="C15"
needs="A ticket that is assigned a second time while its first assignment is kept"
breaks="Watchers get the old assignment, not the one most recently made"
edits=[("core/internal/statestore/cache/replicatedticketcache.go","""tc.Assignments.Store(curUpdate.Key, assignmentPb)""","""tc.Assignments.LoadOrStore(curUpdate.Key, assignmentPb)""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	id := c.create(&pb.Ticket{})
	for _, conn := range []string{"first", "second"} {
		_, err := c.cl.CreateAssignments(ctxT(10*time.Second), &pb.CreateAssignmentsRequest{
			AssignmentRoster: &pb.Roster{Tickets: []*pb.Ticket{{Id: id}}, Assignment: &pb.Assignment{Connection: conn}}})
		must(err)
		repl()
	}
	s, err := c.cl.WatchAssignments(ctxT(5*time.Second), &pb.WatchAssignmentsRequest{TicketIds: []string{id}})
	must(err)
	m, err := s.Recv()
	must(err)
	if m.GetAssignment().GetConnection() != "second" {
		fail("the ticket was assigned to second, the watcher gets %q", m.GetAssignment().GetConnection())
	}
	pass()
}
'''
