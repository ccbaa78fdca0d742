id="c14-assign-unbuffered"; property="C14"
needs="A CreateAssignments call whose tickets do not all fit in one storage batch (more than OM_CACHE_OUT_MAX_QUEUE_THRESHOLD, or cut by the batch timeout)"
breaks="The handler and the outgoing queue wait for each other: every update on the instance hangs for ever, without a restart"
edits=[("core/main.go","rChan := make(chan *store.StateResponse, len(req.GetAssignmentRoster().GetTickets()))","rChan := make(chan *store.StateResponse)")]
demo='''package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD=5")
	var ts []*pb.Ticket
	for i := 0; i < 12; i++ {
		ts = append(ts, &pb.Ticket{Id: fmt.Sprintf("%d-%d", time.Now().UnixMilli(), i)})
	}
	_, err := c.cl.CreateAssignments(ctxT(10*time.Second), &pb.CreateAssignmentsRequest{
		AssignmentRoster: &pb.Roster{Name: "r", Tickets: ts, Assignment: &pb.Assignment{Connection: "server"}}})
	if err != nil {
		fail("CreateAssignments with 12 tickets: %v", err)
	}
	if _, err := c.cl.CreateTicket(ctxT(10*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}); err != nil {
		fail("CreateTicket afterwards: %v", err)
	}
	pass()
}
'''
