id="c14-assign-buffer"; property="C14"
needs="A CreateAssignments call with more tickets than OM_MAX_STATE_UPDATES_PER_CALL, in more than one batch"
breaks="Handler and outgoing queue wait for each other: every update on the instance hangs for ever"
edits=[("core/main.go","rChan := make(chan *store.StateResponse, len(req.GetAssignmentRoster().GetTickets()))","""// No call makes more updates than this.
	rChan := make(chan *store.StateResponse, cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"))""")]
demo='''package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD=5", "OM_MAX_STATE_UPDATES_PER_CALL=10")
	var ts []*pb.Ticket
	for i := 0; i < 40; i++ {
		ts = append(ts, &pb.Ticket{Id: fmt.Sprintf("%d-%d", time.Now().UnixMilli(), i)})
	}
	_, err := c.cl.CreateAssignments(ctxT(15*time.Second), &pb.CreateAssignmentsRequest{
		AssignmentRoster: &pb.Roster{Name: "r", Tickets: ts, Assignment: &pb.Assignment{Connection: "server"}}})
	if err != nil {
		fail("CreateAssignments with 40 tickets: %v", err)
	}
	if _, err := c.cl.CreateTicket(ctxT(10*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}); err != nil {
		fail("CreateTicket afterwards: %v", err)
	}
	pass()
}
'''
