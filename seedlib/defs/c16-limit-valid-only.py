id="c16-limit-valid-only"; property="C16"
needs="A request with more ids than the limit, of which enough are not ticket ids"
breaks="The oversized request is applied instead of being refused"
edits=[("core/main.go","""	// Validate input against state storage event id format
	validTicketIds, invalidTicketIds := validateTicketIds(req.GetTicketIds())

	// Send the ticket activation""","""	// Send the ticket activation"""),
("core/main.go","""	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket activations""","""	// Validate input against state storage event id format
	validTicketIds, invalidTicketIds := validateTicketIds(req.GetTicketIds())
	if len(validTicketIds) > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket activations""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	r := newRedis()
	c := startCore(r, "OM_MAX_STATE_UPDATES_PER_CALL=3")
	id := c.create(&pb.Ticket{})
	_, err := c.cl.ActivateTickets(ctxT(10*time.Second), &pb.ActivateTicketsRequest{TicketIds: []string{id, "a", "b", "c"}})
	if err == nil {
		fail("a request with 4 ids was accepted with a limit of 3")
	}
	repl()
	if n := r.count("activate"); n != 0 {
		fail("a refused request stored %d updates", n)
	}
	pass()
}
'''
