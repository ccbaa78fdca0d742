id="c10-cancelled-wait"; property="C10"
needs="A client that abandons an activation after its updates were queued but before the storage batch's results are handed back"
breaks="The results are sent on a closed channel: the om-core process panics"
edits=[("core/main.go","""		results := <-rChan

		if results.Err != nil {
			// Wrap redis error and give it a gRPC internal server error status code
			// The results.result field contains the ticket id that generated the error.
""","""		var results *store.StateResponse
		select {
		case results = <-rChan:
		case <-parentCtx.Done():
			// The caller is gone, nobody is interested in the outcome
			return errs
		}

		if results.Err != nil {
			// Wrap redis error and give it a gRPC internal server error status code
			// The results.result field contains the ticket id that generated the error.
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_WAIT_TIMEOUT_MS=300")
	for i := 0; i < 5; i++ {
		c.cl.ActivateTickets(ctxT(time.Duration(50+i*40)*time.Millisecond), &pb.ActivateTicketsRequest{TicketIds: []string{"1-1", "1-2"}})
		time.Sleep(400 * time.Millisecond)
		if c.dead.Load() {
			fail("om-core ended: %s", c.tail())
		}
	}
	pass()
}
'''
