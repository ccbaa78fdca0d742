id="c04-match-limit"; property="C04"
needs="A match with more tickets than OM_MAX_STATE_UPDATES_PER_CALL"
breaks="Only the first tickets of the match are deactivated; the others are offered again although the match was returned"
edits=[("core/main.go","""						// Kick off deactivation
""","""						// Not more updates at once than in one call.
						if max := cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"); len(ticketIdsToDeactivate) > max {
							ticketIdsToDeactivate = ticketIdsToDeactivate[:max]
						}

						// Kick off deactivation
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_MAX_STATE_UPDATES_PER_CALL=4")
	for i := 0; i < 3; i++ {
		a, b := c.create(&pb.Ticket{}), c.create(&pb.Ticket{})
		c.activate(a, b)
	}
	repl()
	m := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		return s.Send(matchOf("m", tickets(chunks, "all")...))
	})
	ms, err := c.invoke(20*time.Second, allPool(), m.spec("m"))
	must(err)
	if len(ms) != 1 {
		fail("%d matches", len(ms))
	}
	time.Sleep(500 * time.Millisecond)
	if n := len(c.offered()); n != 0 {
		fail("%d tickets of the returned match are offered again", n)
	}
	pass()
}
'''
