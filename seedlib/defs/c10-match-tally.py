id="c10-match-tally"; property="C10"
needs='Matches of several MMFs that are handled at the same moment'
breaks='Unsynchronised writes to a map shared by the MMFs of a call end the process'
edits=[('core/main.go',"""	var mmfwg sync.WaitGroup
""","""	var mmfwg sync.WaitGroup
	// How often each ticket was returned, to warn about colliding matches.
	returned := map[string]int{}
"""),
('core/main.go',"""						for _, roster := range res.GetRosters() {
							for _, ticket := range roster.GetTickets() {
								ticketIds""","""						for _, roster := range res.GetRosters() {
							for _, ticket := range roster.GetTickets() {
								returned[ticket.GetId()]++
								ticketIds"""),
('core/main.go',"""	mmfwg.Wait()
""","""	mmfwg.Wait()
	for id, times := range returned {
		if times > 1 {
			logger.Warnf("ticket %v was returned in %v matches", id, times)
		}
	}
""")]
demo='''package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_WAIT_TIMEOUT_MS=5")
	var specs []*pb.MatchmakingFunctionSpec
	for k := 0; k < 6; k++ {
		k := k
		specs = append(specs, startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
			for i := 0; i < 60; i++ {
				r := &pb.Roster{Name: "r"}
				for j := 0; j < 60; j++ {
					r.Tickets = append(r.Tickets, &pb.Ticket{Id: fmt.Sprintf("%d-%d", 1000+i, j)})
				}
				s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: fmt.Sprint(k, "-", i), Rosters: map[string]*pb.Roster{"r": r}}})
			}
			return nil
		}).spec(fmt.Sprint("m", k)))
	}
	for i := 0; i < 6; i++ {
		c.invoke(15*time.Second, &pb.Profile{Name: "p"}, specs...)
		if c.dead.Load() {
			fail("om-core ended: %.600s", c.tail())
		}
	}
	pass()
}
'''
