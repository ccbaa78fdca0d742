id="c07-ticket-size-once"; property="C07"
needs="Large tickets that are in several pools of the profile"
breaks="Chunks are larger than the message limit, so the MMF gets none of the profile"
edits=[("core/main.go","""	for _, ticket := range activeTickets {
		for name, _ := range validPools {
""","""	for _, ticket := range activeTickets {
		counted := false
		for name, _ := range validPools {
"""),("core/main.go","""				curChunkSize += ticketSize
""","""				// One ticket can be in several pools.
				if !counted {
					curChunkSize += ticketSize
					counted = true
				}
""")]
demo='''package main

import (
	"fmt"
	"strings"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	var ids []string
	for i := 0; i < 30; i++ {
		ids = append(ids, c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{strings.Repeat("x", 100000)}}}))
	}
	c.activate(ids...)
	time.Sleep(time.Second)
	p := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{}}
	for i := 0; i < 3; i++ {
		n := fmt.Sprint("pool", i)
		p.Pools[n] = &pb.Pool{Name: n}
	}
	chunks := c.look(p)
	for n := range p.Pools {
		if got := len(tickets(chunks, n)); got != 30 {
			fail("%s has %d participants instead of 30", n, got)
		}
	}
	pass()
}
'''
