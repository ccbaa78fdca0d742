id="c11-clamp-now"; property="C11"
needs="A ticket created with a creation time in the past and a requested expiration time beyond creation time plus the time to live"
breaks="The ticket is offered longer than the documented limit"
edits=[("core/main.go","""		exTime.AsTime().After(defaultExTime) {""","""		time.Until(exTime.AsTime()) > time.Second*time.Duration(cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {""")]
demo='''package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_TICKET_TTL_SECS=10")
	// Created 6 s ago: expires in 4 s at the latest.
	id := c.create(&pb.Ticket{
		Attributes:     &pb.Ticket_FilterableData{CreationTime: timestamppb.New(time.Now().Add(-6 * time.Second))},
		ExpirationTime: timestamppb.New(time.Now().Add(9 * time.Second)),
	})
	c.activate(id)
	repl()
	if c.offered()[id] == nil {
		fail("the ticket is not offered at all")
	}
	time.Sleep(5500 * time.Millisecond)
	if c.offered()[id] != nil {
		fail("the ticket is offered after creation time plus time to live")
	}
	pass()
}
'''
