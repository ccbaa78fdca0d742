id="c14-leak"; property="C14"
needs='More failed storage batches than there are connections in the pool'
breaks='Connections on which a batch failed are never given back: once the pool is used up every update hangs for good'
edits=[('core/internal/statestore/redis/redis.go',"""	rConn := rr.wConnPool.Get()
	defer rConn.Close()
	const""","""	rConn := rr.wConnPool.Get()
	const"""),
('core/internal/statestore/redis/redis.go',"""	// Last command we sent was the XTRIM above,""","""	// Only connections in good order go back to the pool.
	if err == nil {
		defer rConn.Close()
	}

	// Last command we sent was the XTRIM above,""")]
demo='''package main

import (
	"strings"
	"sync/atomic"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	r := newRedis()
	c := startCore(r, "OM_REDIS_POOL_MAX_ACTIVE=3")
	c.create(&pb.Ticket{})
	var broken atomic.Bool
	broken.Store(true)
	r.setHook(func(args []string) string {
		if strings.ToUpper(args[0]) == "XADD" && broken.Load() {
			return "drop"
		}
		return ""
	})
	for i := 0; i < 6; i++ {
		c.cl.CreateTicket(ctxT(2*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
	}
	broken.Store(false)
	time.Sleep(time.Second)
	var err error
	for i := 0; i < 4; i++ {
		if _, err = c.cl.CreateTicket(ctxT(5*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}); err == nil {
			pass()
		}
	}
	fail("creating tickets still fails: %v", err)
}
'''
