id="c13-retry"; property="C13"
needs="A connection to storage that is lost after the batch was stored but before its reply arrived"
breaks="The batch is stored twice (acknowledged updates appear more than once, under different ids)"
edits=[("core/internal/statestore/redis/redis.go","""	var err error
	rConn := rr.wConnPool.Get()
	defer rConn.Close()
""","""	var err error
	rConn := rr.wConnPool.Get()
	defer func() { rConn.Close() }()
	sent := make([][]interface{}, 0, len(updates))
"""),("core/internal/statestore/redis/redis.go","""		err = rConn.Send(redisCmd, redisArgs...)
""","""		sent = append(sent, redisArgs)
		err = rConn.Send(redisCmd, redisArgs...)
"""),("core/internal/statestore/redis/redis.go","""	r, err := rConn.Do("")
	if err != nil {
		logger.Errorf("Do error: %v", err)
	}
""","""	r, err := rConn.Do("")
	if err != nil {
		logger.Errorf("Do error: %v", err)
		if rConn.Err() != nil {
			// The connection is broken; try once more with another.
			rConn.Close()
			rConn = rr.wConnPool.Get()
			for _, redisArgs := range sent {
				rConn.Send(redisCmd, redisArgs...)
			}
			rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
			r, err = rConn.Do("")
		}
	}
""")]
demo='''package main

import (
	"strings"
	"sync/atomic"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	r := newRedis()
	c := startCore(r)
	c.create(&pb.Ticket{})
	var n atomic.Int32
	r.setHook(func(args []string) string {
		if strings.ToUpper(args[0]) == "XTRIM" && n.Add(1) == 1 {
			return "lose"
		}
		return ""
	})
	before := r.count("ticket")
	_, err := c.cl.CreateTicket(ctxT(10*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
	time.Sleep(200 * time.Millisecond)
	if got := r.count("ticket") - before; err == nil && got != 1 {
		fail("CreateTicket succeeded and stored %d tickets", got)
	}
	pass()
}
'''
