id="c13-reused-responses"; property="C13"
needs='A call whose updates are cut into several storage batches, the first of which fails'
breaks='The outcome of an update is overwritten by that of a later batch before the caller reads it: an update that was not stored is acknowledged'
edits=[('core/internal/statestore/redis/redis.go',"""	out := make([]*store.StateResponse, len(updates))
""","""	// Reuse the responses of the last batch, its results have been handed back.
	for len(rr.responses) < len(updates) {
		rr.responses = append(rr.responses, &store.StateResponse{})
	}
	out := rr.responses[:len(updates)]
"""),
('core/internal/statestore/redis/redis.go',"""		out[i] = &store.StateResponse{Result: "", Err: nil}
""","""		out[i].Result, out[i].Err = "", nil
"""),
('core/internal/statestore/redis/redis.go',"""type redisReplicator struct {
""","""type redisReplicator struct {
	responses []*store.StateResponse
""")]
demo='''package main

import (
	"strings"
	"sync/atomic"

	pb "open-match.dev/pkg/pb/v2"
	"time"
)

func main() {
	r := newRedis()
	c := startCore(r, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD=2")
	var ids []string
	for i := 0; i < 60; i++ {
		ids = append(ids, c.create(&pb.Ticket{}))
	}
	// Redis rejects the first two activations.
	var n atomic.Int32
	r.setHook(func(args []string) string {
		if strings.ToUpper(args[0]) == "XADD" && args[len(args)-2] == "activate" && n.Add(1) <= 2 {
			return "err"
		}
		return ""
	})
	_, err := c.cl.ActivateTickets(ctxT(20*time.Second), &pb.ActivateTicketsRequest{TicketIds: ids})
	if k := r.count("activate"); err == nil && k < 60 {
		fail("the activation of 60 tickets was acknowledged although %d were stored", k)
	}
	pass()
}
'''
