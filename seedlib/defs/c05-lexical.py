id="c05-lexical"; property="C05"
needs='More than ten updates stored within a millisecond'
breaks='Updates with a two-digit sequence number are taken for old ones and skipped when an update with a one-digit number was read before'
edits=[('core/internal/statestore/redis/redis.go',"""				thisUpdate := &store.StateUpdate{}
				//fmt.Println(replId)
""","""				// Redis can hand out an update again when a connection is
				// replaced in the middle of a read.
				if replId <= rr.replId {
					continue
				}
				thisUpdate := &store.StateUpdate{}
""")]
demo='''package main

import (
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	r := newRedis()
	c := startCore(r, "OM_CACHE_OUT_WAIT_TIMEOUT_MS=300")
	// All updates of a batch arrive within a millisecond.
	at := time.Now()
	r.mu.Lock()
	r.now = func() time.Time { return at }
	r.mu.Unlock()
	ids := make([]string, 14)
	var wg sync.WaitGroup
	for i := range ids {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids[i] = c.create(&pb.Ticket{})
		}()
	}
	wg.Wait()
	c.activate(ids...)
	time.Sleep(time.Second)
	p := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}
	if n := len(tickets(c.look(p), "all")); n != 14 {
		fail("the pool has %d tickets instead of 14", n)
	}
	pass()
}
'''
