id="c17-dedupe"; property="C17"
needs="Two activations of the same ticket with a deactivation between them, all in one storage batch"
breaks="The second activation is acknowledged but never written: it is merged with the first although another update of the ticket lies between them"
edits=[("core/internal/statestore/cache/replicatedticketcache.go","""			results := tc.Replicator.SendUpdates(pipeline)
			logger.Debug(" got results")

			for index, result := range results {
				// send back this result to it's unique return channel
				pipelineRequests[index].ResultsChan <- result
			}
""","""			// Don't write the same state change more than once.
			first := make(map[store.StateUpdate]int)
			unique := make([]*store.StateUpdate, 0, len(pipeline))
			position := make([]int, len(pipeline))
			for index, update := range pipeline {
				if update.Cmd == store.Activate || update.Cmd == store.Deactivate {
					if seen, ok := first[*update]; ok {
						position[index] = seen
						continue
					}
					first[*update] = len(unique)
				}
				position[index] = len(unique)
				unique = append(unique, update)
			}
			results := tc.Replicator.SendUpdates(unique)
			logger.Debug(" got results")

			for index, request := range pipelineRequests {
				// send back this result to it's unique return channel
				request.ResultsChan <- results[position[index]]
			}
""")]
demo='''package main

import (
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_WAIT_TIMEOUT_MS=600")
	id := c.create(&pb.Ticket{})
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i == 1 {
				c.deactivate(id)
			} else {
				c.activate(id)
			}
		}()
		time.Sleep(60 * time.Millisecond)
	}
	wg.Wait()
	time.Sleep(500 * time.Millisecond)
	if c.offered()[id] == nil {
		fail("the ticket was activated last, but is not offered")
	}
	pass()
}
'''
