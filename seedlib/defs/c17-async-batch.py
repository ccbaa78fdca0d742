id="c17-async-batch"; property="C17"
needs="Requests of different callers arriving while an earlier batch is being written to slow storage"
breaks="The slices of a batch in flight are reused for the next one: callers get the outcome (ticket id, error) of other callers' updates"
edits=[("core/internal/statestore/cache/replicatedticketcache.go","""			results := tc.Replicator.SendUpdates(pipeline)
			logger.Debug(" got results")

			for index, result := range results {
				// send back this result to it's unique return channel
				pipelineRequests[index].ResultsChan <- result
			}
""","""			// Collect the next batch while storage processes this one.
			if sent != nil {
				<-sent
			}
			sent = make(chan struct{})
			go func(requests []*UpdateRequest, batch []*store.StateUpdate, sent chan struct{}) {
				defer close(sent)
				results := tc.Replicator.SendUpdates(batch)
				logger.Debug(" got results")

				for index, result := range results {
					// send back this result to it's unique return channel
					requests[index].ResultsChan <- result
				}
			}(pipelineRequests, pipeline, sent)
"""),("core/internal/statestore/cache/replicatedticketcache.go","""	pipeline := make([]*store.StateUpdate, 0)

	for {""","""	pipeline := make([]*store.StateUpdate, 0)
	var sent chan struct{}

	for {""")]
demo='''package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	r := newRedis()
	c := startCore(r)
	r.setHook(func(args []string) string {
		if strings.ToUpper(args[0]) == "XTRIM" {
			time.Sleep(100 * time.Millisecond)
		}
		return ""
	})
	var mu sync.Mutex
	var wg sync.WaitGroup
	ids := map[string]string{}
	for i := 0; i < 30; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name := fmt.Sprint("t", i)
			res, err := c.cl.CreateTicket(ctxT(8*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{
				Attributes: &pb.Ticket_FilterableData{Tags: []string{name}}}})
			if err != nil {
				fail("CreateTicket: %v", err)
			}
			mu.Lock()
			defer mu.Unlock()
			if other, dup := ids[res.GetTicketId()]; dup {
				fail("%s and %s got the same ticket id", other, name)
			}
			ids[res.GetTicketId()] = name
		}()
		time.Sleep(17 * time.Millisecond)
	}
	wg.Wait()
	var all []string
	for id := range ids {
		all = append(all, id)
	}
	c.activate(all...)
	time.Sleep(time.Second)
	for id, t := range c.offered() {
		if ids[id] != t.GetAttributes().GetTags()[0] {
			fail("ticket %s is %s, but %s got its id", id, t.GetAttributes().GetTags()[0], ids[id])
		}
	}
	pass()
}
'''
