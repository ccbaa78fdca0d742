id="c01-singleflight"; property="C01"
needs='Two clients submit equal tickets (creation and expiration time included) at the same time'
breaks='Both creations are answered with the same ticket id: one of the two tickets does not exist'
edits=[('core/main.go',"""	// Make a results return channel
	rChan := make(chan *store.StateResponse)
""","""	// A client that got no answer in time tries again: join the creation that
	// is already on its way instead of storing the ticket twice.
	mine := &creation{done: make(chan struct{})}
	if other, underway := creations.LoadOrStore(string(ticketPb), mine); underway {
		<-other.(*creation).done
		return &pb.CreateTicketResponse{TicketId: other.(*creation).res.Result}, other.(*creation).res.Err
	}
	defer creations.Delete(string(ticketPb))

	// Make a results return channel
	rChan := make(chan *store.StateResponse)
"""),
('core/main.go',"""	results := <-rChan

	return &pb.CreateTicketResponse{TicketId: results.Result}, results.Err
}
""","""	mine.res = <-rChan
	close(mine.done)

	return &pb.CreateTicketResponse{TicketId: mine.res.Result}, mine.res.Err
}

// creations holds the ticket creations that are underway, by ticket content.
var creations sync.Map

type creation struct {
	done chan struct{}
	res  *store.StateResponse
}
""")]
demo='''package main

import (
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_CACHE_OUT_WAIT_TIMEOUT_MS=400")
	now := time.Now()
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := c.create(&pb.Ticket{
				ExpirationTime: timestamppb.New(now.Add(100 * time.Second)),
				Attributes:     &pb.Ticket_FilterableData{Tags: []string{"a"}, CreationTime: timestamppb.New(now.Add(-time.Second))},
			})
			mu.Lock()
			defer mu.Unlock()
			if seen[id] {
				fail("ticket id %s was returned twice", id)
			}
			seen[id] = true
		}()
	}
	wg.Wait()
	pass()
}
'''
