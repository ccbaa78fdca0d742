id="c08-buffered-matches"; property="C08"
needs="The end-of-call signal being picked by the fan-in goroutine while matches are still in the channel's buffer"
breaks="The last matches of a call are dropped: the MMF returned them and their tickets are deactivated, but the matchmaker never receives them"
edits=[("core/main.go","matchChan := make(chan *pb.Match)","matchChan := make(chan *pb.Match, len(req.GetMmfs()))")]
demo='''package main

import (
	"fmt"
	"io"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis(), "OM_MATCH_TICKET_DEACTIVATION_WAIT=true")
	m := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		for i := 0; i < 3; i++ {
			r := matchOf(fmt.Sprint("m", i), &pb.Ticket{Id: "1-1"})
			r.Match.Extensions = map[string]*anypb.Any{"x": {TypeUrl: "x", Value: make([]byte, 200000)}}
			s.Send(r)
		}
		return nil
	})
	for r := 0; r < 12; r++ {
		// A caller that is not always quick to receive.
		s, err := c.cl.InvokeMatchmakingFunctions(ctxT(20*time.Second), &pb.MmfRequest{Profile: allPool(),
			Mmfs: []*pb.MatchmakingFunctionSpec{m.spec("a"), m.spec("b")}})
		must(err)
		time.Sleep(500 * time.Millisecond)
		n := 0
		for {
			_, err := s.Recv()
			if err == io.EOF {
				break
			}
			must(err)
			n++
		}
		if n != 6 {
			fail("round %d: the MMFs returned 6 matches, the caller got %d", r, n)
		}
	}
	pass()
}
'''
