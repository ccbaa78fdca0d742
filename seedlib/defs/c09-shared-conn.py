id="c09-shared-conn"; property="C09"
needs='Two overlapping calls that use the same MMF, one of which ends first'
breaks='The connection to the MMF is shared between calls and closed by the first that ends: the other loses the rest of its matches'
edits=[('core/main.go',"""				conn, err = grpc.Dial(mmfHost, opts...)
				if err != nil {""","""				if cached, ok := mmfConns.Load(mmfHost); ok {
					conn = cached.(*grpc.ClientConn)
				} else {
					conn, err = grpc.Dial(mmfHost, opts...)
					mmfConns.Store(mmfHost, conn)
				}
				if err != nil {"""),
('core/main.go',"""				defer conn.Close()
""","""				defer func() {
					mmfConns.Delete(mmfHost)
					conn.Close()
				}()
"""),
('core/main.go',"""// CreateAssignments should be considered""","""// mmfConns holds the open connections to MMFs, by address.
var mmfConns sync.Map

// CreateAssignments should be considered""")]
demo='''package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	m := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		if chunks[0].GetProfile().GetName() == "short" {
			return fmt.Errorf("failing function")
		}
		for i := 0; i < 5; i++ {
			if err := s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: fmt.Sprint("m", i)}}); err != nil {
				return err
			}
			time.Sleep(300 * time.Millisecond)
		}
		return nil
	})
	go func() {
		time.Sleep(500 * time.Millisecond)
		c.invoke(10*time.Second, &pb.Profile{Name: "short"}, m.spec("m"))
	}()
	ms, err := c.invoke(20*time.Second, &pb.Profile{Name: "long"}, m.spec("m"))
	if err != nil || len(ms) != 5 {
		fail("%d of 5 matches arrived: %v", len(ms), err)
	}
	pass()
}
'''
