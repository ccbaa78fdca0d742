id="c21-shared-index"; property="C21"
helper=False
needs='Two runs of the team shooter function at the same time'
breaks='Both runs advance the same positions: tickets are skipped, used by neither, or the process ends'
pkgdir="functions/golang/teamshooter"
edits=[('functions/golang/teamshooter/teamshooter.go',"""	poolRosterIndices := make(map[string]int)
	for _,""","""	for _,"""),
('functions/golang/teamshooter/teamshooter.go',"""type MmfServer struct {""","""// poolRosterIndices: how many tickets of each type are in rosters.
var poolRosterIndices = make(map[string]int)

type MmfServer struct {""")]
demo='''package main

import (
	"fmt"
	"os"
	"time"

	"google.golang.org/grpc"
	"open-match.dev/functions/golang/teamshooter"
	pb "open-match.dev/pkg/pb/v2"
)

type stream struct {
	grpc.ServerStream
	req  *pb.ChunkedMmfRunRequest
	sent int
	each func()
}

func (s *stream) Recv() (*pb.ChunkedMmfRunRequest, error) { return s.req, nil }
func (s *stream) Send(*pb.StreamedMmfResponse) error {
	s.sent++
	s.each()
	return nil
}

func request(matches int) *pb.ChunkedMmfRunRequest {
	p := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{}}
	for name, per := range map[string]int{"tank": 2, "healer": 2, "dps": 6} {
		r := &pb.Roster{Name: name}
		for i := 0; i < per*matches; i++ {
			r.Tickets = append(r.Tickets, &pb.Ticket{Id: fmt.Sprint(name, i)})
		}
		p.Pools[name] = &pb.Pool{Name: name, Participants: r}
	}
	return &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: 1}
}

func main() {
	go func() {
		time.Sleep(60 * time.Second)
		fmt.Println("FAIL: hangs")
		os.Exit(1)
	}()
	f := &teamshooter.MmfServer{}
	other := &stream{req: request(4), each: func() {}}
	mine := &stream{req: request(4)}
	// The second run takes place while the first sends its second match.
	mine.each = func() {
		if mine.sent == 2 {
			done := make(chan bool)
			go func() { f.Run(other); close(done) }()
			<-done
		}
	}
	f.Run(mine)
	if mine.sent != 4 || other.sent != 4 {
		fmt.Println("FAIL: matches instead of 4 and 4:", mine.sent, other.sent)
		os.Exit(1)
	}
	fmt.Println("ok")
}
'''
