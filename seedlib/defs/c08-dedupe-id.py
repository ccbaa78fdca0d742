id="c08-dedupe-id"; property="C08"
needs='Two MMFs of a call that give different matches the same id'
breaks='Only the first of the matches reaches the matchmaker'
edits=[('core/main.go',"""	go func() {
		logger.Debug("MMF results fan-in goroutine active")
""","""	go func() {
		// Don't return a match twice if an MMF sends it again.
		sent := map[string]bool{}
		logger.Debug("MMF results fan-in goroutine active")
"""),
('core/main.go',"""				stream.Send(&pb.StreamedMmfResponse{Match: match})
""","""				if id := match.GetId(); id == "" || !sent[id] {
					sent[id] = true
					stream.Send(&pb.StreamedMmfResponse{Match: match})
				}
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	var specs []*pb.MatchmakingFunctionSpec
	for _, name := range []string{"a", "b"} {
		name := name
		specs = append(specs, startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
			return s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "match-0", Rosters: map[string]*pb.Roster{name: {Name: name}}}})
		}).spec(name))
	}
	ms, err := c.invoke(10*time.Second, &pb.Profile{Name: "p"}, specs...)
	if err != nil || len(ms) != 2 {
		fail("%d of 2 matches arrived: %v", len(ms), err)
	}
	pass()
}
'''
