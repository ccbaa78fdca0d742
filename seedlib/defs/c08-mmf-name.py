id="c08-mmf-name"; property="C08"
needs="One call with two functions of the same name on the same host, on different ports"
breaks="The second is taken for a duplicate and never invoked: its matches never reach the matchmaker although the call succeeds"
edits=[("core/main.go","""	for _, mmf := range req.GetMmfs() {
""","""	invoked := map[string]bool{}
	for _, mmf := range req.GetMmfs() {
		// No use in running a function twice with the same input.
		if key := mmf.GetHost() + "/" + mmf.GetName(); invoked[key] {
			logger.Infof("MMF %v is listed more than once", key)
			continue
		} else {
			invoked[key] = true
		}
""")]
demo='''package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	run := func(id string) func([]*pb.ChunkedMmfRunRequest, pb.MatchMakingFunctionService_RunServer) error {
		return func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
			return s.Send(matchOf(id, &pb.Ticket{Id: "1-1"}))
		}
	}
	a, b := startMMF(run("a")), startMMF(run("b"))
	ms, err := c.invoke(20*time.Second, allPool(), a.spec("1v1"), b.spec("1v1"))
	must(err)
	if len(ms) != 2 {
		fail("two functions returned a match each, the caller got %d", len(ms))
	}
	pass()
}
'''
