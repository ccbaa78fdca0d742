id="c09-shared-cancel"; property="C09"
needs="A call with several MMFs of which one fails while another is still streaming matches"
breaks="The failure of one MMF cancels the others, whose remaining matches are lost"
edits=[("core/main.go","""	// Invoke each requested MMF, and put the matches they stream back into the match channel.
""","""	// All MMFs of this call share one deadline.
	mmfCtx, mmfCancel := context.WithTimeout(context.Background(), mmfTimeout)
	defer mmfCancel()

	// Invoke each requested MMF, and put the matches they stream back into the match channel.
"""),("core/main.go","""				ctx, cancel := context.WithTimeout(context.Background(), mmfTimeout)
				defer cancel()
""","""				ctx := mmfCtx
				defer func() {
					if err != nil && !errors.Is(err, io.EOF) {
						// No point in going on, part of the results is missing.
						mmfCancel()
					}
				}()
""")]
demo='''package main

import (
	"errors"
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	good := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		for i := 0; i < 5; i++ {
			if err := s.Send(matchOf(fmt.Sprint("m", i), &pb.Ticket{Id: "1-1"})); err != nil {
				return err
			}
			time.Sleep(200 * time.Millisecond)
		}
		return nil
	})
	bad := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		time.Sleep(300 * time.Millisecond)
		return errors.New("broken")
	})
	ms, err := c.invoke(20*time.Second, allPool(), good.spec("good"), bad.spec("bad"))
	must(err)
	if len(ms) != 5 {
		fail("the healthy MMF returned 5 matches, the caller got %d", len(ms))
	}
	pass()
}
'''
