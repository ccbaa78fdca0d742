id="c18-write-timeout"; property="C18"
needs="A streaming call through the REST gateway that lasts longer than ten seconds"
breaks="The gateway cuts the response, so matches or assignments that the gRPC call delivers are lost"
edits=[("core/server.go","""		if err = http.ListenAndServe(":58081", mux); err != nil {""","""		// Don't let slow clients occupy connections for ever
		gwServer := &http.Server{Addr: ":58081", Handler: mux, ReadHeaderTimeout: 5 * time.Second, WriteTimeout: 10 * time.Second}
		if err = gwServer.ListenAndServe(); err != nil {"""),("core/server.go","""	"syscall"
""","""	"syscall"
	"time"
""")]
demo='''package main

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	startCore(newRedis())
	m := startMMF(func(chunks []*pb.ChunkedMmfRunRequest, s pb.MatchMakingFunctionService_RunServer) error {
		s.Send(matchOf("early", &pb.Ticket{Id: "1-1"}))
		time.Sleep(12 * time.Second)
		return s.Send(matchOf("late", &pb.Ticket{Id: "1-2"}))
	})
	body := fmt.Sprintf(`{"profile":{"name":"p"},"mmfs":[{"name":"m","host":"127.0.0.1","port":%d,"type":"GRPC"}]}`, m.port)
	res, err := http.Post("http://127.0.0.1:58081/v2/matches:fetch", "application/json", strings.NewReader(body))
	must(err)
	b, err := io.ReadAll(res.Body)
	if err != nil || res.StatusCode != 200 || strings.Count(string(b), `"early"`) != 1 || strings.Count(string(b), `"late"`) != 1 {
		fail("status %v, error %v, body %s", res.StatusCode, err, b)
	}
	pass()
}
'''
