id="c19-graceful"; property="C19"
needs="A signal to stop while a watch or MMF invocation is in progress"
breaks="The process keeps running until the last call ends by itself"
edits=[("core/server.go","omServer.Stop()","omServer.GracefulStop()")]
demo='''package main

import (
	"syscall"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	id := c.create(&pb.Ticket{})
	_, err := c.cl.WatchAssignments(ctxT(120*time.Second), &pb.WatchAssignmentsRequest{TicketIds: []string{id}})
	must(err)
	time.Sleep(500 * time.Millisecond)
	c.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-c.gone:
	case <-time.After(15 * time.Second):
		fail("om-core still runs 15 s after SIGTERM")
	}
	pass()
}
'''
