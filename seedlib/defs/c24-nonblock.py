id='c24-nonblock'; property='C24'; pkgdir='matchmaker-example'; helper=False
needs='Creations that are answered while more than 256 tickets wait for the next activation'
breaks='Ids of created tickets that do not fit into the queue are dropped, so these tickets are never activated'
edits=[('matchmaker-example/main.go', '\t\t\t\t\tticketIdsToActivate <- mmfe.proxyCreateTicket(generateMockClientRequest(ctx))\n', '\t\t\t\t\ttid := mmfe.proxyCreateTicket(generateMockClientRequest(ctx))\n\t\t\t\t\t// Never hold up a player because of a full queue.\n\t\t\t\t\tselect {\n\t\t\t\t\tcase ticketIdsToActivate <- tid:\n\t\t\t\t\tdefault:\n\t\t\t\t\t\tlogger.Warnf("too many tickets to activate, leaving out %v", tid)\n\t\t\t\t\t}\n'), ('matchmaker-example/main.go', '\tticketIdsToActivate := make(chan string, 10000)\n\tvar ticketWg', '\tticketIdsToActivate := make(chan string, 256)\n\tvar ticketWg')]
demo='package main\n\nimport (\n\t"context"\n\t"fmt"\n\t"net"\n\t"os"\n\t"os/exec"\n\t"sync"\n\t"time"\n\n\t"google.golang.org/grpc"\n\t"google.golang.org/grpc/codes"\n\t"google.golang.org/grpc/status"\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\n// service stands in for om-core.\ntype service struct {\n\tpb.UnimplementedOpenMatchServiceServer\n\tmu      sync.Mutex\n\tn       int\n\tmade    map[string]bool\n\tactive  map[string]int\n\tcalls   [][]string\n\tcycle   int\n\tstream  func(cycle int, send func(*pb.Match)) error\n\twaitAct time.Duration\n\twaitNew time.Duration\n}\n\nfunc (s *service) CreateTicket(ctx context.Context, r *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {\n\ttime.Sleep(s.waitNew)\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\ts.n++\n\tid := fmt.Sprintf("17171-%d", s.n)\n\ts.made[id] = true\n\treturn &pb.CreateTicketResponse{TicketId: id}, nil\n}\n\nfunc (s *service) ActivateTickets(ctx context.Context, r *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {\n\ttime.Sleep(s.waitAct)\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\ts.calls = append(s.calls, r.GetTicketIds())\n\tfor _, id := range r.GetTicketIds() {\n\t\ts.active[id]++\n\t}\n\treturn &pb.ActivateTicketsResponse{}, nil\n}\n\nfunc (s *service) InvokeMatchmakingFunctions(r *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {\n\ts.mu.Lock()\n\tc := s.cycle\n\ts.cycle++\n\ts.mu.Unlock()\n\treturn s.stream(c, func(m *pb.Match) { st.Send(&pb.StreamedMmfResponse{Match: m}) })\n}\n\nfunc match(id string, tickets int) *pb.Match {\n\tr := &pb.Roster{Name: "team"}\n\tfor i := 0; i < tickets; i++ {\n\t\tr.Tickets = append(r.Tickets, &pb.Ticket{Id: fmt.Sprintf("%s-%d", id, i)})\n\t}\n\treturn &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"team": r}}\n}\n\n// run runs the example against s for at most d, and reports whether it ended.\nfunc run(s *service, d time.Duration, args ...string) bool {\n\ts.made, s.active = map[string]bool{}, map[string]int{}\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(2)\n\t}\n\tg := grpc.NewServer()\n\tpb.RegisterOpenMatchServiceServer(g, s)\n\tgo g.Serve(l)\n\tdefer g.Stop()\n\tcmd := exec.Command(os.Getenv("DEMO_EXAMPLE"), append([]string{"-conn", "grpc", "-omhost", l.Addr().String()}, args...)...)\n\tif err := cmd.Start(); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(2)\n\t}\n\tdone := make(chan bool)\n\tgo func() { cmd.Wait(); close(done) }()\n\tselect {\n\tcase <-done:\n\t\treturn true\n\tcase <-time.After(d):\n\t\tcmd.Process.Kill()\n\t\t<-done\n\t\treturn false\n\t}\n}\n\nvar _ = codes.Internal\nvar _ = status.Error\n\nfunc fail(f string, a ...any) {\n\tfmt.Printf("FAIL: "+f+"\\n", a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ts := &service{waitNew: 300 * time.Millisecond, stream: func(c int, send func(*pb.Match)) error { time.Sleep(9 * time.Second); return nil }}\n\trun(s, 8*time.Second, "-tix", "1000", "-dur", "2")\n\tfor id := range s.made {\n\t\tif s.active[id] != 1 {\n\t\t\tfail("of %d created tickets, %s was activated %d times", len(s.made), id, s.active[id])\n\t\t}\n\t}\n\tif len(s.made) != 2000 {\n\t\tfail("%d tickets created", len(s.made))\n\t}\n\tfmt.Println("ok")\n}\n'
