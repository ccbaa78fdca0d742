id='c24-outer'; property='C24'; pkgdir='matchmaker-example'; helper=False
needs='Two cycles with matches in a row, the first of which has a rejected match'
breaks='Rejected matches are remembered over cycles: their tickets are re-activated again at the end of each later cycle, although they may be in accepted matches by then'
edits=[('matchmaker-example/main.go', '\t\trejectedMatches := []*pb.Match{}\n', ''), ('matchmaker-example/main.go', '\temptyCycles := 0\n', '\temptyCycles := 0\n\trejectedMatches := []*pb.Match{}\n')]
demo='package main\n\nimport (\n\t"context"\n\t"fmt"\n\t"net"\n\t"os"\n\t"os/exec"\n\t"sync"\n\t"time"\n\n\t"google.golang.org/grpc"\n\t"google.golang.org/grpc/codes"\n\t"google.golang.org/grpc/status"\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\n// service stands in for om-core.\ntype service struct {\n\tpb.UnimplementedOpenMatchServiceServer\n\tmu      sync.Mutex\n\tn       int\n\tmade    map[string]bool\n\tactive  map[string]int\n\tcalls   [][]string\n\tcycle   int\n\tstream  func(cycle int, send func(*pb.Match)) error\n\twaitAct time.Duration\n\twaitNew time.Duration\n}\n\nfunc (s *service) CreateTicket(ctx context.Context, r *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {\n\ttime.Sleep(s.waitNew)\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\ts.n++\n\tid := fmt.Sprintf("17171-%d", s.n)\n\ts.made[id] = true\n\treturn &pb.CreateTicketResponse{TicketId: id}, nil\n}\n\nfunc (s *service) ActivateTickets(ctx context.Context, r *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {\n\ttime.Sleep(s.waitAct)\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\ts.calls = append(s.calls, r.GetTicketIds())\n\tfor _, id := range r.GetTicketIds() {\n\t\ts.active[id]++\n\t}\n\treturn &pb.ActivateTicketsResponse{}, nil\n}\n\nfunc (s *service) InvokeMatchmakingFunctions(r *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {\n\ts.mu.Lock()\n\tc := s.cycle\n\ts.cycle++\n\ts.mu.Unlock()\n\treturn s.stream(c, func(m *pb.Match) { st.Send(&pb.StreamedMmfResponse{Match: m}) })\n}\n\nfunc match(id string, tickets int) *pb.Match {\n\tr := &pb.Roster{Name: "team"}\n\tfor i := 0; i < tickets; i++ {\n\t\tr.Tickets = append(r.Tickets, &pb.Ticket{Id: fmt.Sprintf("%s-%d", id, i)})\n\t}\n\treturn &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"team": r}}\n}\n\n// run runs the example against s for at most d, and reports whether it ended.\nfunc run(s *service, d time.Duration, args ...string) bool {\n\ts.made, s.active = map[string]bool{}, map[string]int{}\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(2)\n\t}\n\tg := grpc.NewServer()\n\tpb.RegisterOpenMatchServiceServer(g, s)\n\tgo g.Serve(l)\n\tdefer g.Stop()\n\tcmd := exec.Command(os.Getenv("DEMO_EXAMPLE"), append([]string{"-conn", "grpc", "-omhost", l.Addr().String()}, args...)...)\n\tif err := cmd.Start(); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(2)\n\t}\n\tdone := make(chan bool)\n\tgo func() { cmd.Wait(); close(done) }()\n\tselect {\n\tcase <-done:\n\t\treturn true\n\tcase <-time.After(d):\n\t\tcmd.Process.Kill()\n\t\t<-done\n\t\treturn false\n\t}\n}\n\nvar _ = codes.Internal\nvar _ = status.Error\n\nfunc fail(f string, a ...any) {\n\tfmt.Printf("FAIL: "+f+"\\n", a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\ts := &service{}\n\ts.stream = func(c int, send func(*pb.Match)) error {\n\t\tfor i := 0; i < 1000; i++ {\n\t\t\tsend(match(fmt.Sprintf("m%d-%d", c, i), 2))\n\t\t}\n\t\treturn nil\n\t}\n\tif !run(s, 60*time.Second, "-sim=false", "-cycles", "3") {\n\t\tfail("the example did not end")\n\t}\n\tfor id, n := range s.active {\n\t\tif n > 1 {\n\t\t\tfail("%s was re-activated %d times", id, n)\n\t\t}\n\t}\n\tfmt.Println("ok")\n}\n'
