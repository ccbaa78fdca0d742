id='c15-merge'; property='C15'
needs='A second assignment of a ticket, without an extension or connection that the first one had'
breaks='A later assignment is merged into the earlier one instead of replacing it: watchers see parts of both'
edits=[('core/internal/statestore/cache/replicatedticketcache.go', '\t\t\t\t\tassignmentPb := &pb.Assignment{}\n\t\t\t\t\tproto.Unmarshal([]byte(curUpdate.Value), assignmentPb)\n', '\t\t\t\t\tassignmentPb := &pb.Assignment{}\n\t\t\t\t\tif old, ok := tc.Assignments.Load(curUpdate.Key); ok {\n\t\t\t\t\t\tassignmentPb = proto.Clone(old.(*pb.Assignment)).(*pb.Assignment)\n\t\t\t\t\t}\n\t\t\t\t\tproto.UnmarshalOptions{Merge: true}.Unmarshal([]byte(curUpdate.Value), assignmentPb)\n')]
demo='package main\n\nimport (\n\t"time"\n\n\t"google.golang.org/protobuf/types/known/anypb"\n\t"google.golang.org/protobuf/types/known/emptypb"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\tid := c.create(&pb.Ticket{})\n\trepl()\n\tx, _ := anypb.New(&emptypb.Empty{})\n\tfor _, a := range []*pb.Assignment{\n\t\t{Connection: "one", Extensions: map[string]*anypb.Any{"first": x}},\n\t\t{Connection: "two"},\n\t} {\n\t\t_, err := c.cl.CreateAssignments(ctxT(10*time.Second), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{\n\t\t\tAssignment: a, Tickets: []*pb.Ticket{{Id: id}}}})\n\t\tmust(err)\n\t\trepl()\n\t}\n\ts, err := c.cl.WatchAssignments(ctxT(10*time.Second), &pb.WatchAssignmentsRequest{TicketIds: []string{id}})\n\tmust(err)\n\tr, err := s.Recv()\n\tmust(err)\n\tif r.GetAssignment().GetConnection() != "two" || len(r.GetAssignment().GetExtensions()) != 0 {\n\t\tfail("watched %v", r.GetAssignment())\n\t}\n\tpass()\n}\n'
