id='c01-pooled-result'; property='C01'
needs='A client that gives up on creating a ticket between the write to redis and its answer, and another creation afterwards'
breaks='The abandoned result stays in a recycled channel: a later creation is answered with the id of another ticket'
edits=[('core/main.go', '\t// Make a results return channel\n\trChan := make(chan *store.StateResponse)\n', '\t// Make a results return channel\n\trChan := resultChans.Get().(chan *store.StateResponse)\n\tdefer resultChans.Put(rChan)\n'), ('core/main.go', '\tresults := <-rChan\n\n\treturn &pb.CreateTicketResponse{TicketId: results.Result}, results.Err\n}', '\tselect {\n\tcase results := <-rChan:\n\t\treturn &pb.CreateTicketResponse{TicketId: results.Result}, results.Err\n\tcase <-parentCtx.Done():\n\t\treturn nil, status.FromContextError(parentCtx.Err()).Err()\n\t}\n}\n\nvar resultChans = sync.Pool{New: func() any { return make(chan *store.StateResponse, 1) }}')]
demo='package main\n\nimport (\n\t"context"\n\t"strings"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tr := newRedis()\n\tc := startCore(r)\n\tfor i := 0; i < 12; i++ {\n\t\tr.setHook(func(args []string) string {\n\t\t\tif strings.ToUpper(args[0]) == "XADD" {\n\t\t\t\ttime.Sleep(150 * time.Millisecond)\n\t\t\t}\n\t\t\treturn ""\n\t\t})\n\t\tctx, cancel := context.WithTimeout(context.Background(), 80*time.Millisecond)\n\t\tc.cl.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})\n\t\tcancel()\n\t\tr.setHook(nil)\n\t\ttime.Sleep(250 * time.Millisecond)\n\t\tid := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"mine"}}})\n\t\trepl()\n\t\tc.activate(id)\n\t\trepl()\n\t\tif t := c.offered()[id]; t == nil || len(t.GetAttributes().GetTags()) != 1 {\n\t\t\tfail("ticket %v, which was created with a tag, is %v", id, t)\n\t\t}\n\t}\n\tpass()\n}\n'
