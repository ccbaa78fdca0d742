id='c03-whole-blocks'; property='C03'
needs='An activation of more than 32 tickets in one call'
breaks='Activations are handled in blocks of 16; with more than two blocks the incomplete last one is dropped: those tickets never become active although the call succeeded'
edits=[('core/main.go', '\tnumUpdates := 0\n\tfor _, id := range ticketIds {\n\t\tlogger', '\tnumUpdates := 0\n\tconst block = 16\n\tif len(ticketIds) > 2*block && len(ticketIds)%block != 0 {\n\t\tticketIds = ticketIds[:len(ticketIds)/block*block]\n\t}\n\tfor _, id := range ticketIds {\n\t\tlogger')]
demo='package main\n\nimport (\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\tvar ids []string\n\tfor i := 0; i < 41; i++ {\n\t\tids = append(ids, c.create(&pb.Ticket{}))\n\t}\n\trepl()\n\tc.activate(ids...)\n\ttime.Sleep(500 * time.Millisecond)\n\tif n := len(c.offered()); n != 41 {\n\t\tfail("%d of 41 activated tickets are offered", n)\n\t}\n\tpass()\n}\n'
