id='c14-refused-slots'; property='C14'
needs='24 refused requests to create a ticket, over the life of the process'
breaks='Every refused request keeps one of 24 slots; once they are used up nobody can create a ticket any more'
edits=[('core/main.go', '\t// Input validation\n\tif req.GetTicket() == nil {\n\t\treturn', '\tcreateSlots <- true\n\t// Input validation\n\tif req.GetTicket() == nil {\n\t\treturn'), ('core/main.go', '\tresults := <-rChan\n\n\treturn &pb.CreateTicketResponse', '\tresults := <-rChan\n\t<-createSlots\n\n\treturn &pb.CreateTicketResponse'), ('core/main.go', '// CreateAssignments should be considered deprecated, and', 'var createSlots = make(chan bool, 24)\n\n// CreateAssignments should be considered deprecated, and')]
demo='package main\n\nimport (\n\t"context"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\tfor i := 0; i < 30; i++ {\n\t\tctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)\n\t\tc.cl.CreateTicket(ctx, &pb.CreateTicketRequest{})\n\t\tcancel()\n\t}\n\tif _, err := c.cl.CreateTicket(ctxT(15*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}); err != nil {\n\t\tfail("after 30 refused requests: %v", err)\n\t}\n\tpass()\n}\n'
