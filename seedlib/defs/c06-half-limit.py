id='c06-half-limit'; property='C06'
needs='A ticket of more than about 2 MB'
breaks='Tickets of more than half a chunk are silently left out of every pool'
edits=[('core/main.go', "\t\t\tif filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {\n\t\t\t\tticketSize := proto.Size(ticket.(*pb.Ticket))\n", "\t\t\tticketSize := proto.Size(ticket.(*pb.Ticket))\n\t\t\t// No chunk could hold it together with another ticket.\n\t\t\tif ticketSize < (maxPbSize-emptyChunkSize)/2 && filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {\n")]
demo='package main\n\nimport (\n\t"strings"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\tsmall := c.create(&pb.Ticket{})\n\tlarge := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{strings.Repeat("x", 2500000)}}})\n\trepl()\n\tc.activate(small, large)\n\trepl()\n\to := c.offered()\n\tif o[small] == nil || o[large] == nil {\n\t\tfail("offered: small %v large %v", o[small] != nil, o[large] != nil)\n\t}\n\tpass()\n}\n'
