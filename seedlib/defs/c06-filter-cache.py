id='c06-filter-cache'; property='C06'
needs='A later call whose profile and pool have the same names but different filters'
breaks='Filter results are remembered by the names of profile and pool; a later call with other filters gets the tickets of the earlier ones'
edits=[('core/main.go', '\t\t\tif filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {\n', '\t\t\tkey := req.GetProfile().GetName() + "/" + name + "/" + ticket.(*pb.Ticket).GetId()\n\t\t\tin, known := filtered.Load(key)\n\t\t\tif !known {\n\t\t\t\tin = filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket))\n\t\t\t\tfiltered.Store(key, in)\n\t\t\t}\n\t\t\tif in.(bool) {\n'), ('core/main.go', '// CreateAssignments should be considered deprecated, and', 'var filtered sync.Map\n\n// CreateAssignments should be considered deprecated, and')]
demo='package main\n\nimport (\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\ta := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"a"}}})\n\tb := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"b"}}})\n\trepl()\n\tc.activate(a, b)\n\trepl()\n\tfor tag, want := range map[string]string{"a": a, "b": b} {\n\t\tp := &pb.Profile{Name: "ranked", Pools: map[string]*pb.Pool{"x": {Name: "x", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}}}}}\n\t\tts := tickets(c.look(p), "x")\n\t\tif len(ts) != 1 || ts[0].GetId() != want {\n\t\t\tfail("the pool of tag %q holds %v", tag, ts)\n\t\t}\n\t}\n\tpass()\n}\n'
