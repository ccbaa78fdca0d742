id="c06-pool-name"; property="C06"
needs="A profile in which a pool's key differs from its name field"
breaks="Participants are stored under the name field, so the pool is delivered without them"
edits=[("core/main.go","""chunkedPools[chunkCount][name] = append(chunkedPools[chunkCount][name], ticket.(*pb.Ticket))""","""poolName := req.GetProfile().GetPools()[name].GetName()
				if poolName == "" {
					poolName = name
				}
				chunkedPools[chunkCount][poolName] = append(chunkedPools[chunkCount][poolName], ticket.(*pb.Ticket))"""),
("core/main.go","""		for name, pool := range req.GetProfile().GetPools() {
			profile.GetPools()[name] = &pb.Pool{""","""		for name, pool := range req.GetProfile().GetPools() {
			poolName := pool.GetName()
			if poolName == "" {
				poolName = name
			}
			profile.GetPools()[name] = &pb.Pool{"""),
("core/main.go","""					Tickets: chunk[name],
""","""					Tickets: chunk[poolName],
""")]
demo='''package main

import (
	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	a := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"a"}}})
	b := c.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"b"}}})
	c.activate(a, b)
	repl()
	chunks := c.look(&pb.Profile{Name: "p", Pools: map[string]*pb.Pool{
		"first":  {Name: "players", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "a"}}},
		"second": {Name: "players", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "b"}}},
	}})
	for pool, id := range map[string]string{"first": a, "second": b} {
		ts := tickets(chunks, pool)
		if len(ts) != 1 || ts[0].GetId() != id {
			fail("pool %s: %v", pool, ts)
		}
	}
	pass()
}
'''
