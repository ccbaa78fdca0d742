id="c01-untyped-extension"; property="C01"
needs="A ticket with an extension whose value is empty"
breaks="The ticket that MMFs get lacks an extension that its creator submitted"
edits=[("core/main.go","""		Extensions:     req.GetTicket().GetExtensions(),
		Attributes: &pb""","""		Extensions:     usedExtensions(req.GetTicket()),
		Attributes: &pb"""),("core/main.go","""// updateTicketsActiveState accepts""","""// usedExtensions returns the extensions that have a value.
func usedExtensions(t *pb.Ticket) map[string]*anypb.Any {
	out := make(map[string]*anypb.Any, len(t.GetExtensions()))
	for k, v := range t.GetExtensions() {
		if len(v.GetValue()) > 0 {
			out[k] = v
		}
	}
	return out
}

// updateTicketsActiveState accepts"""),("core/main.go","""	"google.golang.org/protobuf/proto"
""","""	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
""")]
demo='''package main

import (
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/emptypb"

	pb "open-match.dev/pkg/pb/v2"
)

func main() {
	c := startCore(newRedis())
	x, _ := anypb.New(&emptypb.Empty{})
	id := c.create(&pb.Ticket{Extensions: map[string]*anypb.Any{"vip": x}})
	repl()
	c.activate(id)
	repl()
	repl()
	t := c.offered()[id]
	if t == nil {
		fail("ticket is not offered")
	}
	if t.GetExtensions()["vip"] == nil {
		fail("the extension is gone: %v", t)
	}
	pass()
}
'''
