id='c22-error-kind'; property='C22'
needs='Calls that fail because the request is invalid'
breaks='Calls refused as invalid are missing from the error counter'
edits=[('core/server.go', '\t\tif s.Error != nil {', '\t\tif s.Error != nil && status.Code(s.Error) != codes.InvalidArgument {'), ('core/server.go', '\t"google.golang.org/grpc/stats"\n', '\t"google.golang.org/grpc/stats"\n\t"google.golang.org/grpc/codes"\n\t"google.golang.org/grpc/status"\n')]
demo='package main\n\nimport (\n\t"io"\n\t"net/http"\n\t"strconv"\n\t"strings"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc metric(name string) float64 {\n\tresp, err := http.Get("http://127.0.0.1:2223/metrics")\n\tmust(err)\n\tdefer resp.Body.Close()\n\tb, err := io.ReadAll(resp.Body)\n\tmust(err)\n\tvar sum float64\n\tfor _, l := range strings.Split(string(b), "\\n") {\n\t\tif strings.HasPrefix(l, name+"{") || strings.HasPrefix(l, name+" ") {\n\t\t\tf := strings.Fields(l)\n\t\t\tv, err := strconv.ParseFloat(f[len(f)-1], 64)\n\t\t\tmust(err)\n\t\t\tsum += v\n\t\t}\n\t}\n\treturn sum\n}\n\nfunc main() {\n\tc := startCore(newRedis())\n\tfor i := 0; i < 3; i++ {\n\t\t_, err := c.cl.ActivateTickets(ctxT(10*time.Second), &pb.ActivateTicketsRequest{TicketIds: nil})\n\t\tif err == nil {\n\t\t\tfail("accepted")\n\t\t}\n\t}\n\trepl()\n\tif v := metric("om_core_rpc_errors_total"); v != 3 {\n\t\tfail("3 calls failed; the counter says %v", v)\n\t}\n\tpass()\n}\n'
