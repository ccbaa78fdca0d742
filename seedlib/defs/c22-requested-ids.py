id='c22-requested-ids'; property='C22'
needs='An activation request with malformed ids among the valid ones'
breaks='The activation histogram counts requested ids, also those that were refused, instead of activated ones'
edits=[('core/main.go', '\tActivationsPerCall.Record(parentCtx, int64(len(validTicketIds)))', '\tActivationsPerCall.Record(parentCtx, int64(numReqUpdates))')]
demo='package main\n\nimport (\n\t"io"\n\t"net/http"\n\t"strconv"\n\t"strings"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc metric(name string) float64 {\n\tresp, err := http.Get("http://127.0.0.1:2223/metrics")\n\tmust(err)\n\tdefer resp.Body.Close()\n\tb, err := io.ReadAll(resp.Body)\n\tmust(err)\n\tvar sum float64\n\tfor _, l := range strings.Split(string(b), "\\n") {\n\t\tif strings.HasPrefix(l, name+"{") || strings.HasPrefix(l, name+" ") {\n\t\t\tf := strings.Fields(l)\n\t\t\tv, err := strconv.ParseFloat(f[len(f)-1], 64)\n\t\t\tmust(err)\n\t\t\tsum += v\n\t\t}\n\t}\n\treturn sum\n}\n\nfunc main() {\n\tc := startCore(newRedis())\n\tid := c.create(&pb.Ticket{})\n\trepl()\n\tc.cl.ActivateTickets(ctxT(10*time.Second), &pb.ActivateTicketsRequest{TicketIds: []string{id, "bad", "worse"}})\n\trepl()\n\tif v := metric("om_core_ticket_activation_requests_sum"); v != 1 {\n\t\tfail("1 ticket was activated; the histogram says %v", v)\n\t}\n\tpass()\n}\n'
