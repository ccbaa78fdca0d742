id='c18-body-limit'; property='C18'
needs='A REST request of more than 64 KB'
breaks='The gateway cuts requests off at 64 KB that the gRPC API accepts'
edits=[('core/server.go', 'http.ListenAndServe(":58081", mux)', 'http.ListenAndServe(":58081", http.MaxBytesHandler(mux, 64<<10))')]
demo='package main\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"io"\n\t"net/http"\n\t"strings"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis())\n\tc.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{strings.Repeat("x", 100000)}}})\n\tvar resp *http.Response\n\tvar err error\n\tfor i := 0; i < 100; i++ {\n\t\tbody := fmt.Sprintf(`{"ticket":{"attributes":{"tags":[%q]}}}`, strings.Repeat("x", 100000))\n\t\tresp, err = http.Post("http://127.0.0.1:58081/v2/tickets", "application/json", bytes.NewReader([]byte(body)))\n\t\tif err == nil {\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(50 * time.Millisecond)\n\t}\n\tmust(err)\n\tb, _ := io.ReadAll(resp.Body)\n\tif resp.StatusCode != 200 || !strings.Contains(string(b), "ticketId") {\n\t\tfail("REST: %s %s", resp.Status, b)\n\t}\n\tpass()\n}\n'
