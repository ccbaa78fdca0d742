id='c23-debounce'; property='C23'
needs='Updates that keep arriving at intervals shorter than the batch wait, fewer than a batch holds'
breaks='Every update that arrives restarts the wait of the batch, so updates wait much longer than configured while others keep coming'
edits=[('core/internal/statestore/cache/replicatedticketcache.go', '\t\t\t\tpipeline = append(pipeline, &req.Update)\n', '\t\t\t\tpipeline = append(pipeline, &req.Update)\n\t\t\t\ttimeout = time.After(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_OUT_WAIT_TIMEOUT_MS")))\n')]
demo='package main\n\nimport (\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tc := startCore(newRedis(), "OM_CACHE_OUT_WAIT_TIMEOUT_MS=500")\n\tfor i := 0; i < 20; i++ {\n\t\tgo func() { c.cl.CreateTicket(ctxT(20*time.Second), &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}) }()\n\t\tif i == 2 {\n\t\t\tgo func() {\n\t\t\t\tt := time.Now()\n\t\t\t\tc.create(&pb.Ticket{})\n\t\t\t\tif d := time.Since(t); d > 2500*time.Millisecond {\n\t\t\t\t\tfail("an update waited %v for its batch", d)\n\t\t\t\t}\n\t\t\t}()\n\t\t}\n\t\ttime.Sleep(250 * time.Millisecond)\n\t}\n\ttime.Sleep(time.Second)\n\tpass()\n}\n'
