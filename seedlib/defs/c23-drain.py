id='c23-drain'; property='C23'
needs='More updates arriving during one round trip to storage, or at the moment the batch timer fires, than fit into one batch'
breaks='When the batch timer fires, everything that is waiting goes into the batch, however many updates that is, so batches exceed the configured threshold'
edits=[('core/internal/statestore/cache/replicatedticketcache.go', "\t\t\t\t// Timeout reached, don't wait for the batch to be full.\n", "\t\t\t\t// Timeout reached, don't wait for the batch to be full, but take\n\t\t\t\t// what is already there.\n\t\t\t\tfor more := true; more; {\n\t\t\t\t\tselect {\n\t\t\t\t\tcase req := <-tc.UpRequests:\n\t\t\t\t\t\tpipelineRequests = append(pipelineRequests, req)\n\t\t\t\t\t\tpipeline = append(pipeline, &req.Update)\n\t\t\t\t\tdefault:\n\t\t\t\t\t\tmore = false\n\t\t\t\t\t}\n\t\t\t\t}\n")]
demo='package main\n\nimport (\n\t"sync"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tr := newRedis()\n\tvar mu sync.Mutex\n\tn, most := 0, 0\n\tr.setHook(func(a []string) string {\n\t\tmu.Lock()\n\t\tdefer mu.Unlock()\n\t\tswitch a[0] {\n\t\tcase "XADD":\n\t\t\tn++\n\t\t\tmost = max(most, n)\n\t\tcase "XTRIM":\n\t\t\tn = 0\n\t\t}\n\t\treturn ""\n\t})\n\t// The timer has always fired already.\n\tc := startCore(r, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD=3", "OM_CACHE_OUT_WAIT_TIMEOUT_MS=1")\n\tfor i := 0; i < 300; i++ {\n\t\tvar wg sync.WaitGroup\n\t\tfor j := 0; j < 24; j++ {\n\t\t\twg.Add(1)\n\t\t\tgo func() {\n\t\t\t\tdefer wg.Done()\n\t\t\t\tc.create(&pb.Ticket{})\n\t\t\t}()\n\t\t}\n\t\twg.Wait()\n\t\ttime.Sleep(time.Millisecond)\n\t}\n\tmu.Lock()\n\tdefer mu.Unlock()\n\tif most > 3 {\n\t\tfail("a batch of %d updates, configured are 3", most)\n\t}\n\tpass()\n}\n'
