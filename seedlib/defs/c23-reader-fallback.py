id='c23-reader-fallback'; property='C23'
needs='A failed read from the server for reading, after which a connection to it has to be opened'
breaks='After one failed read the instance reads the log from the server configured for writing from then on'
edits=[('core/internal/statestore/redis/redis.go', '\tdata, err := rConn.Do(redisCmd, redisArgs...)\n\tif err != nil {\n', '\tdata, err := rConn.Do(redisCmd, redisArgs...)\n\tif err != nil {\n\t\t// Use the primary while the replica is not available.\n\t\trr.rConnPool.Dial = rr.wConnPool.Dial\n')]
demo='package main\n\nimport (\n\t"sync/atomic"\n\t"time"\n\n\tpb "open-match.dev/pkg/pb/v2"\n)\n\nfunc main() {\n\tw, r := newRedis(), newRedis()\n\tvar atWriter, atReader, drop atomic.Int64\n\tw.setHook(func(a []string) string {\n\t\tif a[0] == "XREAD" {\n\t\t\tatWriter.Add(1)\n\t\t}\n\t\treturn ""\n\t})\n\tr.setHook(func(a []string) string {\n\t\tif a[0] == "XREAD" {\n\t\t\tif drop.CompareAndSwap(1, 0) {\n\t\t\t\treturn "drop"\n\t\t\t}\n\t\t\tatReader.Add(1)\n\t\t}\n\t\treturn ""\n\t})\n\tc := startCore(w, "OM_REDIS_READ_PORT="+r.port())\n\tc.create(&pb.Ticket{})\n\ttime.Sleep(300 * time.Millisecond)\n\tdrop.Store(1)\n\ttime.Sleep(500 * time.Millisecond)\n\tn := atReader.Load()\n\ttime.Sleep(1000 * time.Millisecond)\n\tif k := atWriter.Load(); k > 0 || atReader.Load() == n {\n\t\tfail("%d reads at the server for writing, %d more at the one for reading", k, atReader.Load()-n)\n\t}\n\tpass()\n}\n'
