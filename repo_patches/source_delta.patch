From 5bb7f46feb0a1dacc8db4199eac7e67353253d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 01/25] fix: return redis connections to their pools

Neither SendUpdates nor GetUpdates closed the connection it had taken, so
replication stopped for good after OM_REDIS_POOL_MAX_ACTIVE batches.
---
 core/internal/statestore/redis/redis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..baa840d 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
@@ -252,6 +253,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From 08af3fc0517930a562bea819697588da8cb59fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 02/25] fix: match redis replies with the updates they belong
 to

An update that is refused before it is sent has no reply of its own; the
results of all later updates of the batch were off by one. Errors of single
commands did not carry the key of the update concerned.
---
 core/internal/statestore/redis/redis.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index baa840d..4f4052a 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -194,13 +194,17 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
 	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
+		// Updates that weren't valid were never sent, so there is no result for those.
+		replyIndex := 0
+		for index := range out {
 			// First, make sure this was a valid update
 			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
+				t, err := redis.String(r.([]interface{})[replyIndex], err)
+				replyIndex++
 				if err != nil {
+					// The result is the key that generated the error.
 					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
+					t = updates[index].Key
 				}
 				out[index].Result = t
 				fmt.Printf(" %v - found string: %v\n", index, t)
-- 
2.43.0


From 1734c5c97a38eb9745200f1a0fa5eea8ac5674f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 03/25] fix: report failed redis writes instead of
 acknowledging them

When the pipeline failed as a whole every update of the batch was reported
as stored, with an empty ticket id in case of CreateTicket.
---
 core/internal/statestore/redis/redis.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 4f4052a..e53c69e 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -193,7 +193,18 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
-	if r != nil { // Make sure we have results before we parse them
+	if r == nil {
+		// Nothing is known to be stored, so no update of this batch may be acknowledged.
+		if err == nil {
+			err = errors.New("no results from redis")
+		}
+		for index := range out {
+			if out[index].Err == nil {
+				out[index].Err = fmt.Errorf("Redis error: %w", err)
+			}
+			out[index].Result = updates[index].Key
+		}
+	} else { // Make sure we have results before we parse them
 		// Updates that weren't valid were never sent, so there is no result for those.
 		replyIndex := 0
 		for index := range out {
-- 
2.43.0


From 3abb75ac27b300a3fa27885ed46bad0c12e5bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 04/25] fix: do not panic on a match without tickets

---
 core/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index f603ef2..a37a6eb 100644
--- a/core/main.go
+++ b/core/main.go
@@ -645,7 +645,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Function to check if deactivation of the last ticket
 						// in this match's rosters has been replicated to the
 						// local cache
-						deactivationCheck := func(ticketId string) {
+						deactivationCheck := func(ticketIds []string) {
+							if len(ticketIds) == 0 {
+								return // match without tickets, nothing to wait for
+							}
+							ticketId := ticketIds[len(ticketIds)-1]
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
@@ -669,7 +673,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -683,7 +687,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From 47ec76c0af7823855fc641d032e53808e072f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 05/25] fix: wait for the matches of an MMF that fails

An MMF error skipped the wait for the goroutines that deactivate tickets and
return matches: matches got lost, and the process could panic sending on a
closed channel.
---
 core/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index a37a6eb..adc765b 100644
--- a/core/main.go
+++ b/core/main.go
@@ -583,6 +583,10 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
 
+				// Wait for all match ticket deactivation goroutines to
+				// complete, even if the MMF fails after returning matches.
+				defer tdwg.Wait()
+
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
 				// until a break statement is encountered.
@@ -702,9 +706,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// problems too, but it's a relatively low-risk assumption that
 				// the user will only deploy a few different mmfs.
 				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
-				// Wait for all match ticket deactivation goroutines to complete.
-				tdwg.Wait()
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From 617e2d857458398310a32a361ef5c2ddf78b3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 06/25] fix: do not end InvokeMatchmakingFunctions before its
 last match is sent

---
 core/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index adc765b..7486238 100644
--- a/core/main.go
+++ b/core/main.go
@@ -723,8 +723,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	// https://stackoverflow.com/questions/71246253/handle-goroutine-termination-and-error-handling-via-error-group
 	// Wait for all mmfs to complete.
 	mmfwg.Wait()
-	logger.Debugf("MMF waitgroup done; closing waitchan")
-	close(waitChan)
+	logger.Debugf("MMF waitgroup done; signalling fan-in goroutine")
+	// Blocks until the fan-in goroutine has sent every match it has taken.
+	waitChan <- true
 	return nil
 }
 
-- 
2.43.0


From fb27394ba01cef71b94e83116cd328e96cb88ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 07/25] fix: end the goroutines of WatchAssignments with the
 call

They kept polling forever for tickets that never got an assignment, and
panicked sending on a closed channel if one arrived later.
---
 core/main.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 7486238..64784aa 100644
--- a/core/main.go
+++ b/core/main.go
@@ -819,7 +819,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+	// Closed when this call ends, to end the goroutines below as well.
+	done := make(chan struct{})
+	defer close(done)
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -831,15 +833,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-done:
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-done:
+					return
+				}
 			}
 		}(id)
 
@@ -868,6 +877,10 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		case thisAssignment := <-updateChan:
 			AssignmentWatches.Add(context.Background(), -1)
 			stream.Send(thisAssignment)
+		case <-stream.Context().Done():
+			// The client is gone
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
+			return stream.Context().Err()
 		case <-timeout:
 			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
 			return nil
-- 
2.43.0


From 1917076db88fc3f20945506b20669b5f9cb45d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 08/25] fix: do not offer tickets that arrive while the cache
 is copied

A ticket created between the two steps of setDifference was offered to MMFs
without ever having been activated.
---
 core/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 64784aa..6786dcd 100644
--- a/core/main.go
+++ b/core/main.go
@@ -970,7 +970,10 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
 		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+			// Created or deactivated since the dump was made?
+			if _, ok := inactiveSet.Load(id); !ok {
+				activeTickets = append(activeTickets, ticket)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From e34a1d2bc75bb1ad772e1c49337edf4653ed42e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 09/25] fix: treat the timestamps in replication ids as
 milliseconds

Redis stream entry ids hold unix milliseconds. Taken for seconds they made
every entry look like one from the far future, so the stream was never
trimmed, expired ids and assignments were never removed from the cache, and
assignment watches never timed out. The memory replicator follows suit.
---
 .../statestore/cache/replicatedticketcache.go         | 11 ++++++-----
 core/internal/statestore/memory/main.go               |  4 ++--
 core/internal/statestore/redis/redis.go               |  3 ++-
 core/main.go                                          |  2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..335197d 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -257,8 +257,9 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		//
 		// Ticket IDs are assigned by Redis in the format of
 		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
-		// interested in the ticket creation time (the unix timestamp) here.
+		// ticket is created during the same millisecond. We are only
+		// interested in the ticket creation time (the unix timestamp in
+		// milliseconds) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
 		// convention so this works fine, but retrieving the creation time
@@ -296,7 +297,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +330,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..ca0a5fc 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,12 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index e53c69e..9e0b77a 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -178,7 +178,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	// (the first part of a redis stream entry ID is a unix timestamp in milliseconds)
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS")*1000, 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
diff --git a/core/main.go b/core/main.go
index 6786dcd..ef39094 100644
--- a/core/main.go
+++ b/core/main.go
@@ -857,7 +857,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From 3148bff8d34129e686819ce9df9e8f64dd07c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 10/25] fix: keep ids of the memory replicator unique if the
 clock goes back

---
 core/internal/statestore/memory/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index ca0a5fc..ecffa9e 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,7 +96,8 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
+	// Like redis, never go back if the clock does: ids have to be unique.
+	if time.Now().UnixMilli() <= rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
-- 
2.43.0


From 2e49f8b197ea9f286c30cc40d711301712b67060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 11/25] fix: refuse ticket ids that merely contain a
 replication id

---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index ecffa9e..671e487 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 9e0b77a..fdc9187 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -330,5 +330,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 1729f7dd827f5655584c7b5be7dfa57f63be5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 12/25] fix: send the entire profile to MMFs

Pools lost their name, filters and extensions, and pools without a ticket in
a chunk were missing from it.
---
 core/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index ef39094..9c9a498 100644
--- a/core/main.go
+++ b/core/main.go
@@ -457,11 +457,17 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 			Pools:      pools,
 			Extensions: req.GetProfile().GetExtensions(),
 		}
-		for name, participantRoster := range chunk {
+		for name, pool := range req.GetProfile().GetPools() {
 			profile.GetPools()[name] = &pb.Pool{
+				Name:                    pool.GetName(),
+				TagPresentFilters:       pool.GetTagPresentFilters(),
+				StringEqualsFilters:     pool.GetStringEqualsFilters(),
+				DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+				CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+				Extensions:              pool.GetExtensions(),
 				Participants: &pb.Roster{
 					Name:    name + "_roster",
-					Tickets: participantRoster,
+					Tickets: chunk[name],
 				},
 			}
 		}
-- 
2.43.0


From 16f2dc89c6ee75e17ef0c7a13ef061609f28ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 13/25] fix: report failures of CreateAssignments

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 9c9a498..03d0331 100644
--- a/core/main.go
+++ b/core/main.go
@@ -803,7 +803,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 72ebb0a098f0e4677c45abba452ca2c7e1c89254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 14/25] fix: accept pools whose first chunk has no participants

---
 mmf/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..1ed55f8 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -92,6 +92,9 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 					Extensions:              pool.GetExtensions(),
 					Participants:            pool.GetParticipants(),
 				}
+			} else if pools[name].Participants == nil {
+				// No participants so far
+				pools[name].Participants = pool.GetParticipants()
 			} else {
 				// concate pools split amoung multiple chunks
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
-- 
2.43.0


From 26f915e4b9687ab9be75b3aa77ed32ff33fce1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 15/25] fix: back off between attempts to connect to an MMF

---
 core/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 03d0331..03d4111 100644
--- a/core/main.go
+++ b/core/main.go
@@ -34,6 +34,7 @@ import (
 	"go.opentelemetry.io/otel/metric"
 	"google.golang.org/genproto/googleapis/rpc/errdetails"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/backoff"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/credentials/insecure"
 	"google.golang.org/grpc/status"
@@ -512,7 +513,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	var opts []grpc.DialOption
 	mmfTimeout := time.Duration(cfg.GetInt("OM_MMF_TIMEOUT_SECS")) * time.Second
 	opts = append(opts,
-		grpc.WithConnectParams(grpc.ConnectParams{MinConnectTimeout: mmfTimeout}),
+		grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.DefaultConfig, MinConnectTimeout: mmfTimeout}),
 		grpc.WithTransportCredentials(insecure.NewCredentials()),
 	)
 
-- 
2.43.0


From c348900105bdfd3f685b343986032a696a1185de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 16/25] fix: wait before reading updates again after a redis
 error

---
 core/internal/statestore/redis/redis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index fdc9187..ef28e82 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -273,6 +273,9 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
+		// The caller asks again at once; don't let it loop while redis is
+		// unreachable.
+		time.Sleep(time.Duration(rr.cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond)
 	}
 	//spew.Dump(data)
 
-- 
2.43.0


From a2d92950425efa7ed2cae43ca5d89ab43a3cb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 17/25] fix: count rosters and ticket framing in the size of a
 chunk

---
 core/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/main.go b/core/main.go
index 03d4111..035f70f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -416,6 +416,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	maxPbSize := 4 * 1000 * 1000
 	// Figure out how big the message is with the profile populated, but all pools empty
 	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	// and with the roster that each pool gets below: its name, and at most 32
+	// bytes for the tags and lengths of the messages around it.
+	for name := range req.GetProfile().GetPools() {
+		emptyChunkSize += len(name) + len("_roster") + 32
+	}
 	curChunkSize := emptyChunkSize
 
 	// Array of 'chunks', each consisting of a portion of the pools in this profile.
@@ -429,6 +434,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
 				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				ticketSize += 5 // tag and length of the ticket in its roster
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
-- 
2.43.0


From 25a5e6b192ef0f7294ccba48a427c9c3c1cd6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 18/25] fix: skip replication stream entries that cannot be
 understood

---
 core/internal/statestore/redis/redis.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index ef28e82..e3d3483 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -301,6 +301,13 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 				if err != nil {
 					logger.Error(err)
 				}
+				// The stream is read again from the beginning at every start, so an
+				// entry that can't be understood has to be skipped.
+				if len(y) < 2 || (y[0] == "assign" && len(y) < 4) {
+					logger.Errorf("Skipping malformed replication stream entry %v", replId)
+					rr.replId = replId
+					continue
+				}
 				switch y[0] {
 				case "ticket":
 					thisUpdate.Cmd = store.Ticket
-- 
2.43.0


From 52a4d32474f066af5f5fc0d1498befef63a7d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 19/25] fix: stop counting the watches of a WatchAssignments
 call that times out

---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 035f70f..bd33ac9 100644
--- a/core/main.go
+++ b/core/main.go
@@ -895,7 +895,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return stream.Context().Err()
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
 		}
 	}
-- 
2.43.0


From 371d63c70dade9dea1bf589451d8a9e4703c9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 20/25] fix: count the matches received from MMFs, also from
 those that fail

---
 core/main.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/main.go b/core/main.go
index bd33ac9..e679f28 100644
--- a/core/main.go
+++ b/core/main.go
@@ -600,11 +600,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// complete, even if the MMF fails after returning matches.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
+				// i counts the number of matches for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
-				// until a break statement is encountered.
+				// until the mmf ends its stream or fails.
 				var i int64
-				for i = 1; true; i++ {
+				defer func() {
+					// TODO decide if we want to track profile names as attributes
+					// as well as mmf names. Profile names are user input, so we'd
+					// have to limit cardinality somehow. Really we should address
+					// the possiblity of too many mmf names causing cardinality
+					// problems too, but it's a relatively low-risk assumption that
+					// the user will only deploy a few different mmfs.
+					Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+				}()
+				for i = 0; true; i++ {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -711,14 +720,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					}(resultCopy) // End of match return & ticket deactivation goroutine
 
 				} // End of match stream receiving loop
-
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From 0e5a7614e1050f0a69901cd6570181249341006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 21/25] fix: do not subtract the ids of removed tickets from
 the active tickets in the metrics

---
 core/internal/statestore/cache/metrics.go               | 3 ++-
 core/internal/statestore/cache/replicatedticketcache.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/internal/statestore/cache/metrics.go b/core/internal/statestore/cache/metrics.go
index df199cc..23bc431 100644
--- a/core/internal/statestore/cache/metrics.go
+++ b/core/internal/statestore/cache/metrics.go
@@ -31,6 +31,7 @@ var (
 	Assignments     otelmetrics.Int64ObservableUpDownCounter
 
 	TicketCount     int64
+	ActiveCount     int64
 	InactiveCount   int64
 	AssignmentCount int64
 
@@ -95,7 +96,7 @@ func RegisterMetrics(meterPointer *otelmetrics.Meter) {
 	if _, err := meter.RegisterCallback(
 		func(ctx context.Context, o otelmetrics.Observer) error {
 			// TODO
-			o.ObserveInt64(ActiveTickets, TicketCount-InactiveCount)
+			o.ObserveInt64(ActiveTickets, ActiveCount)
 			o.ObserveInt64(InactiveTickets, InactiveCount)
 			o.ObserveInt64(Assignments, AssignmentCount)
 			return nil
diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 335197d..1796bfc 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -283,6 +283,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				numInactive            int64
 				numInactiveDeletions   int64
 				numTickets             int64
+				numActive              int64
 				numTicketDeletions     int64
 				numAssignments         int64
 				numAssignmentDeletions int64
@@ -318,6 +319,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if time.Now().After(ticket.(*pb.Ticket).GetExpirationTime().AsTime()) {
 					tc.Tickets.Delete(id)
 					numTicketDeletions++
+				} else if _, inactive := tc.InactiveSet.Load(id); !inactive {
+					numActive++
 				}
 				return true
 			})
@@ -341,6 +344,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			// Log results and record metrics
 			AssignmentCount = numAssignments
 			TicketCount = numTickets
+			ActiveCount = numActive
 			InactiveCount = numInactive
 
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
-- 
2.43.0


From d9930e4be9949e577dd775140a3db37e89fd63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:50 +0000
Subject: [PATCH 22/25] fix: wait for every activation call of the example
 matchmaker

activateTickets counted each call in the goroutine that makes it, so Wait could
return before any of them was counted: the next cycle began, or the process
ended, with the tickets of rejected matches still inactive.
---
 matchmaker-example/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..b288614 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,6 +415,7 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			activationWg.Add(1) // Track this goroutine
 			go func(ticketsAwaitingActivation []string) {
 
 				// Quick in-line function to grab information
@@ -429,8 +430,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
 				defer activationWg.Done()
 
 				// Activate tickets
-- 
2.43.0


From 836bcac42998b5eb18cbc905c8c884cc7f31c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:50 +0000
Subject: [PATCH 23/25] fix: do not block on the queue of rejected tickets in
 the example matchmaker

The main loop fills a channel of 10000 ticket IDs and only then starts to read
it, so it blocked forever once the rejected matches of a cycle held more.
---
 matchmaker-example/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index b288614..c325718 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -357,11 +357,19 @@ func main() {
 		} else {
 			emptyCycles = 0
 
+			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
+			ctx := context.WithValue(ctx, "type", "re-activate")
+
 			// re-activate tickets from rejected matches
 			numRejectedTickets := 0
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
+						// Only this goroutine takes ticket IDs from the queue, so
+						// make room when it is full.
+						if len(ticketIdsToActivate) == cap(ticketIdsToActivate) {
+							activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
+						}
 						// queue this ticket ID to be re-activated
 						ticketIdsToActivate <- ticket.GetId()
 						numRejectedTickets++
@@ -369,8 +377,6 @@ func main() {
 				}
 			}
 			logger.Infof("Queued %v tickets to be re-activated due to rejected matches", numRejectedTickets)
-			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
-			ctx := context.WithValue(ctx, "type", "re-activate")
 			activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
 		}
 	}
-- 
2.43.0


From d2d6d03c59d4b0462bf581a18b6a639e8a981a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:27 +0000
Subject: [PATCH 24/25] fix: skip replication stream entries of an unknown kind

---
 core/internal/statestore/redis/redis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index e3d3483..46e40f4 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -323,6 +323,12 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 					thisUpdate.Cmd = store.Assign
 					thisUpdate.Key = y[1]   // ticket's ID
 					thisUpdate.Value = y[3] // assignment
+				default:
+					// Not one of ours: without this, it would be taken for a
+					// ticket that has no ID.
+					logger.Errorf("Skipping replication stream entry %v of unknown kind %q", replId, y[0])
+					rr.replId = replId
+					continue
 				}
 
 				// Populated all the fields without an error
-- 
2.43.0


From d3094543e9803797eab779eca5de03ee9d8fc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:37 +0000
Subject: [PATCH 25/25] fix: receive matches while the profile is being sent to
 the MMF

---
 core/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/main.go b/core/main.go
index e679f28..8523e88 100644
--- a/core/main.go
+++ b/core/main.go
@@ -586,10 +586,20 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// Request itself is chunked if all the tickets returned in
 				// ticket pools result in a total request size larger than the
 				// default gRPC message size of 4mb.
-				for index, chunk := range chunkedRequest {
-					mmfStream.Send(chunk)
-					logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
-				}
+				//
+				// Sent asynchronously: an MMF can return matches before it has
+				// read all chunks, and those have to be read meanwhile, or both
+				// sides wait for each other until the timeout.
+				go func() {
+					for index, chunk := range chunkedRequest {
+						if err := mmfStream.Send(chunk); err != nil {
+							// The reason is returned to the receiving loop below.
+							logger.Debugf("MMF request stream ended: %v", err)
+							return
+						}
+						logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
+					}
+				}()
 
 				// Make a waitgroup that lets us know when all ticket
 				// deactivations are complete. (All tickets in matches returned
-- 
2.43.0

