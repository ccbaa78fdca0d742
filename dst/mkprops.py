#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the long lines stay reviewable).
import json, os
M, S = "core/main.go", "core/server.go"
C = "core/internal/statestore/cache/replicatedticketcache.go"
R = "core/internal/statestore/redis/redis.go"
MEM = "core/internal/statestore/memory/main.go"
ST = "core/internal/statestore/datatypes/store.go"
F = "core/internal/filter/filter.go"
CFG = "core/internal/config/config.go"
SRV = "mmf/server/server.go"
FN = ["functions/golang/soloduel/soloduel.go", "functions/golang/battleroyale/battleroyale.go", "functions/golang/teamshooter/teamshooter.go"]
EX = "matchmaker-example/main.go"
UNIT = "The existing tests cover only the filter predicate and logging configuration, on fixed inputs, in one goroutine; "
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=UNIT + why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A ticket id names exactly the ticket its creator submitted",
  "A successful CreateTicket returns a non-empty id that no other successful CreateTicket ever returns, and every instance that ever shows a ticket with that id in a pool shows exactly the content that was submitted (tags, string and double arguments, extensions) with the creation and expiration times the API documents. A CreateTicket whose ticket was not stored fails; it never returns an empty id or the id of somebody else's ticket.",
  ["schedules","histories","fault_sequences","configurations"],
  "All interleavings of concurrent creations by many clients on many instances, batch sizes and timeouts, storage errors and lost connections before, inside and after a write, clock jumps, and both storage types.",
  "no test creates a ticket, so no batch of more than one caller, no storage failure and no clock movement is ever exercised.",
  [M, C, R, MEM, ST],
  [("CreateTicket handler waits for its own result", M), ("OutgoingReplicationQueue pairs results with requests by position", C), ("SendUpdates parses the pipeline reply", R), ("getReplId generates ids in memory mode", MEM)],
  [("om-replication", "replicated log; the entry id becomes the ticket id", R)], ["CreateTicket response", "tickets in the profiles MMFs receive"])
p("C02", "A ticket is never offered before somebody asked to activate it",
  "No matchmaking function ever receives, in any pool, a ticket for which no ActivateTickets call naming its id had been issued before the profile was delivered.",
  ["schedules","histories","fault_sequences"],
  "Every interleaving of ticket creation, replication, expiry and pool building on every instance, including restarts that replay the whole log.",
  "the window between recording a new ticket and recording that it is inactive, and the one between the two snapshots a pool is built from, exist only under concurrency.",
  [M, C], [("tickets enter the inactive set before the ticket set", C), ("setDifference builds the active list from two live maps", M)],
  [("InactiveSet", "ids that must not be pooled", C), ("Tickets", "all known tickets", C)], ["profiles MMFs receive"])
p("C03", "An acknowledged activation shows up on every instance in bounded time",
  "After ActivateTickets returns success for a live, unexpired ticket, every healthy connected instance includes that ticket in every matching pool it builds once the replication bound implied by the configuration has passed, and keeps including it until a deactivation is requested, a match containing it is returned, or it expires.",
  ["schedules","histories","fault_sequences","configurations"],
  "All interleavings of activations with other updates, all batch and poll settings, any instance asked (not only the one that took the call), restarts, partitions and storage outages that have ended.",
  "needs several instances, the storage layer and elapsed time.",
  [M, C, R, MEM], [("updateTicketsActiveState queues one update per id", M), ("IncomingReplicationQueue applies Activate", C)],
  [("InactiveSet", "ids that must not be pooled", C)], ["ActivateTickets response", "profiles MMFs receive"])
p("C04", "Deactivated and matched tickets leave the pools and stay out",
  "After DeactivateTickets returns success, or a match containing the ticket has been returned to the matchmaker with its deactivation stored, no healthy instance offers that ticket once the replication bound has passed, until a later activation. Every ticket of every match an MMF returns is deactivated, whichever roster it is in and whichever MMF returned it; when the deployment is configured to wait for deactivation, the deactivations are in state storage before the match is returned.",
  ["schedules","histories","fault_sequences","configurations"],
  "All interleavings of matches, explicit deactivations, re-activations, expiry and pool building on any instance, in both deactivation modes, with storage faults that end.",
  "needs MMFs returning matches while other callers build pools.",
  [M, C], [("per-match goroutine deactivates every roster ticket", M), ("OM_MATCH_TICKET_DEACTIVATION_WAIT", CFG), ("IncomingReplicationQueue applies Deactivate", C)],
  [("InactiveSet", "ids that must not be pooled", C)], ["InvokeMatchmakingFunctions stream", "state storage log", "profiles MMFs receive"])
p("C05", "Replicas apply one log, in order, exactly once, and converge",
  "What any instance offers for a ticket always corresponds to some prefix of the single replicated log, and successive observations on an instance never go back to an earlier prefix. Once updates stop and faults end, all instances, including ones that restarted or joined late, offer exactly the same active tickets: those the whole log implies.",
  ["schedules","crash_points","histories","fault_sequences","configurations"],
  "All interleavings of writers on all instances, all page sizes and poll timeouts, lost or torn replies, reconnects, read-replica lag, process crashes at any instruction and restarts that replay the log.",
  "there is no multi-instance test and no test that restarts anything; redis_test.go does not compile.",
  [C, R, M], [("GetUpdates resumes after the last id it processed", R), ("IncomingReplicationQueue applies updates in order", C), ("replId starts at 0-0 on restart", R)],
  [("replId", "last log position read", R), ("replStream", "updates read and not yet applied", C)], ["profiles MMFs receive", "state storage log"])
p("C06", "A pool holds exactly the active tickets its filters select",
  "Every pool delivered to an MMF contains each ticket that is active on that instance and satisfies all of the pool's filters (tags present, string equality, double ranges with their inclusive or exclusive bounds, creation-time range), contains it once and unaltered, and contains no other ticket; a pool with invalid filters contains none and does not affect the other pools.",
  ["inputs","schedules","histories"],
  "All ticket contents and filter combinations, several pools per profile, while updates and expiry are being applied concurrently.",
  "the filter tests evaluate fixed ticket/pool pairs; none fills a pool from a cache that is changing.",
  [F, M], [("filter.In", F), ("filter.ValidatePoolFilters", F), ("InvokeMatchmakingFunctions fills every pool from one snapshot", M)], (), ["profiles MMFs receive"])
p("C07", "Every MMF receives the whole profile, in chunks that fit",
  "Each MMF named in a call receives the complete profile: the chunks announce their number, each is within the 4 MB message limit, concatenated they contain every participant of every pool exactly once, and they carry the profile's name and extensions and each pool's name, filters and extensions unchanged. All MMFs of one call receive the same participants, and an MMF whose request stream breaks sees an error rather than a partial profile passed off as complete.",
  ["inputs","schedules","fault_sequences"],
  "All ticket counts and sizes around the chunk boundary, many pools, several MMFs per call, broken connections and slow MMFs during the transfer.",
  "nothing tests chunking or reassembly, let alone with a connection that fails between chunks.",
  [M, SRV], [("chunking loop over active tickets", M), ("GetChunkedRequest concatenates chunks", SRV)], (), ["chunks each MMF receives", "profile GetChunkedRequest returns"])
p("C08", "Every match an MMF returns reaches the matchmaker exactly once",
  "Every match an MMF streams back before ending its stream normally is delivered to the caller of InvokeMatchmakingFunctions exactly once, unmodified, before the caller's stream ends normally; the caller receives no match that no MMF of its own call returned.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of several MMFs' match streams, deactivation batches and the end of the call, with slow callers, slow MMFs and slow storage.",
  "needs an MMF, a matchmaker and concurrent completion.",
  [M], [("fan-in goroutine forwards matches", M), ("per-match goroutines and their wait group", M), ("matchChan / waitChan shutdown", M)], (), ["InvokeMatchmakingFunctions stream", "what the MMFs sent"])
p("C09", "A failing or slow MMF harms only its own results",
  "An MMF that cannot be reached, returns an error, resets its connection or hangs never prevents, alters or delays beyond the configured MMF timeout the delivery of matches from the other MMFs of the call, nor matches it returned itself before failing, and the call always ends within that timeout plus bounded processing time.",
  ["schedules","fault_sequences","configurations"],
  "All mixes of healthy, unreachable, erroring, resetting, hanging and slow MMFs and all points at which they fail, including after some matches were returned.",
  "needs failing peers and a clock.",
  [M], [("one goroutine per MMF with OM_MMF_TIMEOUT_SECS", M), ("mmfwg", M)], (), ["InvokeMatchmakingFunctions stream and status"])
p("C10", "No client, MMF or storage behaviour terminates om-core",
  "An om-core process never panics, exits or stops serving because of anything a client, a matchmaking function, the state storage or the network does; it ends only when asked to stop.",
  ["inputs","schedules","fault_sequences","histories"],
  "All request contents, all MMF responses including empty and malformed matches, cancellations and disconnects at any point, storage errors and outages at any point.",
  "the panics depend on responses and interleavings (empty matches, errors after matches, timeouts racing results) that no test produces.",
  [M, S, C, R], [("goroutines sharing channels with handlers", M), ("reply parsing", R)], (), ["process exit", "RPC availability"])
p("C11", "Tickets expire exactly when promised and stay gone",
  "A ticket is offered until its expiration time, which is the earlier of the one requested and creation time plus the configured time to live, and no instance offers it later than that time plus one replication cycle, not even after being activated again, after a restart, or on an instance that joins later.",
  ["schedules","histories","fault_sequences","configurations"],
  "All requested creation and expiration times, time-to-live settings, activation and deactivation sequences around the deadline, restarts, and bounded clock skew between nodes.",
  "no test advances a clock or runs the expiry cycle.",
  [C, M], [("CreateTicket clamps the expiration", M), ("expiration closure of IncomingReplicationQueue", C)],
  [("Tickets", "expired entries are culled", C)], ["profiles MMFs receive"])
p("C12", "State does not grow without bound",
  "Once tickets and their assignments have outlived their configured time to live, no trace of them remains in the state storage log or in any instance's memory after further traffic, while nothing younger than the time to live is ever removed from the log.",
  ["histories","schedules","configurations"],
  "All histories of creations, activations, deactivations, matches and assignments, running for many multiples of the time to live, with restarts.",
  "needs long virtual time and a storage layer.",
  [R, C], [("XTRIM MINID after every batch", R), ("expiration closure culls inactive set and assignments", C)],
  [("om-replication", "replicated log", R), ("InactiveSet", "culled by ticket age", C), ("Assignments", "culled by ticket age", C)], ["state storage log length", "cache size metrics"])
p("C13", "An update is acknowledged if and only if it is durably stored",
  "When CreateTicket, ActivateTickets, DeactivateTickets or CreateAssignments returns success, every update the call asked for is in the replicated log, once, and survives the crash of any om-core instance; when storage rejected or may have lost an update the call returns an error, and for activations and deactivations the error details name the tickets concerned.",
  ["crash_points","fault_sequences","schedules","histories"],
  "All storage failures (error replies, refused or dropped connections before, during or after the batch, torn replies, slow replies) at any position of a batch shared by several callers, and om-core crashes at any instruction.",
  "no test reaches the storage client.",
  [R, C, M], [("SendUpdates reply handling", R), ("addStateUpdateErrorDetails", M), ("CreateAssignments error path", M)],
  [("om-replication", "replicated log", R)], ["RPC status and details", "state storage log"])
p("C14", "The service keeps making progress and recovers by itself",
  "Every RPC completes in bounded time while storage and MMFs are reachable, however many calls have been served before; and after any storage outage, network partition, stalled peer or client disconnect ends, all RPCs on all surviving instances succeed again and every instance catches up with the replicated log within a bounded time, without a restart. While a dependency is unreachable an instance retries at a bounded rate instead of spinning.",
  ["schedules","fault_sequences","histories","configurations"],
  "All histories of calls far exceeding any pool or queue size, all outage patterns that end, abandoned and cancelled calls of every kind.",
  "exhaustion and stuck-goroutine bugs need thousands of operations or a fault followed by more work.",
  [R, C, M], [("redis connection pools", R), ("OutgoingReplicationQueue serves all writers", C), ("result channels", M)], (), ["RPC completion times after faults stop"])
p("C15", "Assignments reach every watcher, and only real ones do",
  "After CreateAssignments succeeds, a WatchAssignments call on any healthy instance for that ticket delivers the assignment within the replication bound plus the polling interval, exactly once per watched ticket, and equal to the assignment most recently made for that ticket (up to that bound); a watch never delivers an assignment that was not made for the ticket it names; a watch ends when all its tickets are delivered, or after the ticket time to live.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of assignment, re-assignment, watching before and after, cancelled and timed-out watches, on any instance.",
  "no test calls either RPC.",
  [M, C], [("WatchAssignments polling goroutines and timeout", M), ("IncomingReplicationQueue applies Assign", C)],
  [("Assignments", "ticket id to assignment", C)], ["WatchAssignments stream"])
p("C16", "A rejected request changes nothing",
  "A request that is refused as invalid (no ticket, no ids, more ids than the configured limit, no roster or assignment, no profile or MMF list) and every id in an activation or deactivation that is not a ticket id leave the replicated state and all pools exactly as they were, and valid updates of other callers, or of the same call, are unaffected.",
  ["inputs","histories","schedules"],
  "All malformed and oversized requests, interleaved with valid ones that share their batches.",
  "handlers are never called by the tests.",
  [M], [("input validation of the handlers", M), ("validateTicketIds", M), ("OM_MAX_STATE_UPDATES_PER_CALL", CFG)], (), ["RPC status", "state storage log", "profiles MMFs receive"])
p("C17", "Batching never mixes up callers",
  "Updates of different callers and matches that share a storage batch are independent: the outcome each caller sees is that of its own updates, whatever else (including invalid or failing updates) is in the batch and however the batch is cut.",
  ["schedules","inputs","fault_sequences","configurations"],
  "All batch sizes and timeouts, all mixes of valid, invalid and storage-rejected updates from concurrent callers, all arrival orders.",
  "a batch with more than one caller never occurs in a test.",
  [C, R], [("OutgoingReplicationQueue distributes results by index", C), ("SendUpdates builds the result array", R)], (), ["RPC responses of concurrent callers", "state storage log"])
p("C18", "The REST gateway behaves like the gRPC API",
  "Every operation performed through the HTTP gateway has the same effect, returns the same data and reports the same failures as the gRPC call it maps to, including streamed results and errors reported by state storage.",
  ["histories","inputs","schedules","fault_sequences"],
  "All operations, mixed freely between the two front ends on all instances, with storage failures.",
  "the gateway is never started by a test.",
  [S, "pkg/api/v2/api.pb.gw.go", "proto/v2/api.proto"], [("RegisterOpenMatchServiceHandlerFromEndpoint", S)], (), ["HTTP responses", "profiles MMFs receive"])
p("C19", "Stopping an instance loses nothing that was acknowledged",
  "On SIGTERM or SIGINT an instance stops accepting work and its process ends in bounded time even while calls are in progress; everything it acknowledged remains effective on the other instances, and calls it could not finish fail at the client instead of reporting success.",
  ["crash_points","schedules","histories"],
  "Signals arriving at any point of any mix of calls in progress, including running MMF invocations and watches.",
  "no test starts or stops the server.",
  [S, M], [("start waits for a signal and stops the gRPC server", S)], (), ["process exit", "RPC status at the clients", "pools on the other instances"])
p("C20", "Memory mode keeps the same promises on one instance",
  "A single instance configured with in-memory storage satisfies the same guarantees for ticket identity, activation, deactivation, pool contents, match delivery and assignments as one using Redis, including under load beyond one batch and when its wall clock steps backwards or forwards.",
  ["schedules","histories","configurations","fault_sequences"],
  "All interleavings and batch settings with OM_STATE_STORAGE_TYPE=memory, with clock steps.",
  "the memory replicator has no test.",
  [MEM, C, M], [("memoryReplicator SendUpdates/GetUpdates", MEM), ("getReplId", MEM)], [("replChan", "in-process replication log", MEM)], ["RPC responses", "profiles MMFs receive"])
p("C21", "The sample matchmaking functions place each ticket at most once",
  "For any profile whose pools share no ticket, in any number of chunks, the sample matchmaking functions return only matches of the documented size whose tickets all come from the pools they were given and never put one ticket into two matches or twice into one match, and they return every match the documented rule allows before ending their stream normally.",
  ["inputs","schedules","fault_sequences"],
  "All pool sizes, pool contents and chunkings, concurrent invocations, callers that go away.",
  "the functions have no tests.",
  FN + [SRV], [("Run of each sample function", FN[0]), ("GetChunkedRequest", SRV)], (), ["matches streamed by the MMF"])
p("C22", "The metrics of an instance tell what it did and what it holds",
  "What an instance exports on its metrics endpoint agrees with what it served since it started: calls, errors and durations per RPC, ticket ids activated, deactivated and assigned, and matches received from MMFs, each counted exactly once whatever way the call ended; and once it is quiet the gauges equal the number of active tickets, inactive ids and assignments it holds and of assignments being watched.",
  ["histories","schedules","fault_sequences"],
  "All mixes of successful, rejected, failing, cancelled and timed-out calls on gRPC and REST, with failing MMFs, restarts and expirations, looked at while calls are in progress and when the instance is quiet.",
  "no test reads a metric; the numbers are sums over whole histories of calls that end in different ways.",
  ["core/metrics.go", "core/internal/statestore/cache/metrics.go", M, C, S], [("HandleRPC counts calls, errors and durations", S), ("Matches, AssignmentWatches, ActivationsPerCall", M), ("counts of the expiration cycle", C)], (), ["the /metrics endpoint compared with the calls clients made"])
p("C23", "An instance uses the state storage as it is configured to",
  "Every update an instance sends goes to the configured write server and the log is read only from the configured read server, each with its own account. No batch holds more updates than OM_CACHE_OUT_MAX_QUEUE_THRESHOLD, and while storage is reachable no update waits for its batch longer than OM_CACHE_OUT_WAIT_TIMEOUT_MS plus the round trips of batches before it, however many others keep arriving. A poll asks for at most OM_CACHE_IN_MAX_UPDATES_PER_POLL updates and waits no longer than OM_CACHE_IN_WAIT_TIMEOUT_MS, and one that found nothing is not repeated before that time. An instance never has more than OM_REDIS_POOL_MAX_ACTIVE connections for writing or for reading, and in memory mode it contacts no state storage at all.",
  ["histories","schedules","fault_sequences","configurations"],
  "All batch, poll, pool, server and account settings under every arrival pattern of updates, with restarts, catching up, outages, broken connections and replicas that fail.",
  "no test talks to a storage server, and the promises are about rates and sizes over time under arbitrary traffic.",
  [R, C, CFG, M], [("OutgoingReplicationQueue collects a batch until it is full or the time is over", C), ("rConnPool and wConnPool of the replicator", R), ("GetUpdates polls with COUNT and BLOCK", R), ("the storage type decides which replicator is made", M)], (), ["commands, accounts and connections the storage servers see"])
p("C24", "The example matchmaker activates what it creates and frees what it rejects",
  "The example matchmaker creates exactly the configured number of tickets each second for the configured time, each selected by exactly one pool of its profile, and asks to activate every ticket it got an id for exactly once and within seconds, in calls of at most 500 ids. It counts every match streamed to it as accepted or rejected exactly once, and before its next cycle, or its end, every ticket of every rejected match, however many, has been re-activated exactly once and no other ticket has. Cycles never overlap and follow each other promptly; it ends by itself only after the configured cycles or, unless told otherwise, after repeated empty ones, and never crashes while om-core answers. All of this holds over gRPC and over REST.",
  ["schedules","inputs","fault_sequences","histories"],
  "All rates, durations, cycle counts, match streams of any size and pace, slow and failing calls, both connection types, every interleaving of the simulated players with the matchmaking loop.",
  "the example has no tests; it is the documented way to drive the service and consists of concurrent loops.",
  [EX], [("main loop over cycles", EX), ("activateTickets batches and waits", EX), ("mockMatchmakerFrontend.Run creates and activates every second", EX)], [("ticketIdsToActivate", "tickets waiting to be activated", EX)], ["calls om-core receives from the example", "the example's /metrics", "its process"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
