#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so the wording is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Posted records form one exact, immutable log per topic-partition",
  "Whatever goroutines post whatever records to a topic-partition, and whether the server is not yet started, serving or stopped, every completed post occupies exactly one offset (0, 1, 2, ... with no gap, loss or duplicate), and a post that completed before another began has the lower offset. Every fetch by every client shows, at a given offset, the same key, value and millisecond timestamp, exactly as they were when posted (a nil key or value stays distinguishable from an empty one), even if the caller reuses its buffers afterwards.",
  ["schedules", "histories", "inputs"],
  "all interleavings of concurrent posts, topic/partition creation, fetches, stops and restarts; all keys, values and timestamps",
  "The tests post from one goroutine and never compare keys, timestamps or offsets; concurrent first posts to a new topic, aliasing of the caller's slices and posts racing with fetches are never sampled.",
  ["datastore.go", "kafka-mock.go", "fetch.go", "encoder.go"],
  [("create-or-get of topic and partition under a mutex", "datastore.go createTopic/createPartition"),
   ("append under the partition mutex", "datastore.go postRecord"),
   ("record copied into a v1 message", "encoder.go appendMessage")],
  [("Records", "the log of one partition", "datastore.go kafkaPartition")],
  ["SimplePost/ExtendedPost return", "fetch v2 responses"])

p("C02", "A fetch answers each requested partition with exactly its own log records",
  "A fetch response names the requested topics and partitions in request order, and each carries that partition's own records at consecutive offsets starting exactly at the requested one, as a well-formed version-1 message set (message sizes, total size and CRC-32 all valid). Every record that was already posted when the request was sent and that fits the requested size is included, and the high watermark is the end of that partition's log at some moment while the request was being served (or the requested offset, if that lies beyond it).",
  ["inputs", "schedules", "histories"],
  "all fetch requests (any number of topics and partitions, any offsets and limits) against all log contents, racing with posts",
  "The only client in the tests (kafka-go) reads one topic-partition per connection, does not verify CRC or total size and hides the high watermark; multi-partition requests and exact contents are never checked.",
  ["fetch.go", "encoder.go", "datastore.go"],
  [("per-partition collection state", "fetch.go fetchData"), ("message set layout, size and CRC", "encoder.go appendMessage/encodeMessageSetV1")],
  [("fetchData", "collected records, next offset and limit per requested partition", "fetch.go")],
  ["fetch v2 responses on the wire"])

p("C03", "A fetch respects each partition's byte limit, fills it, and always finishes",
  "The message set returned for a partition never exceeds the byte limit requested for that partition, and when more records exist it stops only because the next one would not fit. A request is always answered in bounded time, also when a record is larger than the limit or one partition of several is full, and a client that pages through a log whose records each fit its limit receives every record exactly once.",
  ["inputs", "schedules", "histories"],
  "all record sizes, limits (including zero and negative), partition combinations and paging sequences, racing with posts",
  "Tests fetch small records with large limits through kafka-go; the boundary around the limit and records larger than it are hit by no passing test.",
  ["fetch.go", "encoder.go"],
  [("size accounting and refusal", "encoder.go appendMessage"), ("collection loop", "fetch.go fetchV2")],
  [("totalSize", "bytes collected for a partition", "encoder.go messageSetV1")],
  ["fetch v2 responses on the wire"])

p("C04", "A waiting fetch returns when data arrives, and otherwise at its max wait",
  "A fetch that finds no records waits: it is answered promptly (within 250 ms) once a record becomes available on any partition it asked for, including a topic-partition's first record, and otherwise it is answered empty no earlier than its maximum wait and within 250 ms after it; an empty answer means that no record was posted before the wait was over. A fetch that finds records is answered at once whatever its maximum wait, and changes of the system's wall clock affect none of this; only a stop of the server ends a wait early, promptly.",
  ["schedules", "histories", "inputs"],
  "all waits, post times, partition sets, latencies, wall-clock jumps and stop times",
  "Tests run on real time with one reader and never assert either bound; clock jumps and the post-races-with-expiry window cannot be produced by them.",
  ["fetch.go", "kafka-mock.go"],
  [("poll loop with expiration", "fetch.go fetchV2"), ("cancellation on stop", "kafka-mock.go RequestStop/FinishRequests")],
  [("expiration", "deadline of the waiting fetch", "fetch.go")],
  ["response times of fetch requests in simulated time"])

p("C05", "Every supported request gets exactly one reply, in order, with its id",
  "On every connection, each well-formed request of a supported API and version receives exactly one well-formed reply carrying that request's correlation id, and replies come in request order; how the bytes were split, delayed, pipelined or preceded by idle time, how large the request is and which client id, null strings or null arrays it uses make no difference. The versions request advertises exactly the API versions that are served.",
  ["inputs", "schedules", "fault_sequences"],
  "all sequences of supported requests on a connection under every segmentation, delay, short read, idle period and request size",
  "kafka-go sends each small request in one write and waits for each reply; TCP segmentation, pipelining, requests over one read buffer and null arrays are not reachable from the tests.",
  ["kafka-client.go", "inbound-utils.go", "kafka-message.go", "decoder.go", "encoder.go", "api-keys.go", "api_versions.go"],
  [("frame reassembly", "inbound-utils.go getMessage, kafka-client.go handle"), ("dispatch by api key and version", "kafka-client.go dispatcher"), ("reply framing", "kafka-message.go send")],
  [("inbound", "bytes received and not yet consumed on a connection", "kafka-client.go kafkaClient")],
  ["request and reply byte streams of each connection"])

p("C06", "A client that fails in any way never disturbs the server or other clients",
  "A client may disconnect, reset, half-close, time out or stall at any moment (in the middle of a request frame, while its request is waiting, while a reply is being written), and the server keeps running: other clients' requests, posts and later connections continue exactly as if that client were absent. A request of which the server never received the last byte has no effect, and a request it received completely takes effect at most once.",
  ["fault_sequences", "schedules", "crash_points"],
  "all instants and kinds of connection failure, in all interleavings with other clients' work",
  "Tests only close readers gracefully, or close connections from the server side; an error the read or write path does not recognise kills the process and is never injected.",
  ["kafka-client.go", "net-utils.go", "kafka-message.go", "kafka-mock.go"],
  [("classification of socket errors", "net-utils.go wasSocketClosed"), ("send failure on a dropped client is ignored", "kafka-client.go dispatcher/isConnected"), ("per-connection goroutine", "kafka-client.go handle")],
  [("clients", "table of live connections", "kafka-mock.go KafkaMock")],
  ["process liveness", "other clients' replies", "server state after the failure"])

p("C07", "Committed offsets are forward-only registers, one per group, topic and partition",
  "For every consumer group, topic and partition the committed offset behaves as one atomic register starting at 0: a commit raises it to its offset if that is higher and otherwise leaves it, an explicit set by the embedding program puts it to exactly the given value (also backwards), and an offset fetch returns the current value, all consistent with the real-time order of the calls. No commit, set or read for one group, topic or partition ever affects another, every entry of a multi-entry request is applied and answered, and stop or restart loses none of it.",
  ["histories", "schedules", "inputs"],
  "all concurrent histories of commits, sets, fetches and restarts over several connections, groups, topics and partitions",
  "The tests commit with one group, one topic, one partition and one client and never read the committed value from two places at once.",
  ["offset_commit.go", "offset_fetch.go", "datastore.go", "kafka-mock.go"],
  [("compare and raise under the partition mutex", "offset_commit.go offsetCommitV2"), ("explicit override", "kafka-mock.go SetConsumerGroupOffset"), ("read under the partition mutex", "datastore.go groupCommittedOffset")],
  [("GroupCommittedOffsets", "committed offset per group", "datastore.go kafkaPartition")],
  ["offset commit and offset fetch replies"])

p("C08", "Unknown topics and partitions are reported as such and never created by clients",
  "Requests that name a topic or partition nobody created or posted to are answered without affecting any other entry of the request: list-offsets and offset-commit give that entry error 3 (unknown topic or partition) and every existing entry no error, metadata gives an unknown topic error 3, offset-fetch leaves the entry out, and fetch returns it empty without error. Such requests create nothing and store nothing: if the topic-partition is created later it starts with an empty log and committed offset 0.",
  ["inputs", "histories", "schedules"],
  "all mixes of known and unknown names in every request type, racing with creation by post, create call or another client's traffic",
  "Tests only name the one topic-partition they created.",
  ["list_offsets.go", "offset_commit.go", "offset_fetch.go", "fetch.go", "metadata.go", "datastore.go"],
  [("lookup without creation", "datastore.go getTopic/getPartition"), ("UnknownTopicOrPartition", "kafka-errors.go")],
  [("Topics", "all existing topics", "datastore.go kafkaDataStore")],
  ["error codes and entries in replies", "state observed after later creation"])

p("C09", "List-offsets gives earliest, latest and by-time offsets consistent with the log",
  "For every existing partition, asking for the earliest offset gives 0, asking for the latest gives the number of records at some moment during the request (at least every record already posted when it was sent), and asking for a time on a log whose timestamps do not decrease gives the first offset whose timestamp is not before that time (the log end if there is none), together with that record's timestamp. Each entry of a multi-entry request is answered for its own topic-partition, in request order, and latest offsets never go backwards.",
  ["inputs", "histories", "schedules"],
  "all log contents with non-decreasing timestamps, all query times, all entry combinations, racing with posts",
  "kafka-go issues list-offsets for one partition at the start of a read; by-time lookup, multiple entries and races with posting are not tested.",
  ["list_offsets.go", "datastore.go"],
  [("reverse scan for the boundary", "list_offsets.go listOffsetsV1")],
  [("Records", "log of the partition", "datastore.go")],
  ["list-offsets replies"])

p("C10", "A requested stop always terminates, whatever clients do, and frees everything",
  "After a stop is requested, waiting for termination returns within a bounded time (10 s) whatever the clients are doing: idle, waiting in long fetches, in the middle of sending a request, pipelining, not reading their replies, connecting at that very moment, or already gone. When it has returned, the port is free and can be bound again, every accepted connection is closed, and no goroutine of the server is left running.",
  ["schedules", "fault_sequences", "histories"],
  "all stop instants and client states, including concurrent connects and clients with full receive windows",
  "Tests stop with one idle or polling well-behaved client; a client with a full window, a half-sent frame or a connect racing with the stop is never present.",
  ["kafka-mock.go", "kafka-client.go"],
  [("listener close and cancellation", "kafka-mock.go RequestStop"), ("wait groups", "kafka-mock.go run, WaitForTermination"), ("per-connection exit on cancellation", "kafka-client.go handle")],
  [("wg, active", "running tasks", "kafka-mock.go KafkaMock")],
  ["time at which WaitForTermination returns", "port, connections and goroutines afterwards"])

p("C11", "Stopping completes requests already in progress instead of cutting them off",
  "When the program finishes requests, requests a stop or restarts, a request the server is already working on is completed and its whole reply delivered to a client that keeps reading, a fetch that is waiting is answered at once with whatever was posted before the call, and only then is the connection closed. No reply is ever truncated, duplicated or garbled by a shutdown, and a request whose reply was delivered has taken its full effect.",
  ["schedules", "histories", "fault_sequences"],
  "all instants of finish, stop or restart relative to every step of request processing on several connections",
  "Tests call these once, at a quiet moment, through a client that hides a lost reply by reconnecting.",
  ["kafka-client.go", "kafka-mock.go", "fetch.go", "kafka-message.go"],
  [("cancellation checked between requests and while waiting", "kafka-client.go handle, fetch.go fetchV2"), ("single writer per connection", "kafka-message.go send")],
  [("l", "cancellable context of the running server", "kafka-mock.go KafkaMock")],
  ["byte streams of every connection around the shutdown"])

p("C12", "Restart keeps all data and resumes service on the same port",
  "When a restart has completed, the server accepts connections at once on the same port (after a start following a termination: within 250 ms), and shows exactly the same topics, partitions, records, offsets and committed offsets as before, plus whatever was posted or set meanwhile. This holds for any number of restarts, whatever clients were doing when each began.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of operations and restarts, with clients and posters active during each restart",
  "Two tests restart once, at rest, and look at one record.",
  ["kafka-mock.go", "datastore.go"],
  [("data store outlives the listener", "kafka-mock.go Start/Restart"), ("wait for the new listener", "kafka-mock.go Restart")],
  [("ds", "data shared by all runs of the server", "kafka-mock.go KafkaMock")],
  ["connects and replies right after Restart returns"])

p("C13", "Lifecycle calls are safe in every state and return",
  "Start, stop, finish-requests, wait and restart may be called in any order and state (never started, starting, running, finishing, stopping, terminated), repeatedly, and stop, finish-requests, wait and all data calls may be called from many goroutines at once, also concurrently with start: none panics, deadlocks or leaves a server that a later stop cannot stop. The one exception is starting a server that is already running, which panics without harming it.",
  ["schedules", "histories"],
  "all sequences of lifecycle calls by an owner, with concurrent stop, finish, wait and data calls from other goroutines",
  "Tests use three fixed sequences from one goroutine.",
  ["kafka-mock.go"],
  [("started/stopped flags and initializing wait group", "kafka-mock.go Start/RequestStop/WaitForTermination")],
  [("started, stopped", "lifecycle state", "kafka-mock.go KafkaMock")],
  ["return of each call", "whether the server serves or is gone, as the calls imply"])

p("C14", "Metadata, coordinator and group assignment describe exactly what exists",
  "Metadata for a topic lists each of its existing partitions exactly once, with a leader that is a listed broker whose address reaches this server; asking for all topics (null list) lists every existing topic, and the coordinator reply gives an address that reaches this server. A group sync assigns every existing topic-partition exactly once, and all these views contain everything created before the request was sent and nothing never created, even while topics are being created.",
  ["inputs", "histories", "schedules"],
  "all sets of topics and partitions, all query forms, racing with creation",
  "Tests use a single topic with partition 2 and only look at messages that arrive.",
  ["metadata.go", "find_coordinator.go", "join_group.go", "sync_group.go", "datastore.go"],
  [("partition listing", "metadata.go metadataV1"), ("assignment of everything to the member", "sync_group.go makeMemberAssignment")],
  [("Topics, Partitions", "what exists", "datastore.go")],
  ["metadata, find-coordinator, join-group and sync-group replies"])

p("C15", "A real consumer-group client reads every record in order, resuming from commits",
  "A kafka-go consumer-group reader connected to the server receives every record of its topics in offset order without gaps, whatever batching, commit interval and record sizes (within its limits) are used and while records are still being posted. After it is closed, its connections are cut or the server restarts, the next reader of the group continues at the committed offset: never past an uncommitted record, and never before a committed one unless the offset was explicitly set back.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "all posting patterns, reader configurations, connection cuts and restarts, in all interleavings",
  "Tests do this at one fixed pace with one topic; reconnects and restarts happen only at rest.",
  ["fetch.go", "join_group.go", "sync_group.go", "offset_commit.go", "offset_fetch.go", "list_offsets.go", "metadata.go", "heartbeat.go", "leave_group.go"],
  [("the group protocol as kafka-go drives it", "join_group.go, sync_group.go, heartbeat.go, offset_*.go, fetch.go")],
  [("GroupCommittedOffsets", "resume position", "datastore.go")],
  ["messages delivered by the real client"])

p("C16", "The server is free of data races under every supported use",
  "No execution of the public calls from any goroutines together with any traffic from any clients contains two unsynchronised conflicting memory accesses: every value read is the result of some ordered write, never a torn or stale one.",
  ["schedules", "histories"],
  "all interleavings of posting, creating, setting, all request types, connects, disconnects, stops and restarts",
  "The stable tests run without the race detector, and one schedule per run exercises few conflicting pairs.",
  ["kafka-mock.go", "datastore.go", "kafka-client.go", "list_offsets.go", "sync_group.go", "offset_commit.go", "offset_fetch.go", "fetch.go", "metadata.go"],
  [("mutexes of server, store, topic and partition", "datastore.go, kafka-mock.go")],
  [("all shared state", "store, lifecycle fields, client table", "datastore.go, kafka-mock.go")],
  ["happens-before race detector on simulated schedules"])

p("C17", "A connection's resources are released as soon as its client is gone",
  "When a client disconnects, half-closes after its last request or its connection breaks, the server closes its side and ends everything it ran for that connection within a bounded time (after finishing a request still in progress), without waiting for a stop. Over any number of connections the server holds resources only for the live ones.",
  ["fault_sequences", "histories", "schedules"],
  "all sequences of connects, requests and disconnects of every kind",
  "Tests open a handful of connections and never look at what remains.",
  ["kafka-client.go", "kafka-mock.go"],
  [("exit of the connection task", "kafka-client.go handle"), ("removal from the client table", "kafka-mock.go run")],
  [("clients", "table of live connections", "kafka-mock.go KafkaMock")],
  ["open server-side sockets, descriptors and goroutines after disconnects"])

p("C18", "Nobody waits for somebody else's client",
  "However many clients are idle, waiting in long fetches, in the middle of a request, not reading their replies, or connecting and leaving, a post, topic creation, offset set or finish-requests call returns at once, and any other client's connect or request that need not wait for data is answered promptly. A waiting fetch never delays or hides data from another client.",
  ["schedules", "fault_sequences", "histories"],
  "all combinations of slow, stalled and waiting clients with active ones",
  "Tests have one client at a time (or two that come and go) and no latency assertion.",
  ["fetch.go", "kafka-client.go", "kafka-mock.go", "datastore.go"],
  [("one goroutine per connection, locks never held while waiting", "kafka-client.go handle, fetch.go fetchV2")],
  [("mu", "partition and server locks", "datastore.go, kafka-mock.go")],
  ["simulated duration of calls and requests"])

p("C19", "Servers in one process are independent of each other",
  "Any number of servers created in one process, also concurrently, share nothing: records, topics, partitions, committed offsets, connections and addresses of one never appear in another, and starting, stopping, finishing or restarting one never affects the service of the others.",
  ["histories", "schedules", "configurations"],
  "all interleavings of construction, lifecycle calls and traffic on several servers",
  "Every test creates one server and no test runs two at once.",
  ["kafka-mock.go", "api-keys.go", "datastore.go"],
  [("one store per server", "kafka-mock.go NewKafkaMock"), ("shared API table built once under a lock", "api-keys.go initializeApis")],
  [("apiTable, apiVersions", "process-wide read-only tables", "api-keys.go")],
  ["replies of each server"])

p("C20", "The wire codec encodes and decodes every value faithfully",
  "For every value of every wire type (fixed and variable-length integers, strings, bytes, arrays, tags, structures), encoding follows the Kafka wire format and decoding an encoding yields the value again, consuming exactly its bytes.",
  ["inputs"],
  "all values of all supported types",
  "The tests sample a few values per type.",
  ["encoder.go", "decoder.go", "outbound-utils.go"],
  [("reflection-driven encoder and decoder", "encoder.go encodeObject, decoder.go peekObject")],
  [], ["bytes produced and values decoded"])

p("C21", "A shortage of descriptors or an odd socket error takes nobody else down",
  "While the process has no free file descriptor (accepting or duplicating a socket fails), and when a connection's socket reports any error number, the server neither panics nor stops listening. Established connections go on being served, posts, queries and a stop work as ever, and clients that connected meanwhile are served within two seconds after the shortage ends. A socket error ends at most the connection that reported it.",
  ["fault_sequences", "schedules", "histories"],
  "all shortages at arbitrary moments, all error numbers of reads and writes, all interleavings with traffic and lifecycle calls",
  "No test makes a system call fail.",
  ["kafka-mock.go", "kafka-client.go", "net-utils.go"],
  [("accept loop goes on after a shortage", "kafka-mock.go run"), ("read and write errors end the connection's task", "kafka-client.go"), ("classification of socket errors", "net-utils.go")],
  [("listener", "listening socket", "kafka-mock.go KafkaMock")],
  ["process survival, service of all other connections, connects after the shortage"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
