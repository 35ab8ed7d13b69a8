#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "A trace is assembled completely whatever order its spans arrive in",
  """For every set of spans of a trace, collected in any order, in any number of calls and from any number of
  goroutines, the stored trace contains every collected span exactly once and on each span every collected
  annotation exactly once, in the order the calls for that span completed. Every span whose parent was collected
  hangs under that parent (the span at the top excepted), and once the root span was collected it is the top, so the final
  tree does not depend on the arrival order. Ill-formed parent links (a span that is its own parent, a cycle)
  lose no span and never make the tree cyclic.""",
  ["schedules", "histories", "inputs"],
  "all arrival orders, batchings and interleavings of the spans and annotations of one or several traces, including ill-formed parent links",
  "Tests replay a few dozen hand-written or random single-threaded orders; none interleaves two collectors inside one insertion, splits annotations over calls, or uses cyclic parents.",
  ["store.go", "trace.go"],
  [("temporary root and re-attachment of temporary children", "store.go MemoryStore.collectNoLock/insert/reattachChildren"),
   ("store mutex", "store.go MemoryStore.Collect")],
  ["Store.Trace", "Queryer.Traces", "Trace.FindSpan"],
  [("trace", "trace id to tree", "store.go MemoryStore"), ("span", "span index into the trees", "store.go MemoryStore")])

p("C02", "The in-memory store is linearizable and reads are stable snapshots",
  """Collect, Trace, Traces and Delete on the in-memory store, called from any number of goroutines, behave as if each took
  effect at one instant between call and return: a read returns every span and annotation whose Collect returned
  before it began, none that began after it ended, and reports a deleted or never collected trace as not found.
  A returned trace never changes afterwards, whatever is collected or deleted later, rearranging a returned
  trace does not change the store, and data given to one Collect call never appears in another span, call or store.""",
  ["schedules", "histories"],
  "all interleavings of concurrent Collect/Trace/Traces/Delete calls, and all later histories of the store after a read",
  "Tests call the store from one goroutine and compare immediately; a torn read, a returned live tree or a shared slice only shows under particular interleavings or later calls.",
  ["store.go"],
  [("store mutex", "store.go MemoryStore.Collect/Trace/Traces/Delete"), ("copies made on retention and on read", "store.go MemoryStore")],
  ["Store.Trace", "Queryer.Traces", "DeleteStore.Delete"],
  [("trace", "trace id to tree", "store.go MemoryStore")])

p("C03", "Saving and restoring the store reproduces it, also for what follows",
  """What the in-memory store writes out while other goroutines collect and delete is its exact content at one instant between
  the start and the end of the write. A store that reads it back is indistinguishable from the saved one,
  both in the traces it returns at once and in the effect of every later collection or deletion. A restore that
  fails (truncated data, read error) reports an error and leaves the store as it was.""",
  ["histories", "schedules", "fault_sequences"],
  "all histories before the save and after the restore, all interleavings of collections with the save, all truncation points and read errors",
  "The test saves one small store once with nothing running and compares the immediate content; it never collects into a restored trace, never overlaps a save with a collection, never cuts the data.",
  ["store.go"],
  [("gob image of both maps under the store mutex", "store.go MemoryStore.Write"), ("index rebuilt on restore", "store.go MemoryStore.ReadFrom")],
  ["PersistentStore.Write", "PersistentStore.ReadFrom", "Store.Trace"])

p("C04", "The periodically persisted file is always one complete, recent snapshot",
  """At every instant, and after a process crash or a power loss at any point, the file that periodic persistence maintains is either absent
  (nothing was persisted yet), or loads completely and equals the store's content at some single instant; a failed or
  interrupted attempt never replaces a good file. While the disk works, what was collected is in the file
  within one persist interval plus the time one write takes, and the file never goes back to an older snapshot.
  When a step of persisting fails, the failure is returned to the caller instead of being ignored.""",
  ["crash_points", "fault_sequences", "schedules"],
  "all crash and power-loss points, disk-full, I/O-error and short-write sequences, and interleavings of collection with persisting",
  "The only test lets one persist succeed on a real disk; no crash point, no disk error, and no reordering of the rename before the data is ever exercised.",
  ["store.go"],
  [("write to a temporary file, sync, then rename over the target", "store.go PersistEvery"), ("snapshot under the store mutex", "store.go MemoryStore.Write")],
  ["the persisted file after every step and after restart", "PersistEvery result"])

p("C05", "The chunked collector delivers everything it accepted exactly once",
  """Every annotation accepted by a chunked collector is handed to the underlying collector exactly once, under its own
  span and in the order the calls for that span completed, by the next automatic flush (at most the minimum interval, plus the
  time the flushes take, after it was accepted) or by an explicit flush, whichever comes first. The only exceptions are
  the documented drops (queue limit, flush timeout), which are total for the affected queue or the rest of the
  affected flush and are reported as a dropped queue. An error of the underlying collector loses nothing but the failed call and is returned by the
  flush, or by the next Collect after an automatic flush (the last such error, where several automatic flushes failed since).
  Flushes that overlap may interleave their hand-overs.""",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of concurrent Collect calls, automatic and explicit flushes, with slow, blocking and failing underlying collectors",
  "Tests use one or two goroutines and real sleeps and compare final sums; the windows between draining the queue, a concurrent Collect and the next flush are never steered.",
  ["collector.go"],
  [("queue swapped out under the mutex", "collector.go ChunkedCollector.Flush"), ("flush loop", "collector.go ChunkedCollector.start"),
   ("error handed to the next Collect", "collector.go ChunkedCollector.Collect")],
  ["underlying Collector.Collect calls", "ChunkedCollector.Collect/Flush results"],
  [("pendingBySpanID", "queue of accepted annotations", "collector.go ChunkedCollector")])

p("C06", "The chunked collector's queue, blocking and flush time stay bounded",
  """The data a chunked collector holds between flushes never exceeds its configured maximum size: a collection that would
  exceed it drops the queue and returns the queue-dropped error, and one that fits is never refused. Collect never
  waits for the underlying collector, however slow or stuck that is. A flush makes no further call to the underlying collector
  once one has returned after the flush timeout was exceeded, drops the rest, returns the queue-dropped error, and the collector goes on
  working for later collections.""",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings and sizes of collections against limits, and all delays and stalls of the underlying collector",
  "Tests use one overflow size and one sleep length on the real clock; no test has the underlying collector blocked while others collect.",
  ["collector.go"],
  [("size accounting", "collector.go ChunkedCollector.Collect"), ("timeout check after each call", "collector.go ChunkedCollector.Flush"),
   ("queue swapped out so the mutex is not held while delivering", "collector.go ChunkedCollector.Flush")],
  ["ChunkedCollector.Collect/Flush results", "underlying Collector.Collect calls"],
  [("queueSizeBytes", "accounted queue size", "collector.go ChunkedCollector")])

p("C07", "Stopping the chunked collector is final, safe and prompt",
  """Stop may be called at any time, before the first collection, repeatedly and concurrently with everything else,
  without blocking or panicking. Once it has returned, every Collect fails and adds nothing, no automatic flush
  begins, and the background activity ends. What was accepted before is still handed over, once, by an explicit flush.""",
  ["schedules", "histories"],
  "all interleavings of Stop with Collect, Flush, the flush timer and other Stop calls",
  "Tests stop a collector once, at the end, when nothing else is running.",
  ["collector.go"],
  [("stopped flag and stop channel", "collector.go ChunkedCollector.Stop/start")],
  ["ChunkedCollector.Collect results", "underlying Collector.Collect calls", "running goroutines"],
  [("started, stopped, stopChan", "life cycle", "collector.go ChunkedCollector")])

p("C08", "Collection over the network never corrupts, mixes or silently loses data",
  """Whatever the network does (delays, arbitrary fragmentation, resets, partitions, restarts of the server), the server's collector only
  ever receives collections that a client made, complete and under the right span, those of one connection in
  the order they were sent, and never more often than the client put them on a connection (more than once only when an attempt had failed).
  Concurrent collections on one client never mix. A collection that returned success was accepted whole by a connection; on a connection that does not fail every collection that returned success arrives,
  and after the faults stop a client reconnects by itself and its collections arrive again; a collection the
  server is bound to refuse for its size is reported as an error, not as success.""",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of concurrent collections, all fragmentations, delays, resets, partitions and server restarts",
  "Tests use a real loopback connection with one client, one write per packet and no fault except one server restart.",
  ["collector.go", "span.go", "internal/wire/collector.pb.go"],
  [("length-delimited packets", "collector.go RemoteCollector.collect, CollectorServer.handleConn"),
   ("one packet at a time under the client mutex, one reconnect per collection", "collector.go RemoteCollector.collectAndRetry")],
  ["Collector behind CollectorServer", "RemoteCollector.Collect results"])

p("C09", "No client or network event can disturb the collector server for others",
  """Malformed, truncated, oversized or hostile input, missing optional fields, abrupt disconnects, idle connections and
  failing or temporary accept errors affect at most the connection they occur on: the server process keeps running, keeps
  accepting, and delivers every well-formed collection of the other connections, and those that
  preceded the malformed input on the same connection. A packet that follows the documented wire format is always accepted.
  A finished connection is closed and releases its resources, and when the listener is closed the server stops
  instead of spinning.""",
  ["inputs", "fault_sequences", "schedules"],
  "all byte streams from clients, interleaved in any way with those of other clients, and all accept errors",
  "Tests only connect the project's own well-behaved client; no malformed byte or accept error ever reaches the server.",
  ["collector.go", "span.go", "event.go", "store.go"],
  [("one goroutine per connection, which ends on the first error", "collector.go CollectorServer.Start/handleConn"),
   ("size limit of packets", "collector.go maxMessageSize"), ("optional fields read through accessors", "span.go spanIDFromWire")],
  ["Collector behind CollectorServer", "server goroutines and connections"])

p("C10", "Age-based eviction never removes young traces and never forgets old ones",
  """A store limited by age never deletes a trace before the minimum age has passed since it was first collected
  (for one that was already stored: since the limit began to act; for one that was deleted and came back: since it came back), whatever else is collected meanwhile. As long as collection
  continues, every trace older than that, including one that kept receiving
  data, came back after an eviction, or was in the store before, is deleted within about one further period, and eviction neither
  blocks nor fails collection.""",
  ["schedules", "histories"],
  "all timings and interleavings of collections, reads and the asynchronous deletions, with slow deletions and clock steps",
  "The test collects two traces around one real sleep; eviction racing with collection of the same trace, slow deletion and restored traces are never exercised.",
  ["store.go"],
  [("first-seen times, eviction pass at most once per period, asynchronous deletion", "store.go RecentStore.Collect/evictBefore")],
  ["DeleteStore.Delete calls", "Store.Trace"],
  [("created", "first-seen time per tracked trace", "store.go RecentStore")])

p("C11", "A size-limited store keeps exactly the newest traces, at most its maximum",
  """A store limited to N traces never holds more than N at any instant, under any number of concurrent collectors and for
  every trace ID. It deletes only to make room for a new trace, always the one that entered longest ago, and never loses data
  of the N traces that entered last; collecting for a trace it holds evicts nothing, and traces deleted through it no longer count. Failing deletions are reported and do not break the limit or the order.""",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all sequences and interleavings of collections over any trace IDs, with failing deletions",
  "The test inserts a few sequential IDs from one goroutine.",
  ["store.go"],
  [("ring of trace IDs in insertion order under a mutex", "store.go LimitStore.Collect")],
  ["content of the underlying store after every call", "DeleteStore.Delete calls"],
  [("ring, traces", "kept traces in insertion order", "store.go LimitStore")])

p("C12", "Generated IDs never repeat, and spans link to the right parent",
  """IDs generated by any number of goroutines, and by successive processes, are all distinct, also when the random source returns short reads. A new child span
  has the trace of its parent, the parent's span as its parent and a fresh span ID; a new root has no parent and a fresh
  trace and span ID.""",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of concurrent ID generation, all process restarts and all read patterns of the random source",
  "Tests generate IDs in one goroutine of one process; two callers inside the generator or a short read of the random source never occur.",
  ["id.go", "span.go", "recorder.go"],
  [("key stream consumed under a mutex", "id.go generateID"), ("full read of the random source at start", "id.go init")],
  ["NewRootSpanID", "NewSpanID", "Recorder.Child"],
  [("ctr, n, b", "generator state", "id.go")])

p("C13", "HTTP tracing attributes every request to its own span, linked across hops",
  """For any number of concurrent requests through instrumented clients and servers, with failing and reordered requests, every request handled by the server
  middleware produces exactly one server record and every request sent through the tracing
  transport exactly one client record, each on the span, with the name, method, path, status and times, of that request and of no other.
  A server uses the span the request carries in its span header, else a fresh child of the parent it carries, else a fresh root, the handler
  sees that same span, and the client's span in the header is a fresh child of the transport's recorder, so the spans of one call
  chain over several hops form one connected trace.""",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of concurrent requests over several hops sharing one transport and one middleware, with network failures",
  "Tests send one request at a time through an in-process server.",
  ["httptrace/client.go", "httptrace/server.go", "httptrace/header.go", "span.go"],
  [("per-request clone, child recorder and header", "httptrace/client.go Transport.RoundTrip"),
   ("span from header and per-request response recorder", "httptrace/server.go Middleware"),
   ("header precedence", "httptrace/header.go getSpanID")],
  ["collected annotations", "request headers at the server", "span in the handler's context"],
  [("requests", "in-flight clones", "httptrace/client.go Transport")])

p("C14", "HTTP tracing never changes or breaks the traffic it observes",
  """Whatever span headers a request carries (malformed ones included) and however the collector behaves (errors, slowness), an instrumented
  server runs the handler exactly once and the client receives the status, headers and body the handler
  produced; an instrumented client returns exactly the response or error of its underlying transport, does not
  modify the request it was given, and keeps no state for finished requests. The status recorded is the one the client received.""",
  ["inputs", "fault_sequences", "schedules"],
  "all span headers, handler behaviours, collector failures, network failures and cancellations",
  "Tests send well-formed headers to a working collector; no malformed header reaches the middleware and no collector error occurs.",
  ["httptrace/client.go", "httptrace/server.go", "httptrace/header.go", "recorder.go"],
  [("request cloned before the header is added", "httptrace/client.go cloneRequest"), ("pass-through response recorder", "httptrace/server.go responseInfoRecorder"),
   ("collection errors kept in the recorder", "recorder.go Recorder.error")],
  ["client-side responses and errors", "requests as the caller sees them afterwards", "handler invocations"])

p("C15", "Credentials in redacted headers never reach a collector",
  """The value of a header or trailer configured for redaction (Authorization by default), on a request or a response, in any letter case,
  repeated, set before or during handling, or arriving as a trailer, never appears in anything that HTTP tracing hands to
  its collector, while all other headers are recorded.""",
  ["inputs", "histories", "schedules"],
  "all header and trailer sets and all points of the request's life at which they appear or change",
  "Tests redact one static header of one request.",
  ["httptrace/client.go", "httptrace/server.go"],
  [("redaction at conversion", "httptrace/client.go redactHeaders/isRedacted")],
  ["all annotation bytes handed to the collector", "bytes sent to the collector server"])

p("C16", "A recorder delivers once, at finish, and never hurts its application",
  """Nothing recorded as an event on a span is handed to the collector before Finish, and Finish hands over exactly
  what was recorded, once and in order, even if called again. Every failure (of the collector, of an event, or a
  repeated Finish) is reported exactly once, through the logger if there is one and otherwise by the next Errors call, also under
  concurrent use of Errors, and never as a panic of or an error to the application; child recorders share the collector and keep their data apart.""",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of recorder calls over recorders sharing collectors, with collector failures and concurrent error readers",
  "Tests use a recorder at a time with an always-failing or always-working collector.",
  ["recorder.go", "event.go"],
  [("annotations buffered until Finish", "recorder.go Recorder.Event/Finish"), ("error list under a mutex", "recorder.go Recorder.error/Errors")],
  ["Collector.Collect calls", "Recorder.Errors", "logger output"],
  [("annotations, finished, errors", "recorder state", "recorder.go Recorder")])

p("C17", "OpenTracing spans arrive whole on the right trace, or not at all",
  """Every finished sampled OpenTracing span yields its operation name, tags, baggage, logs with their times and its start and
  end, all on that span's own trace, span and parent IDs, and an unsampled span yields nothing; one sampling decision
  holds for the whole trace across in-process and injected/extracted contexts. This holds for concurrent spans of shared
  traces, and a failure of the collector for one item neither loses the others nor reaches the application, and is logged (once, or each time if verbose).""",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of concurrently started, modified and finished spans, sampling choices and collector failures",
  "Tests record single spans into a working in-memory store from one goroutine.",
  ["opentracing/recorder.go", "opentracing/tracer.go", "opentracing/json.go"],
  [("conversion of a raw span", "opentracing/recorder.go Recorder.RecordSpan"), ("error recorded as a log, then logged once", "opentracing/recorder.go Recorder.logError")],
  ["Collector.Collect calls", "logger output"],
  [("logOnce", "first error logged", "opentracing/recorder.go Recorder")])

p("C18", "Fan-out to several stores keeps the stores independent and complete",
  """A combined store hands every collection, complete and unmixed, to its stores in order up to the first that fails, returns that
  failure, and reads from the first store that has the trace; a store reporting not-found is skipped and any other read error is returned. A
  combined query returns each trace any of its members holds exactly once. This holds under concurrent callers and failing stores, and one store never sees data another one added.""",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of collections and reads over several stores and all failure sequences of the stores",
  "Tests use two healthy stores, one call at a time.",
  ["multi.go", "store.go"],
  [("sequential fan-out", "multi.go multiStore.Collect/Trace"), ("union by trace ID", "multi.go multiQueryer.Traces")],
  ["calls to each underlying store", "results of the combined store"])

p("C19", "End to end, the collected trace is exactly what the applications recorded",
  """In a deployment of several applications recording through chunked and remote collectors to one server, every span an application
  finished is, once the network works and buffers are flushed, stored exactly once, with every annotation and in
  the right trace, unless an error or a dropped queue was reported or its connection failed meanwhile; nothing is ever stored that
  no application recorded, under any interleaving, delay, fragmentation, disconnection, application crash and server restart from its persisted file.""",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all interleavings of several applications and the server, all network fault sequences and all crash points",
  "No test runs the whole pipeline; the pieces are tested alone on a healthy loopback connection.",
  ["collector.go", "recorder.go", "store.go", "span.go", "event.go"],
  [("recorder, queue, packet stream, server, store", "recorder.go, collector.go, store.go")],
  ["Store.Trace and Queryer.Traces on the server", "errors and logs at the applications"])

p("C20", "Uploads, permalinks and exports in the web UI reproduce traces faithfully",
  """A trace exported from the web UI, or linked by permalink, and uploaded into another instance is stored there with the
  same spans, parents and annotations; an upload never alters a trace that exists already, however many
  uploads of the same trace run at once, and a trace deleted since is stored again when it is uploaded again. A bad request, a hostile upload or a store error gets an error response and affects no other request
  and no stored trace, and pages keep being served while traces are collected and deleted.""",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of uploads, page views, collection and deletion, all uploaded documents and store failures",
  "The web UI has no tests at all.",
  ["traceapp/app.go", "traceapp/handler.go", "traceapp/trace.go", "traceapp/httputil.go", "traceapp/tmpl.go"],
  [("existence check before collecting", "traceapp/app.go uploadTraces"), ("buffered response and panic recovery", "traceapp/handler.go handlerFunc")],
  ["HTTP responses", "Store.Trace"])

p("C21", "A restarted server resumes from what it had persisted",
  """After a crash or restart of the serve command at any point, the server comes back with every trace it held one persist interval (plus
  the time a write takes) before the crash, intact and still open to further data, and never refuses to start because of
  what an earlier incarnation left on disk. Traces restored that way are still subject to the configured age limit. With
  authentication configured, no request without the credentials reaches the UI.""",
  ["crash_points", "fault_sequences", "schedules", "configurations"],
  "all crash points and restart histories of the server under continuing collection, and all server configurations simulated",
  "The command has no tests.",
  ["cmd/appdash/serve_cmd.go", "store.go", "collector.go", "traceapp/app.go"],
  [("load at start, persist in the background, age-limited store", "cmd/appdash/serve_cmd.go ServeCmd.Execute")],
  ["collector port and HTTP port of the restarted server", "the persisted file"])

p("C22", "Shared collectors, stores and tracers are free of data races",
  """Two goroutines that use one store, one collector or collector client, one server, one tracing transport or middleware, one tracer, or the
  ID generator at the same time never access the same memory in conflicting ways without synchronisation, and the data one call
  hands over is not touched by it after it was handed over to another goroutine.""",
  ["schedules"],
  "all interleavings of the public operations documented or intended for concurrent use",
  "Only a handful of tests start goroutines, the suite does not run under the race detector, and a race that happens to be benign in one schedule is not visible in results.",
  ["store.go", "collector.go", "recorder.go", "id.go", "httptrace/client.go", "opentracing/recorder.go"],
  [("mutexes of the shared objects", "store.go, collector.go, id.go, httptrace/client.go, recorder.go")],
  ["memory accesses of the instrumented code under the simulated schedules"])

p("C23", "Events recorded anywhere come out of the collected trace equal",
  """Events of registered types that are recorded on a span, several of different types on one span and by many tasks at once (also when
  the types are met for the first time), come out of the collected trace once each and equal to what was recorded, whether they went straight to a store, through a
  chunked collector, over the network, or through a saved and restored store. Equal means every exported field of a supported kind: scalars, strings,
  times (as instants), durations, pointers to them or to structs (nil ones included), nested structs, lists of scalars, maps from strings to scalars.
  Events of types unknown to the reader and annotations of others are ignored and disturb nothing. The time span reported for a span reaches from the earliest start to the latest
  end of its timespan events. No set of annotations makes the conversion back of the built-in events panic.""",
  ["inputs", "schedules", "histories"],
  "all values of all event types, all combinations on a span, all interleavings of the tasks that record and read them, and all routes to the reader",
  "Tests convert a few literal structs directly, in one goroutine; no nil pointers, extreme numbers, empty lists followed by other fields, concurrent first uses or routes.",
  ["event.go", "reflect.go", "recorder.go", "trace.go"],
  [("reflection-based flattening and its inverse over sorted keys", "reflect.go flattenValue, unflattenValue"), ("one schema annotation per event", "event.go MarshalEvent, UnmarshalEvents"),
   ("earliest start, latest end", "trace.go Trace.TimespanEvent")],
  ["Recorder.Event/Errors", "UnmarshalEvents", "Trace.TimespanEvent"])

p("C24", "IDs and span IDs keep their identity through every form they travel in",
  """A span ID that travels, in any sequence and with any number of tasks at once, through its text, formatted with more text, as JSON string or number, in a trace's JSON, as a header, on a
  request through the middleware, in a packet, in a store's file, in the address and links of a page of the web UI, or in an injected tracer context,
  is the same ID at the end, for all values. A text that is no ID (or no span ID) is refused by every parser with an error and without a
  result, one that is an ID written differently (case, leading zeros) is read as that ID, and a request whose span ID header is none is
  handled under a new root span.""",
  ["inputs", "schedules", "histories"],
  "all IDs, all texts, all sequences of forms, by all interleavings of concurrent users",
  "Tests cover a few literal values of each form, one at a time.",
  ["id.go", "span.go", "httptrace/header.go", "httptrace/server.go", "collector.go", "store.go", "traceapp/router.go", "opentracing/recorder.go"],
  [("fixed-width hexadecimal form", "id.go ID.String, ParseID, UnmarshalJSON"), ("slash-separated form", "span.go SpanID.String, Format, ParseSpanID"),
   ("header", "httptrace/header.go"), ("routes", "traceapp/router.go")],
  ["parsed IDs", "collected span IDs", "span ID of the handler", "links"])

p("C25", "The Python clients send what the Go server accepts",
  """Every span the Python collectors send is accepted by the collector server with the same IDs and annotations.""",
  ["inputs", "fault_sequences"], "all spans and connection failures of the Python clients",
  "No test runs the Python code.", ["python/appdash/sockcollector.py", "python/appdash/twcollector.py"], [("length-delimited protobuf", "python/appdash")], ["bytes on the connection"])

p("C26", "The web UI's derived views agree with the collected data",
  """The profile, timeline, aggregate and dashboard views of the web UI, requested at any time while traces are being collected, are computed
  from one consistent state that holds everything collected before the request and nothing never collected. A profile has one row for each span of the
  trace (or of the selected span's part of it), with the span's name and ID, the time of its longest timespan event and sums and counts that add up over the spans below it. A timeline has exactly one bar for each timespan event of a span that (as all its
  ancestors on the page) has times, from the event's start to its end, labelled with that event's duration, with the span's recorded data. The aggregate view shows for each
  operation the sum of its times over the selected traces (at least 1), whatever order they are visited in, and the dashboard one row per operation whose figures
  are those of the collected traces in the requested period. When the store fails, the view is an error page and not a wrong one. Looking at a view changes nothing.""",
  ["schedules", "histories", "inputs"],
  "all traces, all selections and periods, all interleavings of requests with the collection of the traces they show",
  "The tests compute a profile or an aggregate of one fixed trace, directly; none requests a view while data arrives, spans with several timespan events, or several traces with operations of zero length.",
  ["traceapp/prof.go", "traceapp/vis.go", "traceapp/aggregate.go", "traceapp/dashboard.go", "trace.go", "aggregate.go", "store.go"],
  [("recursive profile rows", "traceapp/prof.go calcProfile"), ("timeline items", "traceapp/vis.go d3timelineInner"), ("sums per label", "traceapp/aggregate.go aggregate"),
   ("aggregation events", "traceapp/dashboard.go serveDashboardData")],
  ["responses of the web UI's view routes"])

p("C27", "The send and demo commands deliver what they record and report what they could not",
  """The send command returns success only if every one of its 60 sample traces was accepted by a connection to the collector server, and then each arrives
  whole (a chain of operations under a root whose times add up to the root's) unless a connection or the server failed after accepting it; when the server is missing, refuses, speaks
  another protocol or fails while data is being sent the command returns an error, and it never hangs, panics or sends malformed data. The demo command keeps serving
  both its sites; every visit of the demo is recorded under a trace of its own, or the one the visitor's headers name, its page links to that trace, and the linked page shows exactly the requests
  made for this visit, with their durations, however many visits overlap.""",
  ["schedules", "fault_sequences", "inputs"],
  "all failures of the server and network at all times, all overlaps of visits, all random sample data",
  "No test runs any command; the failures and overlaps need other processes.",
  ["cmd/appdash/send_cmd.go", "cmd/appdash/sample_data.go", "cmd/appdash/example_app.go", "recorder.go", "collector.go", "httptrace"],
  [("success reported", "cmd/appdash/send_cmd.go SendCmd.Execute"), ("recorder errors checked", "cmd/appdash/sample_data.go sampleData"), ("link to the visit's trace", "cmd/appdash/example_app.go demoApp.ServeHTTP")],
  ["result of the send command", "traces stored at the server", "pages of the demo", "trace pages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
