P("C01", "Every ended sampled span reaches every exporter exactly once, complete",
  "A sampled span is delivered exactly once, during its first End call and before that call returns, to every exporter registered throughout that call, no matter how often or from how many goroutines End and exporter (un)registration are called; an unsampled or unended span is delivered to nobody, and an exporter gets nothing for spans ended before it was registered or after it was unregistered. The delivered record carries the span's final name, status, attributes, annotations, message events, links, span kind and start/end times (end not before start), including every annotation whose call returned before End began. A delivered record never changes afterwards, even when the ended span is mutated further.",
  ["schedules", "histories"], "every interleaving of End, span mutation and exporter registration, and every history of such operations",
  "The tests end one span on one goroutine with one exporter registered; exactly-once is about racing End calls and exporter churn, which no test provokes.",
  ["trace/trace.go", "trace/export.go"],
  [("End once", "trace/trace.go span.End"), ("copy-on-write exporter set", "trace/export.go RegisterExporter/UnregisterExporter"), ("export record", "trace/trace.go makeSpanData")],
  ["trace.Exporter.ExportSpan", "trace.Span.End"],
  "Random histories against an executable span model and race rounds under the race detector with injected scheduling points; assurance is for the executions observed.")
P("C02", "Span limits keep the newest entries and count every dropped one exactly",
  "A span never holds more attributes, annotations, message events or links than the limits in force when it was started: the newest annotations, message events and links are kept in order, and the least recently set attribute is evicted first, setting an existing key counting as a new use. For each kind the number kept plus the reported dropped count equals the number added, counting for attributes only sets of a key not currently held. Observing a running span (listing it as active) shows its current content and never alters what it finally reports.",
  ["histories", "configurations", "schedules"], "every limit configuration (1..many), every sequence of additions and observations, and concurrent additions",
  "The tests overflow one collection once with one limit; eviction order over histories, repeated keys, observation in between and concurrent additions are untested.",
  ["trace/lrumap.go", "trace/evictedqueue.go", "trace/trace.go"],
  [("attribute LRU", "trace/lrumap.go"), ("bounded queue", "trace/evictedqueue.go"), ("dropped counts", "trace/trace.go makeSpanData")],
  ["exported SpanData", "internal.Trace ReportActiveSpans"],
  "Span model compared with exported and listed data over generated histories; conservation (kept+dropped=added) under concurrent additions.")
P("C03", "Span identity and parentage are correct and identifiers are unique",
  "Every started span gets a non-zero span ID unique in the process; a span started without a parent gets a fresh unique non-zero trace ID, and a span started under a local or remote parent has the parent's trace ID and tracestate and records the parent's span ID, with the remote flag set exactly for remote parents. The context returned by starting a span carries that span, its sampled bit says whether it will be exported, and what the exporter receives agrees with it. Configured ID generators are used for exactly those IDs, and the number of direct local children started is reported on the parent.",
  ["histories", "schedules", "inputs"], "every tree of spans, every mix of local and remote parents, and concurrent starts",
  "The tests check single parent-child pairs; uniqueness and parentage under concurrent starts and arbitrary trees are not sampled.",
  ["trace/trace.go"], [("startSpanInternal", "trace/trace.go"), ("defaultIDGenerator", "trace/trace.go")],
  ["trace.Span.SpanContext", "exported SpanData"],
  "ID uniqueness over hundreds of thousands of concurrently generated IDs, tree invariants on generated trees; race detector.")
P("C04", "Sampling decisions follow the sampler rules consistently across a trace",
  "A new root span and a span with a remote parent take the sampling decision from the sampler given at start if any, else from the configured default, while a local child without its own sampler inherits its parent's decision and no sampler is consulted; a sampler is asked exactly once per such span with the parent context, new IDs, name and remote flag. A probability sampler decides by trace ID alone: it never samples at fraction 0 (unless the parent was sampled), always at 1, keeps every trace a smaller fraction keeps, keeps a sampled parent's children sampled, and samples close to the given fraction of random traces. A span records events exactly when it is sampled or the local span store asks for it, and is exported exactly when it is sampled.",
  ["histories", "inputs", "schedules"], "every parent kind, sampler placement and sequence of configuration changes; every trace ID",
  "The tests tabulate a dozen combinations; consistency over whole traces, all fractions and reconfiguration in flight is not covered.",
  ["trace/sampling.go", "trace/trace.go", "trace/config.go"], [("ProbabilitySampler", "trace/sampling.go"), ("startSpanInternal", "trace/trace.go")],
  ["trace.Sampler calls", "SpanContext.IsSampled", "exporter"],
  "Instrumented samplers record every consultation; decisions compared with the rules; statistical rate bound with false-alarm probability below 1e-9.")
P("C05", "Tracing configuration merges field by field and is never seen half-applied",
  "Applying a configuration replaces exactly the fields that are set (non-nil sampler or ID generator, positive limits) and keeps the others, so that after any sequence of applications each field has the last value set, or its documented default. Concurrent applications are never lost and a span started concurrently sees one complete configuration, never a mixture. A span already running keeps the limits it started with.",
  ["histories", "schedules", "configurations"], "every sequence and interleaving of configuration changes and span starts",
  "The tests apply a few configurations sequentially; atomicity and lost updates need concurrent writers and readers.",
  ["trace/config.go", "trace/trace.go"], [("ApplyConfig", "trace/config.go"), ("config snapshot at start", "trace/trace.go startSpanInternal")],
  ["limits, IDs and sampler consultations of probe spans"],
  "Probe spans measure the configuration in force; linked-field configurations detect torn or lost updates; race detector.")
P("C08", "The binary span context codec round-trips and rejects malformed input safely",
  "Encoding a span context yields the 29-byte version-0 form carrying exactly its trace ID, span ID and options, and decoding any such encoding returns an equal context without tracestate; the all-zero context encodes to nothing. Decoding any byte string never panics and never modifies its input: it is accepted exactly when it starts with version 0 and holds the expected fields, in order, as far as the input goes, and otherwise is reported as invalid with a zero context. Encodings do not share memory with each other or with later calls.",
  ["inputs"], "every span context and every byte string", "The tests decode nine fixed byte strings.",
  ["trace/propagation/propagation.go"], [("Binary/FromBinary", "trace/propagation/propagation.go")], ["propagation.Binary", "propagation.FromBinary"],
  "Differential against an independent reference decoder over structured and mutated inputs.")
P("C09", "HTTP trace headers round-trip and malformed headers are rejected, not guessed",
  "For each of B3, W3C Trace Context and Google Cloud headers, a span context injected into a request is extracted again with the same trace ID, span ID and sampled decision (and, for W3C, the same tracestate). Extraction from arbitrary headers never panics and accepts exactly the well-formed ones: B3 and Google Cloud by their format, W3C only lowercase-hex version 00 with exactly two flag digits, or higher versions by their version-00 prefix, never an all-zero trace or span ID; anything else is reported as absent with a zero context. A malformed or oversized W3C tracestate is dropped without dropping the trace parent.",
  ["inputs"], "every span context and every set of header values", "The tests use a table of a few headers each; the input space of hostile headers is unbounded.",
  ["plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go"],
  [("SpanContextFromRequest/SpanContextToRequest", "each file")], ["propagation.HTTPFormat"],
  "Differential against independent reference parsers over grammar-based and mutated headers.")
P("C10", "Tracestate lists are validated, ordered and immutable",
  "Creating a tracestate from a parent and new entries is accepted exactly when every new key and value is well-formed, no new key repeats, and the combined list has at most 32 entries; otherwise an error and no tracestate are returned. The result lists the new entries first in the given order followed by the parent's entries whose keys were not overridden, in their order. Neither the parent nor the caller's arguments nor any earlier tracestate is modified by it, and what is returned never changes afterwards.",
  ["inputs", "histories", "schedules"], "every parent, entry list and chain or concurrent fan-out of creations", "The tests use fixed keys; aliasing between lists built from one backing array and limits at the boundary are not explored.",
  ["trace/tracestate/tracestate.go"], [("New/add", "trace/tracestate/tracestate.go")], ["tracestate.New", "Tracestate.Entries"],
  "Reference model over generated chains, snapshots of all live values re-checked after each step; race detector for sharing.")
P("C11", "Tag maps in contexts change as specified, atomically and immutably",
  "Deriving a context with tag changes applies them in order (insert only if absent, update only if present, upsert always, delete) to a copy of the parent's tags: the new context holds exactly the resulting tags with their propagation metadata, and every earlier context keeps its own. If any key or value is invalid (empty or over-long key, non-printable characters, over-long value) an error is returned and no context with partially applied changes. Running a function under a tagged context always runs it exactly once, the goroutine's profile labelled with the tags while it runs and as before afterwards.",
  ["histories", "inputs", "schedules"], "every sequence of mutations on every tree of contexts, also concurrently", "The tests check one mutation list at a time; isolation across context trees and atomicity of failing lists are not sampled.",
  ["tag/map.go", "tag/key.go", "tag/validate.go", "tag/profile_19.go"], [("New and Mutators", "tag/map.go"), ("checkKeyName/checkValue", "tag/validate.go")], ["tag.New", "tag.FromContext", "tag.Do", "tag.Encode"],
  "Reference model over context trees; every live context re-checked after each step.")
P("C12", "The tag wire codec round-trips and survives hostile bytes",
  "Each encoding of a tag map gives bytes of its own: version 0 followed by each propagated tag, and decoding it gives exactly the tags whose propagation is unlimited, with equal keys and values; tags marked local-only are never encoded. Decoding any byte string terminates without panic and without modifying its input: it either returns exactly the tags an independent reading of the format gives (later duplicates winning), or an error and no tag map at all. Bytes with an unsupported version or invalid or truncated fields are rejected.",
  ["inputs"], "every tag map and every byte string", "The tests round-trip a few maps and decode a few fixed byte strings.",
  ["tag/map_codec.go"], [("Encode/Decode", "tag/map_codec.go")], ["tag.Encode", "tag.Decode", "tag.DecodeEach"],
  "Differential against an independent reference decoder over structured, truncated and mutated inputs.")
P("C06", "The local span store lists running spans and keeps a bounded sample of ended",
  "While the local span store is enabled, every span started and not yet ended is listed as active, with its current content, under the name it was started with, and no ended span is. Ended spans (sampled or not) are filed once each under that name, by latency band when their status code is 0 and by code otherwise; each such group accepts at most one span per second of end time, up to its configured size, keeping the newest when it is full or is made smaller (sizes below 0 count as 0, those above 100000 as that). Listings by latency range (bounds included), by error code (0 meaning all) and the per-name summary report exactly the kept spans, and neither listing nor reconfiguring changes what is kept or the spans themselves.",
  ["histories", "schedules", "configurations"], "every history of span starts, ends, listings and size changes on any names, also concurrent",
  "The tests exercise the ring buffer with fixed span times; nothing runs the store under concurrent spans, listings and reconfiguration.",
  ["trace/spanstore.go", "trace/spanbucket.go", "trace/trace.go"], [("span store", "trace/spanstore.go"), ("rate-limited ring bucket", "trace/spanbucket.go")],
  ["internal.Trace reporting interface", "exported SpanData"],
  "Exact store model driven by exported end times, per name; concurrent rounds judged by linearizable-listing bounds and spacing/capacity invariants. Latencies above 10 s only in the thorough tier.")
P("C07", "The z-pages show exactly what the process holds, and never inject markup",
  "For every request and every content of spans and statistics, the trace and RPC pages (HTML and text, served or written into another page) render without panic, and user-supplied strings (span names, attributes, annotations, status messages, methods) appear only as text, never as markup or altered link targets. The trace summary shows each span name with the counts the local span store holds, each of its links (running, each latency band, errors) and each error-code listing leads to exactly the spans it counts, with their identity, parent, times, status, attributes and events in time order, and the pages' own links and static files resolve under any prefix they are installed at. The RPC page shows, per method and direction, the total count, errors, average latency and data rates of the RPCs recorded so far, and a client that reads a page slowly or not at all holds up no span, recording, export or other page.",
  ["inputs", "histories", "schedules"], "every span and RPC content, every request, and scraping concurrent with recording",
  "The tests render one fixed span and one summary; agreement between summary and listings and hostile content are not covered.",
  ["zpages/tracez.go", "zpages/rpcz.go", "zpages/zpages.go", "zpages/templates.go"], [("tracez", "zpages/tracez.go"), ("rpcz", "zpages/rpcz.go snapExporter.ExportView"), ("templates", "zpages/internal/templates")],
  ["GET tracez/rpcz", "WriteTextTracezSpans", "WriteTextRpczPage"],
  "Structure of hostile pages compared with isomorphic benign ones via an HTML tokenizer; links followed and counted; RPC totals polled to a model; clients that stop reading mid-page while spans, recordings, exports and other pages must go on. Cell layout is read positionally.")
P("C13", "View rows aggregate exactly the measurements recorded, per tag combination",
  "After any sequence of recordings, each registered view holds exactly one row per distinct combination of values of its tag keys (tags absent or empty being left out), and each row's count, sum, last value or distribution (count, min, max, mean, sum of squared deviations, and per-bucket counts, a value equal to a bound falling in the bucket above it; bounds sorted, those not above 0 dropped) is exactly that of the values recorded for its measure with those tags since the view was registered. Each bucket's exemplar is the newest value recorded in it with attachments, and a row starts at the time of its first recording. Recording a failed tag change records nothing, measurements without a view are ignored, and rows already retrieved never change.",
  ["histories", "inputs"], "every history of registrations and recordings, every value, tag combination and bucket layout",
  "The tests record a handful of values into fixed views; bucket edges, tag signatures and the history of registrations are an unbounded space.",
  ["stats/view/worker.go", "stats/view/collector.go", "stats/view/aggregation_data.go", "stats/view/view.go", "stats/record.go"],
  [("collector rows by signature", "stats/view/collector.go, internal/tagencoding"), ("distribution aggregation", "stats/view/aggregation_data.go"), ("recording", "stats/record.go, stats/view/worker_commands.go recordReq")],
  ["view.RetrieveData"],
  "Reference model that keeps every value; floating-point results compared up to 1e-9 of the data's scale. One goroutine (C14 is the concurrent one).")
P("C14", "Concurrent recordings are counted exactly once and no reader sees a torn state",
  "However many goroutines record at once, every recording whose call returned is counted exactly once in every registered view of its measures, also while views are registered and unregistered, exporters run and readers read. A retrieval shows at least the recordings completed before it began and at most those started before it returned; retrievals, metric reads and exports each never go back, and the measurements of one recording call become visible together in a metric read. What a caller passed to a recording call is its own again once the call returns, and nothing handed out is modified afterwards.",
  ["schedules", "histories"], "every interleaving of recording, reading, exporting and view registration",
  "The tests record from one goroutine; loss, duplication and torn reads depend on interleavings.",
  ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/record.go", "stats/view/collector.go"],
  [("worker queue and record path", "stats/view/worker.go"), ("metric read", "stats/view/worker.go Read")],
  ["view.RetrieveData", "view.Exporter", "metricproducer.Producer.Read"],
  "Conservation and window oracles over concurrent rounds, race detector, injected scheduling points.")
P("C15", "Views, exporters and meters take effect and end exactly when their calls return",
  "Each registered exporter receives each registered view's rows about once per reporting period (never more often; ten seconds by default or for a non-positive period), never concurrently, with start the registration time and end the time of the report; unregistering a view first delivers its pending data once to every registered exporter, and once unregistering a view or an exporter or stopping the meter returns, nothing more of it is delivered. Registering an already registered view changes nothing, a different view under a taken name is refused with an error leaving the existing view and the other views of the call registered, a call with an invalid view (no measure, no or a hand-made aggregation, bad name, negative bounds) registers none of its views, name and description default to the measure's, WithName copies a view without changing it, and Find reflects exactly what is registered. Exported data never changes afterwards, meters do not affect each other even when sharing definitions, and a stopped meter is no longer a metric producer and answers every call without blocking or panicking.",
  ["histories", "schedules"], "every history and interleaving of registration, recording, export, period changes and Stop",
  "The tests register one or two views with one exporter and sleep; what concurrent churn and pending data do at the edges is not sampled.",
  ["stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/view.go", "stats/view/export.go"],
  [("command worker and reporting timer", "stats/view/worker.go"), ("register/unregister commands", "stats/view/worker_commands.go"), ("canonicalize", "stats/view/view.go")],
  ["view.Exporter", "view.Find", "view.RetrieveData", "metricproducer.GlobalManager"],
  "Exporters that judge each delivery online against what is registered, sequential histories against a model, concurrent churn with per-owner oracles, race detector. Timing is judged only one-sidedly (never too often; at most 20 s late).")
P("C16", "Views read as metrics say exactly what the views' rows say",
  "Reading a meter as a metric producer yields exactly one metric per registered view that has rows, with the view's name and description, the measure's unit (ms and By as they are, everything else and every count dimensionless), the type given by aggregation and measure (count: cumulative int64; sum and last value: cumulative and gauge of the measure's number type; distribution: cumulative distribution), the sorted tag keys as label keys, and the meter's current resource. Each row is one time series with the row's tag values as labels (absent tags marked not present), the row's start time (none for last value), and a single point at the time of reading with the row's value; distributions carry count, sum, squared deviation, bounds, bucket counts and exemplars. Metrics already read never change.",
  ["histories", "schedules", "inputs"], "every set of views, history of recordings and concurrent reads",
  "The tests convert a table of single rows; label order, missing tags and agreement over histories are not covered.",
  ["stats/view/view_to_metric.go", "stats/view/aggregation_data.go", "stats/view/worker.go"],
  [("viewToMetric", "stats/view/view_to_metric.go"), ("toPoint", "stats/view/aggregation_data.go"), ("Read", "stats/view/worker.go")],
  ["metricproducer.Producer.Read"],
  "Every read compared with the same model as C13; earlier reads re-checked at the end.")
P("C17", "Registry gauges and cumulatives keep one exact value per label combination",
  "Reading a registry gives one metric per name with the descriptor it was created with (constant label keys sorted first, then its own), and one time series per distinct combination of label values used so far (an absent label differing from an empty one, whatever the lengths or bytes), each with a single point: no Set, Add or Inc that has returned is lost or counted twice however many goroutines change and read it, cumulatives ignore non-positive increments and never decrease, values below zero read as 0, and a derived entry's latest function is called once per read and its result returned. A cumulative's start time is its creation, a gauge's is the time of the read. Equal labels always give the same entry, an entry once created is in every later read, a wrong number of labels, a nil function or an existing name of another kind is refused with an error changing nothing, and adding a name again with the same kind replaces it.",
  ["histories", "schedules", "inputs"], "every history and interleaving of instrument creation, change and reading, every label value",
  "The tests use a few short label values from one goroutine.",
  ["metric/common.go", "metric/gauge.go", "metric/cumulative.go", "metric/registry.go", "internal/tagencoding/tagencoding.go"],
  [("entries by encoded labels", "metric/common.go"), ("atomic values", "metric/gauge.go, metric/cumulative.go"), ("registry", "metric/registry.go")],
  ["metric.Registry.Read"],
  "Reference model over generated histories; conservation, windows and monotonicity under concurrency; race detector. NaN and overflowing increments are not generated.")
P("C18", "Metric readers export every registered producer's metrics once per export",
  "One read-and-export makes exactly one ExportMetrics call, whose data is exactly the metrics of one Read of each producer registered with the global manager (once each however often added, none of a producer whose deletion had returned, none missing whose addition had), and never changes afterwards, under a span named as configured that ends after the export and is sampled for about one in ten thousand exports. A started interval reader does so about once per interval (a minute unless set; below one second refused), never more often and never concurrently; starting a running one is refused, and once Stop has returned nothing is exported, and no export is still going on, until it is started again. Flush exports exactly once when the reader is stopped and does nothing when it is running, and all calls may be repeated, made from any goroutine, or made on a nil interval reader.",
  ["histories", "schedules"], "every history and interleaving of producer registration, exports, starts, stops and flushes",
  "The tests start one reader with one producer; churn of producers during a read and races of Start, Stop and Flush are not covered.",
  ["metric/metricproducer/manager.go", "metric/metricexport/reader.go"],
  [("producer set", "metric/metricproducer/manager.go"), ("ReadAndExport, IntervalReader", "metric/metricexport/reader.go")],
  ["metricexport.Exporter.ExportMetrics", "Manager.GetAll"],
  "Per-producer registration states bound what each export must and may hold; exporters judge each call online; sampling bound with false-alarm probability below 1e-7. Rates are judged from above, and from below only by a 40 s limit.")
P("C19", "The instrumented HTTP server observes each request once and changes nothing",
  "A request through ochttp.Handler yields exactly one server span, ended when the handler returns or panics and not before: with the configured name, sampler and options, the parent (or, for public endpoints, the link) its trace headers give, the request's attributes, the status first sent (200 if the body or a flush came first; informational headers do not count) with the matching trace status, and message events for the bytes of both bodies; health endpoints get none. It is counted once when it starts, and once at its end recorded with its latency, the response bytes actually written by whatever call (Write or ReadFrom), and the request bytes if it has a body, tagged with host, path, method, status and route, each tag left out alone if its value is invalid. The wrapped writer offers exactly the optional interfaces (Hijacker, CloseNotifier, Pusher, Flusher, ReaderFrom) of the original, and passes every call, byte, header and error through.",
  ["inputs", "configurations", "schedules"], "every request, handler configuration, handler behaviour and underlying writer",
  "The tests make a handful of requests with one write each; scripts of writes, flushes, headers and copies over each kind of writer, and tag-hostile paths, are not covered.",
  ["plugin/ochttp/server.go", "plugin/ochttp/trace.go", "plugin/ochttp/route.go"],
  [("Handler", "plugin/ochttp/server.go"), ("TraceStatus, request attributes", "plugin/ochttp/trace.go"), ("route tags", "plugin/ochttp/route.go")],
  ["trace.Exporter.ExportSpan", "view.RetrieveData", "http.ResponseWriter"],
  "Every request runs a PRNG script whose outcome the monitor keeps, over fakes with each of the 32 interface sets and over loopback HTTP/1 and HTTP/2. The status of a panicked request that sent none is not judged.")
P("C20", "The instrumented HTTP client observes each request once and changes nothing",
  "A request through ochttp.Transport reaches the base transport exactly once, differing from the caller's (which is not modified) only in its context and in headers that carry exactly the new client span's context in the configured format; its error, response, and every byte, read error and Close of the response body come back unchanged, the body is still an io.Writer if it was and nil if it was, and CancelRequest is forwarded; health-check paths go through untouched and unobserved. Exactly one client span, a child of the context's, is ended once, when the transport fails, the body is nil, read to its end or closed, whichever comes first (even if reads and closes race or repeat), with name, sampler, request attributes, status and client-trace annotations as given. The start is counted once, and the same end is recorded once: latencies, request bytes if there is a body (0 sent if not), response bytes read (received bytes: Content-Length if none were read, except for HEAD), with host, path, method and status tags, each left out alone if invalid.",
  ["inputs", "configurations", "schedules"], "every request, transport configuration, base transport behaviour and way of consuming the response",
  "The tests use a few fixed bodies; bodies that fail, are closed early, twice or during a read, nil bodies and tag-hostile paths are not covered.",
  ["plugin/ochttp/client.go", "plugin/ochttp/client_stats.go", "plugin/ochttp/trace.go", "plugin/ochttp/wrapped_body.go", "plugin/ochttp/span_annotating_client_trace.go"],
  [("Transport", "plugin/ochttp/client.go"), ("statsTransport, tracker", "plugin/ochttp/client_stats.go"), ("traceTransport, bodyTracker", "plugin/ochttp/trace.go")],
  ["http.RoundTripper below Transport", "trace.Exporter.ExportSpan", "view.RetrieveData"],
  "Scripted base transports and bodies keep what they were given and returned; loopback requests to an instrumented server tie each server span to a client span. The status tag of a failed transport may be 500 or error, since documentation and code differ.")

P("C21", "The gRPC handlers observe each RPC once and propagate trace and tags exactly",
  "Each RPC yields exactly one span per side, ended with the RPC: a client span under the caller's span, whose context is the only trace context sent, and a server span under the one received (first value; linked as parent from a new trace for public endpoints; a root if it is malformed), named after the method with dots, with the handler's sampler, the Client and FailFast attributes, the RPC's status and one message event per message with its sizes. Its start is counted once, and at its end exactly the messages and bytes sent and received (from any goroutine) and the latency are recorded once, tagged with its side's method and status and the caller's tags, a method that is no valid tag value being left out alone, with the span's context as exemplar if sampled. Propagated tags arrive exactly (local-only ones never, undecodable ones as none), the caller's metadata is kept, and events of RPCs that were not tagged are ignored without panic, payloads after an RPC's end counting for none.",
  ["inputs", "schedules", "histories"], "every sequence and interleaving of RPC events, every method, status, metadata and tag map",
  "The tests feed a few fixed event sequences; concurrent payload events, hostile metadata and methods, and agreement of both ends over real connections are not covered.",
  ["plugin/ocgrpc/stats_common.go", "plugin/ocgrpc/trace_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go"],
  [("statistics", "plugin/ocgrpc/stats_common.go"), ("spans", "plugin/ocgrpc/trace_common.go"), ("tags", "plugin/ocgrpc/server_stats_handler.go")],
  ["trace.Exporter.ExportSpan", "view.RetrieveData", "gRPC metadata"],
  "PRNG event sequences fed to the handlers and real RPCs over loopback, both sides judged against what the harness sent. Errors that carry no gRPC status are not generated: gRPC never reports one at the end of an RPC.")
P("C22", "Resource labels round-trip and detectors merge with the first one winning",
  "Encoding a label map and decoding the result gives the same map, for every non-empty map whose keys are 1 to 256 ASCII characters without quotes and outer spaces or commas and whose quoted values are ASCII and at most 256 characters, whatever quotes, commas, equals signs or control characters the values hold. Decoding any string never panics and accepts exactly comma-separated key=\"value\" items (spaces around items and trailing commas allowed, a later duplicate winning); anything else is an error and no map, and the environment's type and labels are read the same way, anew each time. A multi-detector calls its detectors in order, once each, stops at the first error returning it and no resource, skips nil resources, and otherwise merges them, the first non-empty type and the first value of each label winning, without changing any detector's resource.",
  ["inputs"], "every label map, string and list of detector results", "The tests decode seven strings and merge three pairs.",
  ["resource/resource.go"], [("EncodeLabels, DecodeLabels", "resource/resource.go"), ("MultiDetector", "resource/resource.go")],
  ["return values"],
  "Reference parser and merge over generated and mutated inputs. Not judged: quotes within keys, and whether the value limit counts escapes, which the format does not say. Decoding the empty string is an error in the code and is not judged.")
P("C23", "Runtime metrics show the runtime's present state, one snapshot per read",
  "While enabled, each metric read contains exactly the metrics the latest Enable asked for (names with its prefix, documented units, cumulative types only if asked for, starting when enabled), each once with one unlabelled point; after Disable none, and other producers are unaffected. Every value, in every mode, is the runtime's value at the time of that read, and all memory values of one read come from the same state of the runtime; cumulative ones never fall. This holds however many goroutines enable, disable and read at once, and metrics already read never change.",
  ["histories", "schedules", "configurations"], "every sequence and interleaving of enabling, disabling, reading and memory use",
  "The tests check metric names after one read; no value is checked, and nothing runs concurrently.",
  ["plugin/runmetrics/producer.go"], [("Enable, Disable", "plugin/runmetrics/producer.go"), ("producer.Read", "plugin/runmetrics/producer.go")],
  ["metricexport.Reader", "runtime.ReadMemStats"],
  "Values bracketed by direct readings of the runtime (rising ones always, others while nothing else runs), identities within one snapshot, race detector. heap_release is not required to rise: the runtime's value is bytes now released.")
P("C24", "All parts used together stay free of races, deadlocks, losses and leaks",
  "Any mix of calls to the public API (spans, tags, recordings, views, meters, registries, readers, HTTP and RPC instrumentation, z-pages, configuration, exporter churn) from any goroutines runs without data race, deadlock or panic, also when samplers, ID generators, span exporters, metric producers and derived-metric functions use the tracing, tagging, recording and instrument API while they are being called. When all of it has ended, every sampled span has been exported exactly once, and every registered view, meter and instrument holds exactly what was recorded to it. No span that has ended is then listed as running, and once readers and meters are stopped no goroutine and no metric producer of theirs remains.",
  ["schedules", "histories"], "every interleaving of calls across all packages, including calls from callbacks",
  "The tests use one package at a time, nearly always from one goroutine.",
  ["trace/trace.go", "trace/export.go", "trace/spanstore.go", "stats/view/worker.go", "stats/record.go", "metric/registry.go", "metric/metricexport/reader.go", "metric/metricproducer/manager.go", "zpages/tracez.go", "zpages/rpcz.go"],
  [("locks and atomics", "trace, stats/view, metric"), ("worker goroutine", "stats/view/worker.go"), ("callbacks", "trace/sampling.go, metric/gauge.go, metric/metricproducer")],
  ["race detector", "goroutine dumps", "exporters, view.RetrieveData, Registry.Read"],
  "Mixed workload under the race detector with injected scheduling points in every package, deadlock watch, conservation totals and leak checks after each round. View exporters do not call the view API from within ExportView, which would wait for itself.")
P("C25", "Installed tracers, span handles, recorders and measures forward exactly",
  "With a tracer installed as DefaultTracer, every package-level tracing function and all HTTP, RPC and reader instrumentation use it, once per span with the arguments given, and nothing is exported past it. A span handle calls its implementation exactly once per call with the same arguments, except that changes are withheld while it is not recording events, and every method of a nil span does nothing and reports nothing. A recording (of a measure that has had a view) made with a recorder goes once to that recorder with the final tags, all measurements and attachments and to no other, a failed tag change going nowhere; and measures made again under an existing name, from any goroutine, are the same measure with the first description and unit.",
  ["inputs", "histories"], "every call sequence on handles, every tracer, recorder and measure name",
  "The tests install no tracer of their own and record to a meter once.",
  ["trace/trace_api.go", "stats/record.go", "stats/measure.go"],
  [("Span, DefaultTracer", "trace/trace_api.go"), ("WithRecorder", "stats/record.go"), ("registerMeasureHandle", "stats/measure.go")],
  ["trace.Tracer, trace.SpanInterface and stats.Recorder implementations"],
  "Recording implementations compare every call with what was asked; plugins run over a recording tracer. How often End reaches an HTTP client span's implementation is not judged: ending again has no effect.",
  technique="runtime monitoring: generated workloads on the real code over recording implementations, online oracle")
P("C26", "What has ended is let go of: memory and goroutines do not grow with use",
  "Once an operation is over - a span ended, a tag map or context used, a measurement recorded, a view, exporter, meter or producer registered and removed again, a reader started and stopped, an HTTP or RPC request served or made, headers encoded or decoded, a page rendered, a configuration or runtime metrics set - nothing of it is kept: memory in use and the number of goroutines do not grow with the number of operations done. What is kept is bounded by the distinct things asked for: span names and status codes times fixed samples, rows and exemplar buckets of registered views, label combinations of instruments, measures. A span that is running keeps no more attributes, annotations, message events and links than its limits, however many are added.",
  ["histories", "durations"], "every sequence of completed operations, however long",
  "The tests never do anything more than a few times and never look at memory.",
  ["trace/trace.go", "trace/spanstore.go", "trace/evictedqueue.go", "trace/lrumap.go", "stats/view/worker.go", "stats/view/collector.go", "metric/registry.go", "metric/metricexport/reader.go", "metric/metricproducer/manager.go", "plugin/ochttp/client.go", "plugin/ocgrpc/stats_common.go", "zpages/tracez.go"],
  [("span store", "trace/spanstore.go"), ("views and measures", "stats/view/worker.go"), ("producers", "metric/metricproducer/manager.go"), ("readers", "metric/metricexport/reader.go")],
  ["runtime.ReadMemStats after collection", "runtime.NumGoroutine"],
  "Loads of thousands of operations with contents that differ, repeated in rounds; live heap (bytes, objects) and goroutines compared after a warm-up. Growth below 6 bytes and half an object per operation is not seen.")
P("C27", "The predefined HTTP and RPC views show exactly the traffic that there was",
  "After any traffic through the HTTP and gRPC instrumentation, each predefined view of ochttp and ocgrpc that was registered throughout (alone or with any others, in any order, again after being unregistered) has, under its documented name and unit, exactly one row per combination of values of its documented tags (invalid values being left out). Request-count and started views count every request or RPC started, completed and by-status views every one ended, and the byte, message-count and latency distributions hold each ended one's value exactly once, in the documented buckets. Registering, using and unregistering the views changes none of their definitions, and the lists of default views name views that can all be registered together.",
  ["histories", "inputs", "configurations"], "every traffic, every choice and order of predefined views, and every history of registering them",
  "The tests look at single default views after one request; nothing compares all of them with mixed concurrent traffic or registers them together and again.",
  ["plugin/ochttp/stats.go", "plugin/ochttp/server.go", "plugin/ochttp/client_stats.go", "plugin/ocgrpc/client_metrics.go", "plugin/ocgrpc/server_metrics.go", "plugin/ocgrpc/stats_common.go", "stats/view/worker.go"],
  [("HTTP views", "plugin/ochttp/stats.go"), ("RPC views", "plugin/ocgrpc/client_metrics.go, server_metrics.go")],
  ["view.RetrieveData", "metricproducer.Producer.Read"],
  "Rows of all 30 views compared with the log of what the traffic did; latencies known within bounds measured around the calls.")
P("C28", "A request through many services is one trace, whole or not at all",
  "However requests and RPCs run through services instrumented with ochttp and ocgrpc - any mix of header formats (each the same at both ends), proxies and gateways that pass on the headers and metadata they got, redirects, retries, concurrent calls - the exported spans form exactly the tree of calls made: per request one client span under the caller's span and one server span under that client span (at a public endpoint the root of a new trace, linked to it), with one trace ID, the status of the answer at both ends, their child counts and nested times. Where all services use the same probability sampler a trace is exported whole or not at all, a span with a sampler of its own follows that, and a probability sampler never drops what the span above kept. Tags reach every service along RPCs, with the changes made on the way and without local-only ones, and tracestate every service along W3C hops; nothing an earlier hop left in headers or metadata takes their place.",
  ["inputs", "configurations", "interleavings"], "every tree of calls through any mix of protocols, formats, samplers and endpoints, concurrent or not",
  "The tests look at one hop at a time; what holds of a trace across several services, formats and forwarding intermediaries is composed of all of them.",
  ["plugin/ochttp/trace.go", "plugin/ochttp/server.go", "plugin/ochttp/propagation/b3/b3.go", "plugin/ochttp/propagation/tracecontext/propagation.go", "exporter/stackdriver/propagation/http.go", "plugin/ocgrpc/trace_common.go", "plugin/ocgrpc/client_stats_handler.go", "plugin/ocgrpc/server_stats_handler.go", "trace/sampling.go", "trace/trace.go"],
  [("HTTP propagation", "plugin/ochttp/trace.go, server.go"), ("RPC propagation", "plugin/ocgrpc/trace_common.go"), ("sampling across hops", "trace/sampling.go")],
  ["trace.RegisterExporter", "trace.FromContext and tag.FromContext in every handler"],
  "Real HTTP and gRPC servers on loopback; the tree of calls is known to the harness, what was exported is compared with it span by span. Names and decisions of formats themselves are C09's, of single requests C19-C21's.")
P("C29", "Every span is one task of the Go execution tracer",
  "While the Go execution tracer runs, every span started through the trace package - sampled or not, with a local, a remote or no parent - has exactly one task of its own, named as the span was when started, whose parent is the task of the context it was started with, and whose task is that of the context returned. The task begins while the span is started and ends, exactly once, during the span's first End, however often and from however many goroutines End is called, and not before. Spans started while the tracer is off have no task and leave that of their context as it is, whenever the tracer is switched on or off.",
  ["histories", "interleavings"], "every history of starting and ending spans and of switching the tracer on and off",
  "No test runs the execution tracer.",
  ["trace/trace_go11.go", "trace/trace.go"],
  [("tasks", "trace/trace_go11.go"), ("begin and end", "trace/trace.go")],
  ["runtime/trace started by the monitor, marks written with trace.Log, read back with go tool trace -d=parsed"],
  "PRNG histories of spans, own tasks and served requests over four goroutines in sessions with and without the tracer; marks in the trace tie tasks to spans.")
P("C30", "The in-memory metrics exporter gives exactly the series that is asked for",
  "After ReadAndExport, GetPoint of the exporter in metric/test gives, for a metric name and a set of labels, the newest point of exactly the time series with that name and those labels (in any order, absent ones left out, whatever strings they are made of) that a registered producer had when it was read or, if it is read no more, when it was last read; it reports false for a name with labels never exported. Every recording, Set, Add or Inc that returned before ReadAndExport, from whatever goroutine, is in what it gives. Asking changes nothing, points given earlier never change, and exporters do not affect each other.",
  ["inputs", "histories"], "every name and label set, every history of changes, producers and reads",
  "The tests ask for one series with one label; confusing two series takes labels that look alike.",
  ["metric/test/exporter.go", "metric/metricexport/reader.go"],
  [("one key per series", "metric/test/exporter.go labelSignature"), ("newest point", "metric/test/exporter.go ExportMetrics")],
  ["metric/test Exporter.GetPoint, ReadAndExport, ExportMetrics"],
  "Exact model of the newest value per name and labels over generated histories with colliding spellings; concurrent use of one exporter, which it does not offer, is not driven.")
