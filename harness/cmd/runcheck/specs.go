package main

type spec struct {
	pkg    string
	rule   string
	builds []build
	assume []string
	par    int
}

var allPkgs = []string{
	"trace", "tag", "stats", "stats/view", "stats/internal", "metric", "metric/metricdata", "metric/metricproducer", "metric/metricexport",
	"plugin/ochttp", "plugin/ocgrpc", "plugin/runmetrics", "zpages", "internal/tagencoding", "trace/tracestate",
}

func plain(quick, deep int) build { return build{name: "plain", quick: quick, deep: deep} }
func arch32(quick, deep int) build {
	return build{name: "arch32", arch: "386", quick: quick, deep: deep}
}
func race(quick, deep int) build { return build{name: "race", race: true, quick: quick, deep: deep} }
func perturbed(quick, deep int, pkgs ...string) build {
	return build{name: "race-perturbed", race: true, perturb: pkgs, quick: quick, deep: deep}
}

var specs = map[string]spec{
	"C01": {
		pkg:    "./checks/c01",
		rule:   "PRNG-made histories of exporter registration, span start/mutation/End (sequential, against a span model) and rounds in which several goroutines end the same spans while exporters churn and other goroutines annotate; a history is distinct by its operation log, a concurrent round by its shape and what the churning exporters received",
		builds: []build{plain(6, 12), race(6, 12), perturbed(12, 24, "trace"), arch32(4, 8)},
	},
	"C02": {
		pkg:    "./checks/c02",
		rule:   "PRNG-made sequences of attribute sets, annotations, message events, links and observations of the running span under PRNG-made limits, compared with a span model, and rounds of concurrent additions judged by conservation; distinct by limits and operation log",
		builds: []build{race(10, 20), perturbed(10, 20, "trace"), arch32(4, 8)},
	},
	"C03": {
		pkg:    "./checks/c03",
		rule:   "PRNG-made span trees with local and remote parents, own ID generators and concurrent starts; distinct by tree shape and parent kinds",
		builds: []build{race(10, 20), perturbed(10, 20, "trace"), arch32(4, 8)},
	},
	"C04": {
		pkg:    "./checks/c04",
		rule:   "PRNG-made span trees in which recording samplers are placed at random and configured in between, and probability samplers evaluated over PRNG trace IDs and fractions; distinct by operation log",
		builds: []build{race(10, 20), perturbed(10, 20, "trace"), arch32(4, 8)},
	},
	"C05": {
		pkg:    "./checks/c05",
		rule:   "PRNG-made sequences of partial configurations, each followed by probe spans, and rounds of concurrent configuration writers and probing readers; distinct by configuration sequence",
		builds: []build{race(10, 20), perturbed(10, 20, "trace"), arch32(4, 8)},
	},
	"C06": {
		pkg:    "./checks/c06",
		rule:   "PRNG histories of starting, changing, ending, listing and reconfiguring on ~60 span names per process (sleeps spread latencies over 10us..10s, 60s when thorough) against a store model fed by the exported records, plus rounds of concurrent use of one name; distinct by operation log, trivial when nothing was kept",
		builds: []build{plain(2, 4), race(3, 4), perturbed(3, 4, "trace"), arch32(1, 2)},
	},
	"C07": {
		pkg:    "./checks/c07",
		rule:   "PRNG stores of hostile and benign spans rendered through the real handlers (page structure compared, links followed and counted, text listing parsed), arbitrary requests, RPC totals polled until they match, pages scraped while spans and RPCs are recorded; distinct by store or request",
		builds: []build{plain(3, 12), race(2, 6), perturbed(2, 6, "trace", "zpages", "stats/view"), arch32(1, 3)},
	},
	"C08": {
		pkg:    "./checks/c08",
		rule:   "PRNG span contexts encoded and decoded; byte strings built from the format's fields (kept, cut, reordered, mutated) decoded and compared with a reference decoder; distinct by input bytes",
		builds: []build{plain(12, 32), race(4, 8), arch32(4, 8)},
	},
	"C09": {
		pkg:    "./checks/c09",
		rule:   "PRNG span contexts round-tripped through each header format; header sets generated from each grammar, then mutated, extracted and compared with a reference parser; distinct by header values",
		builds: []build{plain(14, 32), race(4, 8), arch32(4, 8)},
	},
	"C10": {
		pkg:    "./checks/c10",
		rule:   "PRNG chains and fan-outs of tracestates with valid, boundary and invalid entries compared with a reference list, all live values re-checked; distinct by entries and parent",
		builds: []build{plain(3, 12), race(3, 12), arch32(2, 6)},
	},
	"C11": {
		pkg:    "./checks/c11",
		rule:   "PRNG trees of contexts derived by mutation lists (valid and invalid) compared with a reference map, all live contexts re-checked, some steps concurrent; distinct by mutation list and parent contents",
		builds: []build{plain(3, 12), race(3, 12), arch32(2, 6)},
	},
	"C12": {
		pkg:    "./checks/c12",
		rule:   "PRNG tag maps round-tripped; byte strings built from the wire format (kept, truncated, hostile lengths, mutated) decoded and compared with a reference decoder; distinct by input bytes",
		builds: []build{plain(10, 24), race(6, 12), arch32(4, 8)},
	},
	"C13": {
		pkg:    "./checks/c13",
		rule:   "PRNG histories of registering, unregistering and re-registering views (all aggregations, 0..6 bounds, 0..4 keys) and recording values on and beside the bounds with tags and attachments through every recording call, rows compared with a model that keeps every value; distinct by operation log, trivial when no row results",
		builds: []build{plain(3, 12), race(3, 10), arch32(2, 6)},
	},
	"C14": {
		pkg:    "./checks/c14",
		rule:   "rounds of concurrent recording (2-6 goroutines, up to 1500 recordings each) with concurrent retrieval, metric reads, exports and churn of another view, judged by conservation, windows of completed/started recordings and monotonicity; distinct by round shape, seeds and exports seen",
		builds: []build{plain(4, 8), race(6, 12), perturbed(6, 12, "stats/view", "stats", "stats/internal"), arch32(2, 6)},
	},
	"C15": {
		pkg:    "./checks/c15",
		rule:   "PRNG histories of registering (valid, conflicting, invalid, repeated), unregistering, recording, exporter churn and period changes from one goroutine with a model of what each exporter must receive; rounds in which several goroutines churn views, exporters and periods and meters are stopped while in use; distinct by operation log or round",
		builds: []build{plain(2, 6), race(2, 6), perturbed(3, 8, "stats/view"), arch32(1, 3)},
	},
	"C16": {
		pkg:    "./checks/c16",
		rule:   "PRNG histories of registrations, resource changes and recordings, each read of the meter as a metric producer compared with the view model; rounds of reads concurrent with registration and recording; distinct by operation log",
		builds: []build{plain(8, 16), race(6, 12), perturbed(6, 12, "stats/view"), arch32(3, 6)},
	},
	"C17": {
		pkg:    "./checks/c17",
		rule:   "PRNG histories of adding instruments of all eight kinds (0..6 constant and 0..3 own labels, label values of all sizes and absent ones), changing and reading them, compared with a model; rounds of concurrent changes, replacements and reads; distinct by operation log or seed",
		builds: []build{plain(4, 10), race(4, 10), perturbed(4, 10, "metric"), arch32(2, 6)},
	},
	"C18": {
		pkg:    "./checks/c18",
		rule:   "PRNG histories of adding, deleting and reading producers against a set; readers concurrent with producer churn, judged per producer; interval readers started, stopped and flushed through two lives each with exporters of different slowness, and from many goroutines at once; 400k exports per process for the spans sampled at 1/10000; distinct by operation log, seed or reader",
		builds: []build{plain(2, 4), race(2, 4), perturbed(2, 4, "metric/metricproducer", "metric/metricexport"), arch32(1, 2)},
	},
	"C19": {
		pkg:    "./checks/c19",
		rule:   "PRNG requests (method, path, host, body, trace headers, handler configuration) to handlers that run a PRNG script of writes, copies, headers, flushes and panics; in memory over writers with each of the 32 interface sets, and over loopback HTTP/1 and HTTP/2 with 8 concurrent clients; every request's span and rows judged; distinct by script and configuration",
		builds: []build{plain(2, 8), race(3, 8), perturbed(3, 6, "plugin/ochttp"), arch32(2, 6)},
	},
	"C20": {
		pkg:    "./checks/c20",
		rule:   "PRNG requests (method, path, body, parent, tags, transport configuration) over fake transports that fail or answer with PRNG scripted bodies (end with or after data, errors, writable, nil), read, closed, closed twice and closed while being read by PRNG scripts; requests over loopback HTTP/1 and HTTP/2, with redirects, to an instrumented server, 8 at a time; every request's span and rows judged; distinct by configuration and script",
		builds: []build{plain(2, 8), race(3, 8), perturbed(3, 6, "plugin/ochttp"), arch32(2, 6)},
	},
	"C21": {
		pkg:    "./checks/c21",
		rule:   "PRNG sequences of gRPC events (payloads from several goroutines, all codes, hostile methods, trace metadata and tags) fed to both handlers; unary and streaming RPCs over loopback between instrumented ends, 8 at a time, with scripted replies, errors and cancellations; both sides' spans, rows and exemplars judged; distinct by side, method, counts and outcome",
		builds: []build{plain(2, 8), race(3, 8), perturbed(3, 6, "plugin/ocgrpc"), arch32(2, 6)},
	},
	"C22": {
		pkg:    "./checks/c22",
		rule:   "PRNG label maps round-tripped, their encodings mutated and decoded against a reference parser, environments, and lists of detectors (nil, failing, nested, sharing resources) against a reference merge; distinct by input",
		builds: []build{plain(3, 12), race(2, 4), arch32(2, 6)},
	},
	"C23": {
		pkg:    "./checks/c23",
		rule:   "PRNG sequences of enabling (all options), disabling, allocating, collecting and reading, every value bracketed by direct readings of the runtime and checked for one snapshot; rounds of concurrent enabling, disabling and reading; distinct by history",
		builds: []build{plain(2, 6), race(3, 8), perturbed(2, 6, "plugin/runmetrics", "metric", "metric/metricproducer"), arch32(2, 6)},
	},
	"C24": {
		pkg:    "./checks/c24",
		rule:   "rounds in which six goroutines mix spans, recordings, instruments, HTTP requests, RPCs, z-pages, configuration, view, exporter and meter churn while samplers, exporters, producers and derived functions use the API too; totals, listed spans, goroutines and producers judged at the end; distinct by mix",
		builds: []build{plain(1, 4), race(3, 10), perturbed(3, 10, allPkgs...), arch32(1, 3)},
	},
	"C25": {
		pkg:    "./checks/c25",
		rule:   "PRNG calls through span handles over a recording implementation, all instrumentation run under a recording tracer, recordings to own recorders, measures made concurrently under one name; distinct by call sequence and options",
		builds: []build{plain(3, 10), race(2, 6), perturbed(2, 4, "stats", "tag", "trace"), arch32(2, 6)},
	},
	"C26": {
		pkg:    "./checks/c26",
		rule:   "loads of complete operations of each part, repeated in rounds with distinct contents, with the live heap and the goroutines compared before and after, with the span store on and off, and unbounded additions to one running span; distinct by load and store",
		builds: []build{plain(4, 8)},
		par:    4,
	},
	"C27": {
		pkg:    "./checks/c27",
		rule:   "rounds in which a PRNG choice of the 30 predefined views is registered in PRNG order and groups, 1-4 goroutines send PRNG HTTP requests (served and made) and RPCs, some views are registered again in between, and all rows and metrics are compared with the log of the traffic; distinct by seed and shape",
		builds: []build{plain(3, 10), race(2, 8), arch32(1, 3)},
	},
	"C28": {
		pkg:    "./checks/c28",
		rule:   "PRNG trees of 1-12 calls between HTTP services (four header formats, proxies, redirects, retries) and gRPC services (unary, streaming, gateways forwarding metadata) on loopback, with public endpoints and samplers at random ends, six traces at a time; every span judged against the tree; distinct by tree, root and fraction",
		builds: []build{plain(3, 10), race(2, 8), perturbed(2, 6, "trace", "tag", "plugin/ochttp", "plugin/ocgrpc"), arch32(1, 3)},
	},
	"C29": {
		pkg:    "./checks/c29",
		rule:   "PRNG histories of starting (local, remote, sampled or not), ending (again, concurrently) and nesting spans, the program's own tasks and served requests in four goroutines over phases with and without the execution tracer; distinct by phases and seeds",
		builds: []build{plain(2, 8), race(2, 6), perturbed(2, 6, "trace"), arch32(1, 3)},
	},
	"C30": {
		pkg:    "./checks/c30",
		rule:   "PRNG histories of setting instruments with label keys and values made of the same letters and of quotes and braces, recording from several goroutines, made-up metrics of several points, producers coming and going, and reads by two exporters, compared with a map from name and labels to the newest value, and asked for labels never used; distinct by operation log",
		builds: []build{plain(2, 6), race(2, 6), arch32(1, 3)},
	},
}
