// Monitor for C25: the replaceable parts: tracers, spans, recorders, measures.
package main

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
	gstats "google.golang.org/grpc/stats"
)

func main() { mon.Main("C25", run) }

// fake is a span implementation that only writes down how it is used.
type fake struct {
	mu        sync.Mutex
	recording bool
	sc        trace.SpanContext
	calls     []string
	text      string
}

func (f *fake) note(format string, a ...any) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls = append(f.calls, fmt.Sprintf(format, a...))
}

func (f *fake) take() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	c := f.calls
	f.calls = nil
	return c
}

func (f *fake) count(prefix string) (n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.calls {
		if strings.HasPrefix(c, prefix) {
			n++
		}
	}
	return
}

func (f *fake) IsRecordingEvents() bool            { return f.recording }
func (f *fake) End()                               { f.note("End") }
func (f *fake) SpanContext() trace.SpanContext     { return f.sc }
func (f *fake) SetName(n string)                   { f.note("SetName %q", n) }
func (f *fake) SetStatus(s trace.Status)           { f.note("SetStatus %#v", s) }
func (f *fake) AddAttributes(a ...trace.Attribute) { f.note("AddAttributes %v", a) }
func (f *fake) Annotate(a []trace.Attribute, s string) {
	f.note("Annotate %v %v %q", a == nil, a, s)
}
func (f *fake) Annotatef(a []trace.Attribute, format string, args ...interface{}) {
	f.note("Annotatef %v %v %q %v", a == nil, a, format, args)
}
func (f *fake) AddMessageSendEvent(id, u, c int64)    { f.note("Send %d %d %d", id, u, c) }
func (f *fake) AddMessageReceiveEvent(id, u, c int64) { f.note("Receive %d %d %d", id, u, c) }
func (f *fake) AddLink(l trace.Link)                  { f.note("Link %v", l) }
func (f *fake) String() string                        { return f.text }

func randID(rng *rand.Rand) (sc trace.SpanContext) {
	for i := range sc.TraceID {
		sc.TraceID[i] = byte(rng.Uint32())
	}
	for i := range sc.SpanID {
		sc.SpanID[i] = byte(rng.Uint32() | 1)
	}
	sc.TraceOptions = trace.TraceOptions(rng.Uint32N(2))
	return
}

func attrs(r *mon.Run, rng *rand.Rand) []trace.Attribute {
	if rng.IntN(4) == 0 {
		return nil
	}
	out := []trace.Attribute{}
	add := func(a trace.Attribute, key string, value any) {
		r.Check(a.Key() == key && a.Value() == value, "attribute", "an attribute made of %q and %v says %q and %v", key, value, a.Key(), a.Value())
		out = append(out, a)
	}
	for i := rng.IntN(3); i > 0; i-- {
		k := []string{"", "k", "é"}[rng.IntN(3)]
		switch rng.IntN(4) {
		case 0:
			v := vm.Unique("v")
			add(trace.StringAttribute(k, v), k, v)
		case 1:
			v := rng.IntN(2) == 0
			add(trace.BoolAttribute(k, v), k, v)
		case 2:
			v := int64(rng.Uint64())
			add(trace.Int64Attribute(k, v), k, v)
		case 3:
			v := rng.NormFloat64()
			add(trace.Float64Attribute(k, v), k, v)
		}
	}
	return out
}

// handles drives span handles over a fake implementation.
func handles(r *mon.Run, rng *rand.Rand) {
	for i := 0; i < r.N(3000, 30); i++ {
		if i%300 == 0 {
			r.Case("handle %d", i)
		}
		f := &fake{recording: rng.IntN(4) > 0, sc: randID(rng), text: vm.Unique("text")}
		s := trace.NewSpan(f)
		r.Check(s.Internal() == trace.SpanInterface(f), "internal", "Internal gives another implementation")
		r.Check(s.SpanContext() == f.sc, "forward:SpanContext", "SpanContext %v, want %v", s.SpanContext(), f.sc)
		r.Check(s.IsRecordingEvents() == f.recording, "forward:IsRecordingEvents", "IsRecordingEvents %v", s.IsRecordingEvents())
		r.Check(s.String() == f.text, "forward:String", "String %q", s.String())
		r.Check(len(f.take()) == 0, "forward:extra", "asking a span changed it")
		log := fmt.Sprint(f.recording)
		for n := 1 + rng.IntN(12); n > 0; n-- {
			var want string
			always := false
			if rng.IntN(8) == 0 { // an implementation may change its mind
				f.recording = !f.recording
				r.Check(s.IsRecordingEvents() == f.recording, "forward:IsRecordingEvents", "IsRecordingEvents %v of one that just changed", s.IsRecordingEvents())
				f.take()
			}
			switch op := rng.IntN(10); op {
			case 0:
				name := vm.Unique("name")
				s.SetName(name)
				want = fmt.Sprintf("SetName %q", name)
			case 1:
				st := trace.Status{Code: rng.Int32N(20), Message: vm.Unique("msg")}
				s.SetStatus(st)
				want = fmt.Sprintf("SetStatus %#v", st)
			case 2:
				a := attrs(r, rng)
				s.AddAttributes(a...)
				want = fmt.Sprintf("AddAttributes %v", a)
			case 3:
				a, t := attrs(r, rng), vm.Unique("100%d")
				s.Annotate(a, t)
				want = fmt.Sprintf("Annotate %v %v %q", a == nil, a, t)
			case 4:
				a, t := attrs(r, rng), vm.Unique("%d and %s")
				args := []any{rng.Int(), "x"}
				s.Annotatef(a, t, args...)
				want = fmt.Sprintf("Annotatef %v %v %q %v", a == nil, a, t, args)
			case 5:
				x, y, z := rng.Int64(), rng.Int64(), rng.Int64()
				s.AddMessageSendEvent(x, y, z)
				want = fmt.Sprintf("Send %d %d %d", x, y, z)
			case 6:
				x, y, z := rng.Int64(), rng.Int64(), rng.Int64()
				s.AddMessageReceiveEvent(x, y, z)
				want = fmt.Sprintf("Receive %d %d %d", x, y, z)
			case 7:
				l := trace.Link{TraceID: randID(rng).TraceID, SpanID: f.sc.SpanID, Type: trace.LinkType(rng.IntN(3))}
				s.AddLink(l)
				want = fmt.Sprintf("Link %v", l)
			default:
				s.End()
				want, always = "End", true
			}
			got := f.take()
			log += ";" + strings.SplitN(want, " ", 2)[0]
			if f.recording || always {
				r.Check(len(got) == 1 && got[0] == want, "forward:"+strings.SplitN(want, " ", 2)[0], "recording %v: called %q, want %q", f.recording, got, want)
				r.Count("forwarded_calls", 1)
			} else {
				r.Check(len(got) == 0, "forward:unrecorded", "not recording, yet called %q", got)
				r.Count("withheld_calls", 1)
			}
		}
		r.Eval(log)
	}
	r.Case("nil span")
	var s *trace.Span
	r.Do("nil span", func() {
		s.SetName("x")
		s.SetStatus(trace.Status{Code: 1})
		s.AddAttributes(trace.StringAttribute("a", "b"))
		s.AddAttributes()
		s.Annotate(nil, "x")
		s.Annotatef(nil, "%d", 1)
		s.AddMessageSendEvent(1, 2, 3)
		s.AddMessageReceiveEvent(1, 2, 3)
		s.AddLink(trace.Link{})
		s.End()
		s.End()
		r.Check(!s.IsRecordingEvents() && s.SpanContext() == (trace.SpanContext{}) && s.String() == "<nil>", "nil-span", "a nil span reports %v %v %q", s.IsRecordingEvents(), s.SpanContext(), s.String())
		r.Check(trace.FromContext(context.Background()) == nil, "nil-span", "a background context carries a span")
		ctx := trace.NewContext(context.Background(), nil)
		r.Check(trace.FromContext(ctx) == nil, "nil-span", "a context given no span carries one")
		_, c := trace.StartSpan(ctx, "under nil", trace.WithSampler(trace.NeverSample()))
		r.Check(c != nil && c.SpanContext().SpanID != trace.SpanID{}, "nil-span", "no span started under a nil one")
		c.End()
	})
	r.Count("nil_spans", 1)
}

type ctxKey string

// tracer writes down what it is asked and hands out fake spans.
type tracer struct {
	mu     sync.Mutex
	starts []*started
	other  []string
}

type started struct {
	f      *fake
	name   string
	kind   int
	parent *trace.SpanContext // remote
	ctx    context.Context
	under  *trace.Span
	opts   trace.StartOptions
	out    *trace.Span
}

func (t *tracer) start(ctx context.Context, name string, parent *trace.SpanContext, o []trace.StartOption) (context.Context, *trace.Span) {
	s := &started{name: name, parent: parent, ctx: ctx}
	s.under, _ = ctx.Value(ctxKey("span")).(*trace.Span)
	for _, f := range o {
		f(&s.opts)
	}
	s.f = &fake{recording: true, sc: trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, TraceOptions: 1}}
	t.mu.Lock()
	s.f.sc.SpanID[7] = byte(len(t.starts))
	s.f.sc.SpanID[6] = byte(len(t.starts) >> 8)
	s.out = trace.NewSpan(s.f)
	t.starts = append(t.starts, s)
	t.mu.Unlock()
	return t.newContext(ctx, s.out), s.out
}

func (t *tracer) newContext(ctx context.Context, s *trace.Span) context.Context {
	return context.WithValue(ctx, ctxKey("span"), s)
}

func (t *tracer) StartSpan(ctx context.Context, name string, o ...trace.StartOption) (context.Context, *trace.Span) {
	return t.start(ctx, name, nil, o)
}
func (t *tracer) StartSpanWithRemoteParent(ctx context.Context, name string, parent trace.SpanContext, o ...trace.StartOption) (context.Context, *trace.Span) {
	return t.start(ctx, name, &parent, o)
}
func (t *tracer) FromContext(ctx context.Context) *trace.Span {
	s, _ := ctx.Value(ctxKey("span")).(*trace.Span)
	return s
}
func (t *tracer) NewContext(parent context.Context, s *trace.Span) context.Context {
	t.mu.Lock()
	t.other = append(t.other, "NewContext")
	t.mu.Unlock()
	return t.newContext(parent, s)
}
func (t *tracer) take() []*started {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.starts
	t.starts = nil
	return s
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type devNull struct{}

func (devNull) ExportMetrics(context.Context, []*metricdata.Metric) error { return nil }

type noExport struct{ n atomic.Int64 }

func (e *noExport) ExportSpan(*trace.SpanData) { e.n.Add(1) }

// replaced runs everything that traces with another tracer installed.
func replaced(r *mon.Run, rng *rand.Rand) {
	var sunk noExport
	trace.RegisterExporter(&sunk)
	defer trace.UnregisterExporter(&sunk)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	defer trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
	t := &tracer{}
	old := trace.DefaultTracer
	trace.DefaultTracer = t
	defer func() { trace.DefaultTracer = old }()
	one := func(what string) *started {
		s := t.take()
		if !r.Check(len(s) == 1, "tracer-calls", "%s started %d spans with the installed tracer, want 1", what, len(s)) {
			return nil
		}
		return s[0]
	}
	ended := func(what string, s *started) {
		r.Check(s.f.count("End") == 1, "span-ends", "%s ended its span %d times", what, s.f.count("End"))
	}
	for i := 0; i < r.N(300, 20); i++ {
		if i%50 == 0 {
			r.Case("tracer %d", i)
		}
		parent := context.WithValue(context.Background(), ctxKey("mark"), i)
		var above *trace.Span
		if rng.IntN(2) == 0 {
			above = trace.NewSpan(&fake{recording: true, sc: randID(rng)})
			parent = trace.NewContext(parent, above)
			r.Check(len(t.other) == 1, "tracer-calls", "NewContext reached the tracer %d times", len(t.other))
			t.other = nil
		}
		r.Check(trace.FromContext(parent) == above, "tracer-calls", "FromContext did not answer as the tracer")
		name := vm.Unique("span")
		kind := rng.IntN(3)
		var ctx context.Context
		var sp *trace.Span
		sampled := 0
		sampler := trace.Sampler(func(trace.SamplingParameters) trace.SamplingDecision { sampled++; return trace.SamplingDecision{} })
		var rp *trace.SpanContext
		if rng.IntN(2) == 0 {
			ctx, sp = trace.StartSpan(parent, name, trace.WithSpanKind(kind), trace.WithSampler(sampler))
		} else {
			sc := randID(rng)
			rp = &sc
			ctx, sp = trace.StartSpanWithRemoteParent(parent, name, sc, trace.WithSpanKind(kind), trace.WithSampler(sampler))
		}
		if s := one("StartSpan"); s != nil {
			r.Check(s.name == name && s.ctx == parent && s.opts.SpanKind == kind && s.opts.Sampler != nil && reflect.DeepEqual(s.parent, rp) && sp == s.out, "tracer-args",
				"tracer got %q %+v %v, want %q kind %d parent %v", s.name, s.opts, s.parent, name, kind, rp)
			r.Check(trace.FromContext(ctx) == s.out && ctx.Value(ctxKey("mark")) == i, "tracer-args", "the context returned is not the tracer's")
			if s.opts.Sampler != nil {
				s.opts.Sampler(trace.SamplingParameters{})
				r.Check(sampled == 1, "tracer-args", "another sampler reached the tracer")
			}
		}
		// The server.
		code := 200 + rng.IntN(400)
		body := strings.Repeat("x", rng.IntN(50))
		public := rng.IntN(2) == 0
		var inside *trace.Span
		h := &ochttp.Handler{IsPublicEndpoint: public, Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			inside = trace.FromContext(req.Context())
			w.WriteHeader(code)
			io.WriteString(w, body)
		})}
		req := httptest.NewRequest("GET", "http://h.example/path", nil).WithContext(parent)
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		if s := one("the HTTP server"); s != nil {
			ended("the HTTP server", s)
			r.Check(inside == s.out, "span-inside", "the handler saw another span")
			r.Check(s.name == "/path" && s.opts.SpanKind == trace.SpanKindServer, "server-start", "server span %q kind %d", s.name, s.opts.SpanKind)
			r.Check(s.f.count("SetStatus") >= 1 && s.f.count("AddAttributes") >= 1 && s.f.count("Send") >= min(1, len(body)), "server-span", "server span used as %q", s.f.calls)
		}
		// The client.
		fail := rng.IntN(3) == 0
		var sent *http.Request
		tr := &ochttp.Transport{Base: roundTripper(func(q *http.Request) (*http.Response, error) {
			sent = q
			inside = trace.FromContext(q.Context())
			if fail {
				return nil, io.ErrUnexpectedEOF
			}
			return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(body)), Request: q, Header: http.Header{}}, nil
		})}
		creq, _ := http.NewRequestWithContext(parent, "GET", "http://h.example/client", nil)
		resp, err := tr.RoundTrip(creq)
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		if s := one("the HTTP client"); s != nil {
			// Ending a span again has no effect, and the client relies on it.
			r.Check(s.f.count("End") >= 1, "span-ends", "the HTTP client did not end its span")
			r.Check(inside == s.out && s.under == above, "span-inside", "the base transport saw another span, or the span another parent")
			r.Check(s.name == "/client" && s.opts.SpanKind == trace.SpanKindClient, "client-start", "client span %q kind %d", s.name, s.opts.SpanKind)
			r.Check(strings.Contains(fmt.Sprint(sent.Header), s.f.sc.SpanID.String()), "client-header", "headers %v do not carry %v", sent.Header, s.f.sc)
		}
		// The RPC handlers.
		server := rng.IntN(2) == 0
		var gh gstats.Handler = &ocgrpc.ClientHandler{}
		if server {
			gh = &ocgrpc.ServerHandler{}
		}
		gctx := gh.TagRPC(parent, &gstats.RPCTagInfo{FullMethodName: "/s/m"})
		inside = trace.FromContext(gctx)
		gh.HandleRPC(gctx, &gstats.Begin{Client: !server})
		gh.HandleRPC(gctx, &gstats.OutPayload{Client: !server, Length: 5, WireLength: 6})
		gh.HandleRPC(gctx, &gstats.InPayload{Client: !server, Length: 7, WireLength: 8})
		gh.HandleRPC(gctx, &gstats.End{Client: !server})
		if s := one("an RPC"); s != nil {
			ended("an RPC", s)
			r.Check(inside == s.out, "span-inside", "the RPC's context carries another span")
			r.Check(s.f.count("Send") == 1 && s.f.count("Receive") == 1, "rpc-span", "RPC span used as %q", s.f.calls)
		}
		if i%10 == 0 { // the metric reader
			metricexport.NewReader(metricexport.WithSpanName("own")).ReadAndExport(devNull{})
			if s := one("the metric reader"); s != nil {
				ended("the metric reader", s)
				r.Check(s.name == "own", "reader-span", "reader span %q", s.name)
			}
		}
		r.Eval(fmt.Sprint(kind, rp != nil, above != nil, code, public, fail, server, len(body)))
		r.Count("replaced_rounds", 1)
	}
	r.Check(sunk.n.Load() == 0, "exported-past-tracer", "%d spans exported past the installed tracer", sunk.n.Load())
}

// recorder writes down what is recorded to it.
type recorder struct {
	mu  sync.Mutex
	got []recording
}

type recording struct {
	tags map[string]string
	ms   []stats.Measurement
	att  map[string]any
}

var tagKeys = []tag.Key{tag.MustNewKey("a"), tag.MustNewKey("b"), tag.MustNewKey("c")}

func (c *recorder) Record(m *tag.Map, ms interface{}, att map[string]interface{}) {
	g := recording{tags: map[string]string{}, att: map[string]any{}}
	for _, k := range tagKeys {
		if v, ok := m.Value(k); ok {
			g.tags[k.Name()] = v
		}
	}
	g.ms = append(g.ms, ms.([]stats.Measurement)...)
	for k, v := range att {
		g.att[k] = v
	}
	c.mu.Lock()
	c.got = append(c.got, g)
	c.mu.Unlock()
}

func (c *recorder) take() []recording {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.got
	c.got = nil
	return g
}

func recorders(r *mon.Run, rng *rand.Rand) {
	mi := stats.Int64(vm.Unique("int"), "d", "1")
	mf := stats.Float64(vm.Unique("float"), "d", "ms")
	unseen := stats.Int64(vm.Unique("unseen"), "d", "1")
	vi := &view.View{Name: mi.Name(), Measure: mi, Aggregation: view.Count()}
	vf := &view.View{Name: mf.Name(), Measure: mf, Aggregation: view.Count()}
	if err := view.Register(vi, vf); err != nil {
		r.Broken("register: %v", err)
		return
	}
	defer view.Unregister(vi, vf)
	global := map[string]int64{}
	recs := []*recorder{{}, {}}
	for i := 0; i < r.N(3000, 20); i++ {
		if i%500 == 0 {
			r.Case("recorder %d", i)
		}
		tags := map[string]string{}
		ctx := context.Background()
		for _, k := range tagKeys[:2] {
			if rng.IntN(2) == 0 {
				v := vm.Unique("v")
				tags[k.Name()] = v
				ctx, _ = tag.New(ctx, tag.Upsert(k, v))
			}
		}
		var ms []stats.Measurement
		var want []string
		seen := false
		for n := rng.IntN(4); n > 0; n-- {
			switch rng.IntN(3) {
			case 0:
				v := rng.Int64N(1 << 50)
				ms = append(ms, mi.M(v))
				want = append(want, fmt.Sprint(mi.Name(), float64(v)))
				seen = true
			case 1:
				v := rng.NormFloat64()
				ms = append(ms, mf.M(v))
				want = append(want, fmt.Sprint(mf.Name(), v))
				seen = true
			case 2:
				ms = append(ms, unseen.M(7))
				want = append(want, fmt.Sprint(unseen.Name(), float64(7)))
			}
		}
		opts := []stats.Options{stats.WithMeasurements(ms...)}
		att := map[string]any{}
		if rng.IntN(2) == 0 {
			att["k"] = i
			opts = append(opts, stats.WithAttachments(metricdata.Attachments{"k": i}))
		}
		bad := false
		switch rng.IntN(4) {
		case 0:
			tags["c"] = "x"
			opts = append(opts, stats.WithTags(tag.Upsert(tagKeys[2], "x")))
		case 1:
			bad = rng.IntN(3) == 0
			v := "ok"
			if bad {
				v = "é"
			}
			tags["b"] = v
			opts = append(opts, stats.WithTags(tag.Upsert(tagKeys[1], v)))
		}
		var to *recorder
		if rng.IntN(4) > 0 {
			to = recs[rng.IntN(2)]
			opts = append(opts, stats.WithRecorder(to))
		}
		rng.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		err := stats.RecordWithOptions(ctx, opts...)
		r.Eval(fmt.Sprint(to != nil, len(ms), seen, bad, len(tags), len(att)))
		if !seen {
			for _, c := range recs {
				r.Check(len(c.take()) == 0, "recorded-unseen", "a recording of measures without views reached a recorder")
			}
			continue
		}
		r.Check((err != nil) == bad, "record-error", "recording (bad tag %v): %v", bad, err)
		for _, c := range recs {
			got := c.take()
			if c != to || bad {
				r.Check(len(got) == 0, "recorded-elsewhere", "%d recordings reached a recorder not asked for (failed %v)", len(got), bad)
				continue
			}
			if !r.Check(len(got) == 1, "recorded-once", "%d recordings reached the recorder", len(got)) {
				continue
			}
			var have []string
			for _, m := range got[0].ms {
				have = append(have, fmt.Sprint(m.Measure().Name(), m.Value()))
			}
			r.Check(reflect.DeepEqual(got[0].tags, tags) && reflect.DeepEqual(have, want) && reflect.DeepEqual(got[0].att, att), "recorded-content",
				"recorder got %v %v %v, want %v %v %v", got[0].tags, have, got[0].att, tags, want, att)
			r.Count("own_recordings", 1)
		}
		if to == nil && !bad {
			for _, m := range ms {
				global[m.Measure().Name()]++
			}
			r.Count("default_recordings", 1)
		}
	}
	for _, v := range []*view.View{vi, vf} {
		rows, _ := view.RetrieveData(v.Name)
		var n int64
		if len(rows) == 1 {
			n = rows[0].Data.(*view.CountData).Value
		}
		r.Check(n == global[v.Name], "default-recorder", "%d recorded by default, %d counted", global[v.Name], n)
	}
}

func sameNames(r *mon.Run, rng *rand.Rand) {
	units := []string{stats.UnitDimensionless, stats.UnitMilliseconds, stats.UnitBytes, "", "zz"}
	for i := 0; i < r.N(150, 20); i++ {
		if i%30 == 0 {
			r.Case("measures %d", i)
		}
		name := vm.Unique("shared")
		const n = 6
		all := make([]stats.Measure, n)
		r.Par(n, func(g int) {
			d, u := fmt.Sprint("description ", g), units[(i+g)%len(units)]
			if (i/2+g)%2 == 0 {
				all[g] = stats.Int64(name, d, u)
			} else {
				all[g] = stats.Float64(name, d, u)
			}
		})
		for g := 1; g < n; g++ {
			r.Check(all[g].Name() == name && all[g].Description() == all[0].Description() && all[g].Unit() == all[0].Unit(), "measure-differs",
				"measures made as %q differ: %q %q and %q %q", name, all[g].Description(), all[g].Unit(), all[0].Description(), all[0].Unit())
		}
		d := all[0].Description()
		won := -1
		for g := 0; g < n; g++ {
			if d == fmt.Sprint("description ", g) {
				won = g
			}
		}
		r.Check(won >= 0 && all[0].Unit() == units[(i+won)%len(units)], "measure-mixed", "measure has description %q and unit %q", d, all[0].Unit())
		// A view of one counts recordings of all.
		v := &view.View{Name: name, Measure: all[rng.IntN(n)], Aggregation: view.Sum()}
		if err := view.Register(v); err != nil {
			r.Violate("measure-view", "%v", err)
			continue
		}
		sum := 0.0
		for g := 0; g < n; g++ {
			var m stats.Measurement
			switch x := all[g].(type) {
			case *stats.Int64Measure:
				m = x.M(int64(g + 1))
			case *stats.Float64Measure:
				m = x.M(float64(g) + 1)
			}
			r.Check(m.Value() == float64(g+1) && m.Measure() == all[g], "measurement", "measurement %v of %v", m.Value(), m.Measure())
			sum += float64(g + 1)
			stats.Record(context.Background(), m)
		}
		rows, err := view.RetrieveData(name)
		r.Check(err == nil && len(rows) == 1 && rows[0].Data.(*view.SumData).Value == sum, "measure-view", "a view of one of equally named measures holds %v (%v), want %v", rows, err, sum)
		view.Unregister(v)
		r.Eval(fmt.Sprint("m", i%len(units), won))
		r.Count("shared_measures", 1)
	}
}

func run(r *mon.Run) {
	rng := r.Rand("c25")
	handles(r, rng)
	replaced(r, rng)
	recorders(r, rng)
	sameNames(r, rng)
	r.Require("forwarded_calls", 1000)
	r.Require("withheld_calls", 200)
	r.Require("nil_spans", 1)
	r.Require("replaced_rounds", 50)
	r.Require("own_recordings", 300)
	r.Require("default_recordings", 100)
	r.Require("shared_measures", 30)
}
