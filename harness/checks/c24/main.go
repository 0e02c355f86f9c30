// Monitor for C24: everything used at once, from everywhere.
package main

import (
	"bytes"
	"context"
	crand "crypto/rand"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/runmetrics"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
	"go.opencensus.io/zpages"
	gstats "google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

func main() { mon.Main("C24", run) }

type store interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
}

var (
	keyA = tag.MustNewKey("a")
	keyB = tag.MustNewKey("b")
)

// world is what one round runs in.
type world struct {
	r      *mon.Run
	mi     *stats.Int64Measure
	mf     *stats.Float64Measure
	cbM    *stats.Int64Measure // recorded by callbacks
	fixed  []*view.View
	churn  []*view.View
	meter  view.Meter // an own one
	mView  *view.View
	reg    *metric.Registry
	cum    *metric.Int64Cumulative
	gauge  *metric.Float64Gauge
	pages  http.Handler
	want   sync.Map // span ID -> true: sampled and ended
	nI, sI atomic.Int64
	nF     atomic.Int64
	nM     atomic.Int64
	nCb    atomic.Int64
	nCum   atomic.Int64
	nHTTP  atomic.Int64
	nRPC   atomic.Int64
	derive atomic.Int64
	// exports counts the spans exported, nested those that were within others.
	exports, nested atomic.Int64
	stop            atomic.Bool
	ops             [16]atomic.Int64
}

// exporter is registered throughout, and uses the API while it is called.
type exporter struct {
	w   *world
	mu  sync.Mutex
	got map[trace.SpanID]int
}

func (e *exporter) ExportSpan(sd *trace.SpanData) {
	e.mu.Lock()
	e.got[sd.SpanID]++
	e.mu.Unlock()
	w := e.w
	if w == nil || sd.Name == "in callback" || sd.Name == "in export" {
		return
	}
	callback(w)
	if n := w.exports.Add(1); n%4 == 0 {
		// A sampled span is ended, and so exported, within an export, while
		// exporters come and go.
		x := &churned{}
		trace.RegisterExporter(x)
		_, sp := trace.StartSpan(context.Background(), "in export", trace.WithSampler(trace.AlwaysSample()))
		w.ended(sp)
		trace.UnregisterExporter(x)
		w.nested.Add(1)
	}
}

// callback is what samplers, exporters, producers and derived functions do.
func callback(w *world) {
	ctx, sp := trace.StartSpan(context.Background(), "in callback", trace.WithSampler(trace.NeverSample()))
	sp.AddAttributes(trace.Int64Attribute("n", 1))
	ctx, _ = tag.New(ctx, tag.Upsert(keyA, "callback"))
	stats.Record(ctx, w.cbM.M(1))
	w.nCb.Add(1)
	if e, err := w.cum.GetEntry(metricdata.NewLabelValue("callback")); err == nil {
		e.Inc(1)
		w.nCum.Add(1)
	}
	sp.End()
}

type churned struct{ n atomic.Int64 }

// ExportSpan takes itself off after a few spans.
func (c *churned) ExportSpan(*trace.SpanData) {
	if c.n.Add(1) == 5 {
		trace.UnregisterExporter(c)
	}
}
func (c *churned) ExportView(vd *view.Data) {
	c.n.Add(1)
	for _, row := range vd.Rows {
		_ = row.String()
		if d, ok := row.Data.(*view.DistributionData); ok {
			_ = d.Mean + float64(d.CountPerBucket[0])
			for _, e := range d.ExemplarsPerBucket {
				if e != nil {
					_ = len(e.Attachments)
				}
			}
		}
	}
	_, sp := trace.StartSpan(context.Background(), "in callback", trace.WithSampler(trace.NeverSample()))
	sp.End()
}
func (c *churned) ExportMetrics(_ context.Context, ms []*metricdata.Metric) error {
	c.n.Add(1)
	for _, m := range ms {
		for _, ts := range m.TimeSeries {
			for _, p := range ts.Points {
				_ = fmt.Sprint(p.Value)
			}
		}
	}
	_, sp := trace.StartSpan(context.Background(), "in callback", trace.WithSampler(trace.NeverSample()))
	sp.End()
	return nil
}

// producer churns the manager while it is read.
type producer struct{ w *world }

func (p *producer) Read() []*metricdata.Metric {
	q := &leaf{}
	metricproducer.GlobalManager().AddProducer(q)
	callback(p.w)
	metricproducer.GlobalManager().DeleteProducer(q)
	return nil
}

type leaf struct{ _ byte }

func (*leaf) Read() []*metricdata.Metric { return nil }

type idGen struct{}

func (idGen) NewTraceID() (id [16]byte) { crand.Read(id[:]); return }
func (idGen) NewSpanID() (id [8]byte)   { crand.Read(id[:]); return }

func (w *world) ended(sp *trace.Span) {
	sp.End()
	if sc := sp.SpanContext(); sc.IsSampled() {
		w.want.Store(sc.SpanID, true)
	}
}

// traces makes a small tree of spans, used from two goroutines.
func (w *world) traces(rng *rand.Rand) {
	var opts []trace.StartOption
	switch rng.IntN(4) {
	case 0:
		opts = append(opts, trace.WithSampler(trace.AlwaysSample()))
	case 1:
		opts = append(opts, trace.WithSampler(trace.ProbabilitySampler(0.5)))
	case 2:
		opts = append(opts, trace.WithSampler(func(p trace.SamplingParameters) trace.SamplingDecision {
			callback(w)
			return trace.SamplingDecision{Sample: p.SpanID[0]&1 == 0}
		}))
	}
	ctx, root := trace.StartSpan(context.Background(), fmt.Sprint("mixed ", rng.IntN(4)), opts...)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 5; i++ {
			root.Annotatef(nil, "from aside %d", i)
			root.AddAttributes(trace.Int64Attribute(fmt.Sprint("k", i), int64(i)))
			root.AddMessageSendEvent(int64(i), 1, 1)
		}
		root.SetName("renamed")
		_ = root.String()
	}()
	for i := rng.IntN(4); i > 0; i-- {
		opts := opts
		if rng.IntN(3) == 0 {
			opts = []trace.StartOption{trace.WithSampler(func(p trace.SamplingParameters) trace.SamplingDecision {
				root.Annotate(nil, "a child is starting") // the parent is not being held
				root.AddAttributes(trace.StringAttribute("child", p.Name))
				_, sp := trace.StartSpan(ctx, "in callback", trace.WithSampler(trace.NeverSample()))
				sp.End()
				return trace.SamplingDecision{Sample: p.SpanID[1]&1 == 0}
			})}
		}
		_, c := trace.StartSpan(ctx, "mixed child", opts...)
		c.AddLink(trace.Link{TraceID: root.SpanContext().TraceID, SpanID: root.SpanContext().SpanID})
		code := rng.Int32N(17)
		if rng.IntN(4) == 0 {
			code = []int32{-1, 17, math.MaxInt32, math.MinInt32}[rng.IntN(4)]
		}
		c.SetStatus(trace.Status{Code: code})
		w.ended(c)
	}
	if rng.IntN(2) == 0 {
		wg.Wait()
	}
	w.ended(root)
	wg.Wait()
	root.AddAttributes(trace.StringAttribute("late", "x"))
	root.End()
}

func (w *world) records(rng *rand.Rand) {
	ctx, err := tag.New(context.Background(), tag.Upsert(keyA, fmt.Sprint(rng.IntN(4))), tag.Upsert(keyB, "b"))
	if err != nil {
		w.r.Violate("tag", "%v", err)
	}
	v := rng.Int64N(100)
	att := metricdata.Attachments{metricdata.AttachmentKeySpanContext: trace.SpanContext{}}
	switch rng.IntN(4) {
	case 0:
		stats.Record(ctx, w.mi.M(v), w.mf.M(float64(v)))
		w.nF.Add(1)
	case 1:
		stats.RecordWithTags(ctx, []tag.Mutator{tag.Delete(keyB)}, w.mi.M(v))
	case 2:
		stats.RecordWithOptions(ctx, stats.WithMeasurements(w.mi.M(v)), stats.WithAttachments(att))
	case 3:
		tag.Do(ctx, func(ctx context.Context) { stats.Record(ctx, w.mi.M(v)) })
	}
	w.nI.Add(1)
	w.sI.Add(v)
	stats.RecordWithOptions(ctx, stats.WithRecorder(w.meter), stats.WithMeasurements(w.mi.M(v)))
	w.nM.Add(1)
}

func (w *world) instruments(rng *rand.Rand) {
	n := rng.Int64N(5)
	e, err := w.cum.GetEntry(metricdata.NewLabelValue(fmt.Sprint(rng.IntN(5))))
	if err != nil {
		w.r.Violate("entry", "%v", err)
		return
	}
	e.Inc(n)
	w.nCum.Add(n)
	if g, err := w.gauge.GetEntry(metricdata.NewLabelValue("x"), metricdata.LabelValue{}); err == nil {
		g.Add(rng.Float64())
	}
	if rng.IntN(8) == 0 {
		if _, err := w.reg.AddInt64Gauge("late"+fmt.Sprint(rng.IntN(3)), metric.WithDescription("d")); err != nil {
			w.r.Violate("entry", "%v", err)
		}
		w.reg.Read()
	}
}

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// requests sends one request through the instrumented client and server.
func (w *world) requests(rng *rand.Rand) {
	n := rng.IntN(3000)
	var inner *trace.Span
	server := &ochttp.Handler{IsPublicEndpoint: rng.IntN(2) == 0, Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
		inner = trace.FromContext(q.Context())
		ochttp.SetRoute(q.Context(), "/route")
		io.Copy(io.Discard, q.Body)
		rw.WriteHeader(200 + rng.IntN(4)*100)
		io.Copy(rw, strings.NewReader(strings.Repeat("x", n)))
	})}
	var outer *trace.Span
	client := &ochttp.Transport{NewClientTrace: ochttp.NewSpanAnnotatingClientTrace, Base: rt(func(q *http.Request) (*http.Response, error) {
		outer = trace.FromContext(q.Context())
		sq := httptest.NewRequest(q.Method, q.URL.String(), q.Body)
		sq.Header = q.Header
		rec := httptest.NewRecorder()
		server.ServeHTTP(rec, sq)
		return rec.Result(), nil
	})}
	var opts []trace.StartOption
	if rng.IntN(2) == 0 {
		opts = append(opts, trace.WithSampler(trace.AlwaysSample()))
	}
	ctx, parent := trace.StartSpan(context.Background(), "http caller", opts...)
	q, _ := http.NewRequestWithContext(ctx, "POST", "http://host/path", bytes.NewReader(make([]byte, rng.IntN(100))))
	resp, err := client.RoundTrip(q)
	if err != nil {
		w.r.Violate("http", "%v", err)
		return
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	w.r.Check(len(b) == n, "http", "read %d bytes, want %d", len(b), n)
	w.ended(parent)
	for _, s := range []*trace.Span{inner, outer} {
		if s.SpanContext().IsSampled() {
			w.want.Store(s.SpanContext().SpanID, true)
		}
	}
	w.nHTTP.Add(1)
}

func (w *world) rpcs(rng *rand.Rand) {
	for _, client := range []bool{true, false} {
		var h gstats.Handler = &ocgrpc.ServerHandler{}
		if client {
			h = &ocgrpc.ClientHandler{}
		}
		ctx := h.TagRPC(context.Background(), &gstats.RPCTagInfo{FullMethodName: fmt.Sprint("/svc/m", rng.IntN(3))})
		sp := trace.FromContext(ctx)
		h.HandleRPC(ctx, &gstats.Begin{Client: client})
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				h.HandleRPC(ctx, &gstats.OutPayload{Client: client, Length: 10, WireLength: 15})
				h.HandleRPC(ctx, &gstats.InPayload{Client: client, Length: 10, WireLength: 15})
			}()
		}
		wg.Wait()
		var err error
		if rng.IntN(2) == 0 {
			err = status.Error(5, "no")
		}
		h.HandleRPC(ctx, &gstats.End{Client: client, Error: err})
		if sp.SpanContext().IsSampled() {
			w.want.Store(sp.SpanContext().SpanID, true)
		}
	}
	w.nRPC.Add(1)
}

// pageOps looks at everything the z-pages offer.
func (w *world) pageOps(rng *rand.Rand) {
	for _, u := range []string{"/rpcz", "/tracez", fmt.Sprintf("/tracez?zspanname=mixed+%d&ztype=%d&zsubtype=%d", rng.IntN(4), rng.IntN(3), rng.IntN(9))} {
		rec := httptest.NewRecorder()
		w.pages.ServeHTTP(rec, httptest.NewRequest("GET", "http://z"+u, nil))
		w.r.Check(rec.Code == 200 && rec.Body.Len() > 0, "zpages", "%s answers %d with %d bytes", u, rec.Code, rec.Body.Len())
	}
	zpages.WriteTextTracezSummary(io.Discard)
	zpages.WriteTextRpczPage(io.Discard)
}

func (w *world) configures(rng *rand.Rand) {
	c := trace.Config{}
	switch rng.IntN(5) {
	case 0:
		c.DefaultSampler = trace.AlwaysSample()
	case 1:
		c.DefaultSampler = trace.ProbabilitySampler(0.3)
	case 2:
		c.IDGenerator = idGen{}
	case 3:
		c.MaxAttributesPerSpan, c.MaxAnnotationEventsPerSpan = 1+rng.IntN(40), 1+rng.IntN(40)
	case 4:
		c.MaxMessageEventsPerSpan, c.MaxLinksPerSpan = 1+rng.IntN(200), 1+rng.IntN(40)
	}
	trace.ApplyConfig(c)
}

func (w *world) views(rng *rand.Rand) {
	vs := []*view.View{w.churn[rng.IntN(len(w.churn))], w.churn[rng.IntN(len(w.churn))]}
	e := &churned{}
	view.RegisterExporter(e)
	if err := view.Register(vs...); err != nil {
		w.r.Violate("register", "%v", err)
	}
	view.Find(vs[0].Name)
	view.RetrieveData(vs[0].Name)
	view.Unregister(vs...)
	view.UnregisterExporter(e)
	view.SetReportingPeriod(time.Duration(5+rng.IntN(30)) * time.Millisecond)
	w.meter.SetResource(&resource.Resource{Type: fmt.Sprint(rng.IntN(3))})
	w.meter.RetrieveData(w.mView.Name)
}

func (w *world) exporters(rng *rand.Rand) {
	e := &churned{}
	trace.RegisterExporter(e)
	runtime.Gosched()
	if rng.IntN(2) == 0 {
		time.Sleep(time.Duration(rng.IntN(200)) * time.Microsecond)
	}
	trace.UnregisterExporter(e)
	metricexport.NewReader().ReadAndExport(e)
	if rng.IntN(3) == 0 {
		m := view.NewMeter()
		m.Start()
		v := &view.View{Name: "short", Measure: w.mi, Aggregation: view.Sum()}
		if err := m.Register(v); err != nil {
			w.r.Violate("register", "%v", err)
		}
		m.RegisterExporter(e)
		stats.RecordWithOptions(context.Background(), stats.WithRecorder(m), stats.WithMeasurements(w.mi.M(3)))
		rows, _ := m.RetrieveData("short")
		w.r.Check(len(rows) == 1 && rows[0].Data.(*view.SumData).Value == 3, "short-meter", "a meter of one recording holds %v", rows)
		m.Stop()
		m.Stop()
	}
	if rng.IntN(3) == 0 {
		runmetrics.Enable(runmetrics.RunMetricOptions{EnableCPU: true, EnableMemory: rng.IntN(2) == 0, UseDerivedCumulative: true})
		if rng.IntN(2) == 0 {
			runmetrics.Disable()
		}
	}
}

func goroutines() int {
	n := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
		if m := runtime.NumGoroutine(); m < n {
			n = m
			i = 0
		}
	}
	return n
}

func total(r *mon.Run, v *view.View) (n int64, sum float64) {
	rows, err := view.RetrieveData(v.Name)
	if err != nil {
		r.Violate("retrieve", "%s: %v", v.Name, err)
	}
	for _, row := range rows {
		switch d := row.Data.(type) {
		case *view.CountData:
			n += d.Value
		case *view.SumData:
			sum += d.Value
		case *view.DistributionData:
			n += d.Count
			sum += d.Mean * float64(d.Count)
		}
	}
	return
}

func (w *world) http() (out [2]int64) {
	out[0], _ = total(w.r, ochttp.ServerLatencyView)
	out[1], _ = total(w.r, ochttp.ClientRoundtripLatencyDistribution)
	return
}

func (w *world) rpc() (out [2]int64) {
	out[0], _ = total(w.r, ocgrpc.ServerCompletedRPCsView)
	out[1], _ = total(w.r, ocgrpc.ClientCompletedRPCsView)
	return
}

func round(r *mon.Run, rng *rand.Rand, n int, out *exporter, pages http.Handler) {
	r.Case("round %d", n)
	producers := len(metricproducer.GlobalManager().GetAll())
	before := goroutines()
	w := &world{r: r, pages: pages}
	w.mi = stats.Int64(vm.Unique("int"), "", "1")
	w.mf = stats.Float64(vm.Unique("float"), "", "ms")
	w.cbM = stats.Int64(vm.Unique("callback"), "", "1")
	keys := []tag.Key{keyA, keyB}
	w.fixed = []*view.View{
		{Name: vm.Unique("count"), Measure: w.mi, TagKeys: keys, Aggregation: view.Count()},
		{Name: vm.Unique("sum"), Measure: w.mi, TagKeys: keys[:1], Aggregation: view.Sum()},
		{Name: vm.Unique("dist"), Measure: w.mf, TagKeys: keys, Aggregation: view.Distribution(1, 10, 50)},
		{Name: vm.Unique("last"), Measure: w.mi, Aggregation: view.LastValue()},
		{Name: vm.Unique("callbacks"), Measure: w.cbM, Aggregation: view.Count()},
	}
	for i := 0; i < 3; i++ {
		w.churn = append(w.churn, &view.View{Name: vm.Unique("churn"), Measure: w.mi, TagKeys: keys, Aggregation: view.Distribution(5, 50)})
	}
	if err := view.Register(w.fixed...); err != nil {
		r.Broken("register: %v", err)
		return
	}
	w.meter = view.NewMeter()
	w.meter.Start()
	w.mView = &view.View{Name: vm.Unique("own"), Measure: w.mi, Aggregation: view.Count()}
	if err := w.meter.Register(w.mView); err != nil {
		r.Broken("register: %v", err)
	}
	w.reg = metric.NewRegistry()
	w.cum, _ = w.reg.AddInt64Cumulative("cum", metric.WithLabelKeys("k"))
	w.gauge, _ = w.reg.AddFloat64Gauge("gauge", metric.WithLabelKeys("k", "l"))
	dg, _ := w.reg.AddInt64DerivedGauge("derived")
	dg.UpsertEntry(func() int64 {
		callback(w)
		if w.derive.Add(1)%4 == 0 {
			w.reg.AddFloat64DerivedGauge("made in a read")
		}
		return 1
	})
	metricproducer.GlobalManager().AddProducer(w.reg)
	p := &producer{w}
	metricproducer.GlobalManager().AddProducer(p)
	out.mu.Lock()
	out.w, out.got = w, map[trace.SpanID]int{}
	out.mu.Unlock()
	h0, g0 := w.http(), w.rpc()
	viewExp := &churned{}
	view.RegisterExporter(viewExp)
	view.SetReportingPeriod(10 * time.Millisecond)
	metExp := &churned{}
	ir, err := metricexport.NewIntervalReader(metricexport.NewReader(), metExp)
	if err != nil {
		r.Broken("interval reader: %v", err)
		return
	}
	ir.ReportingInterval = time.Second
	ir.Start()
	ops := []func(*rand.Rand){w.traces, w.traces, w.records, w.records, w.instruments, w.requests, w.rpcs, w.pageOps, w.configures, w.views, w.exporters}
	names := []string{"traces", "traces", "records", "records", "instruments", "requests", "rpcs", "pages", "configures", "views", "exporters"}
	seeds := [6]uint64{}
	for i := range seeds {
		seeds[i] = rng.Uint64()
	}
	per := 90
	if mon.Race {
		per = 45
	}
	r.Par(len(seeds), func(g int) {
		grng := rand.New(rand.NewPCG(seeds[g], 7))
		focus := grng.IntN(len(ops)) // some rounds lean on one part
		for i := 0; i < per; i++ {
			k := grng.IntN(len(ops))
			if n%2 == 1 && grng.IntN(2) == 0 {
				k = focus
			}
			ops[k](grng)
			w.ops[k].Add(1)
			r.Progress()
		}
	})
	ir.Stop()
	view.UnregisterExporter(viewExp)
	runmetrics.Disable()
	// What is left must be exact.
	r.Case("round %d, totals", n)
	w.want.Range(func(k, _ any) bool {
		out.mu.Lock()
		c := out.got[k.(trace.SpanID)]
		out.mu.Unlock()
		r.Check(c == 1, "export-once", "a sampled span was exported %d times", c)
		r.Count("spans", 1)
		return true
	})
	out.mu.Lock()
	for id, c := range out.got {
		r.Check(c == 1, "export-once", "span %v was exported %d times", id, c)
	}
	out.w = nil
	out.mu.Unlock()
	metricproducer.GlobalManager().DeleteProducer(p)
	metricproducer.GlobalManager().DeleteProducer(w.reg)
	expect := func(what string, got, want float64) {
		r.Check(vm.Close(got, want, want), "total:"+what, "%s: %v held, %v recorded", what, got, want)
		r.Count("recordings", int(want))
	}
	c, _ := total(r, w.fixed[0])
	expect("count", float64(c), float64(w.nI.Load()))
	_, s := total(r, w.fixed[1])
	expect("sum", s, float64(w.sI.Load()))
	c, _ = total(r, w.fixed[2])
	expect("distribution", float64(c), float64(w.nF.Load()))
	c, _ = total(r, w.fixed[4])
	expect("callbacks", float64(c), float64(w.nCb.Load()))
	rows, _ := w.meter.RetrieveData(w.mView.Name)
	var own int64
	for _, row := range rows {
		own += row.Data.(*view.CountData).Value
	}
	expect("own meter", float64(own), float64(w.nM.Load()))
	h1, g1 := w.http(), w.rpc()
	expect("HTTP server", float64(h1[0]-h0[0]), float64(w.nHTTP.Load()))
	expect("HTTP client", float64(h1[1]-h0[1]), float64(w.nHTTP.Load()))
	expect("RPC server", float64(g1[0]-g0[0]), float64(w.nRPC.Load()))
	expect("RPC client", float64(g1[1]-g0[1]), float64(w.nRPC.Load()))
	var cum int64
	for _, m := range w.reg.Read() {
		if m.Descriptor.Name == "cum" {
			for _, ts := range m.TimeSeries {
				cum += ts.Points[0].Value.(int64)
			}
		}
	}
	// The read itself may have run the derived function once more.
	now := w.nCum.Load()
	r.Check(cum == now || cum == now-1, "total:cumulative", "cumulative: %d held, %d recorded", cum, now)
	w.meter.Stop()
	view.Unregister(w.fixed...)
	// And nothing must be left behind.
	r.Case("round %d, remains", n)
	st := internal.Trace.(store)
	for name := range st.ReportSpansPerMethod() {
		a := st.ReportActiveSpans(name)
		r.Check(len(a) == 0, "span-left", "%d spans %q are listed as running", len(a), name)
	}
	left := len(metricproducer.GlobalManager().GetAll())
	r.Check(left == producers, "producer-left", "%d metric producers before, %d after", producers, left)
	after := goroutines()
	for i := 0; i < 20 && after > before; i++ {
		time.Sleep(50 * time.Millisecond)
		after = goroutines()
	}
	if after > before {
		b := make([]byte, 1<<16)
		r.Violate("goroutine-left", "%d goroutines before, %d after:\n%s", before, after, b[:runtime.Stack(b, true)])
	}
	log := ""
	for i := range names {
		r.Count("ops_"+names[i], int(w.ops[i].Load()))
		log += fmt.Sprint(w.ops[i].Load(), " ")
	}
	r.Count("view_exports", int(viewExp.n.Load()))
	r.Count("metric_exports", int(metExp.n.Load()))
	r.Count("callbacks", int(w.nCb.Load()))
	r.Count("exports_in_exports", int(w.nested.Load()))
	r.Eval(log)
	if n == 0 {
		r.Sample(names)
		r.Sample(log)
	}
}

func run(r *mon.Run) {
	rng := r.Rand("c24")
	mux := http.NewServeMux()
	zpages.Handle(mux, "/")
	if err := view.Register(append(append(append([]*view.View{}, ochttp.DefaultServerViews...), ochttp.ClientRoundtripLatencyDistribution), append(ocgrpc.DefaultServerViews, ocgrpc.DefaultClientViews...)...)...); err != nil {
		r.Broken("register: %v", err)
	}
	out := &exporter{got: map[trace.SpanID]int{}}
	trace.RegisterExporter(out)
	rounds := r.N(24, 12)
	if mon.Race {
		rounds = r.N(8, 12)
	}
	for i := 0; i < rounds; i++ {
		round(r, rng, i, out, mux)
	}
	r.Require("spans", 500)
	r.Require("recordings", 3000)
	r.Require("callbacks", 1000)
	r.Require("view_exports", 10)
	r.Require("exports_in_exports", 50)
	r.Require("metric_exports", 1)
	for _, n := range []string{"pages", "configures", "views", "exporters", "requests", "rpcs"} {
		r.Require("ops_"+n, 50)
	}
}
