// Monitor for C26: what has ended is let go of.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"strings"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/plugin/runmetrics"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	tprop "go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
	"go.opencensus.io/zpages"
	grpcstats "google.golang.org/grpc/stats"
)

func main() { mon.Main("C26", run) }

// load is an operation that, once done, should leave nothing behind. The
// number is different for each operation; x is of its own size.
type load struct {
	name string
	n    int // operations per round
	do   func(i int)
	done func()
}

type nothing struct{ pad [64]byte }

func (*nothing) ExportSpan(*trace.SpanData)                                       {}
func (*nothing) ExportView(*view.Data)                                            {}
func (*nothing) ExportMetrics(_ context.Context, data []*metricdata.Metric) error { return nil }
func (*nothing) Read() []*metricdata.Metric                                       { return nil }

type fakeTripper struct{}

func (fakeTripper) RoundTrip(q *http.Request) (*http.Response, error) {
	if strings.HasSuffix(q.URL.Path, "7") {
		return nil, errors.New("no transport")
	}
	if q.Body != nil {
		io.Copy(io.Discard, q.Body)
		q.Body.Close()
	}
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader("response")), Header: http.Header{}, Request: q}, nil
}

func heap() (bytes, objects uint64) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc, m.Mallocs - m.Frees
}

// measure repeats a load and sees whether memory or goroutines grow with it.
func measure(r *mon.Run, l load) {
	start := time.Now()
	next := 1_000_000
	round := func(n int) {
		for i := 0; i < n; i++ {
			next++
			l.do(next)
			if i%64 == 0 {
				r.Progress()
			}
		}
	}
	round(l.n / 2)
	g0 := runtime.NumGoroutine()
	b0, o0 := heap()
	const rounds = 4
	grew := 0
	prev := b0
	var b, o uint64
	// The smallest thing kept per operation takes 8 bytes. The runtime itself keeps
	// up to 128 waiting records for each processor, and whatever goroutines that
	// once were alive together took: what looks like growth must go on with four
	// times the operations.
	const slackB, slackO = 150 << 10, 1200
	var ops, perB, perO float64
	grows := func(k int) bool {
		ops = float64(k * l.n)
		perB, perO = (float64(b)-float64(b0))/ops, (float64(o)-float64(o0))/ops
		return (perB > 6 && perB*ops > slackB) || (perO > 0.5 && perO*ops > slackO)
	}
	done, memory := 0, false
	for done < rounds || (memory && done < 4*rounds) {
		round(l.n)
		done++
		b, o = heap()
		if b > prev {
			grew++
		}
		prev = b
		r.Count("operations", l.n)
		memory = grows(done)
	}
	for i := 0; i < 500 && runtime.NumGoroutine() > g0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if g := runtime.NumGoroutine(); g > g0+done*l.n/20 || g > g0+20 {
		r.Violate("goroutines-grow:"+l.name, "%s: %d goroutines before %d operations, %d after", l.name, g0, done*l.n, g)
	}
	if memory {
		r.Violate("memory-grows:"+l.name, "%s: %.1f bytes and %.2f objects are kept for each of %d operations (growing in %d of %d rounds)", l.name, perB, perO, done*l.n, grew, done)
	}
	r.Count("loads", 1)
	if os.Getenv("C26_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %.1f %.2f (%d) grew %d  %v\n", l.name, perB, perO, done*l.n, grew, time.Since(start))
	}
	r.Eval(fmt.Sprintf("%s %v", l.name, internal.LocalSpanStoreEnabled))
	r.Sample(fmt.Sprintf("%s: %.2f bytes, %.3f objects per operation, %d goroutines more", l.name, perB, perO, runtime.NumGoroutine()-g0))
	if l.done != nil {
		l.done()
	}
}

// bounded adds to one running span, and sees that its limits bound what it holds.
func bounded(r *mon.Run, name string, add func(sp *trace.Span, i int)) {
	_, sp := trace.StartSpan(context.Background(), "long", trace.WithSampler(trace.AlwaysSample()))
	measure(r, load{name: "a running span: " + name, n: 4000, do: func(i int) { add(sp, i) }})
	sp.End()
}

func run(r *mon.Run) {
	r.Require("loads", 20)
	r.Require("operations", 1000)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), MaxAttributesPerSpan: 8, MaxAnnotationEventsPerSpan: 8, MaxMessageEventsPerSpan: 8, MaxLinksPerSpan: 8})
	ex := &nothing{}
	trace.RegisterExporter(ex)
	mult := r.N(1, 4)

	k1, k2 := tag.MustNewKey("k1"), tag.MustNewKey("k2")
	m := stats.Float64("c26", "", stats.UnitBytes)
	aggs := []*view.Aggregation{view.Count(), view.Sum(), view.LastValue(), view.Distribution(1, 10, 100)}
	var views []*view.View
	for i, a := range aggs {
		views = append(views, &view.View{Name: fmt.Sprint("c26-", i), Measure: m, Aggregation: a, TagKeys: []tag.Key{k1}})
	}
	if err := view.Register(views...); err != nil {
		r.Broken("%v", err)
		return
	}
	view.SetReportingPeriod(time.Hour)
	sync := func() { view.RetrieveData("c26-0") }

	reg := metric.NewRegistry()
	gauge, _ := reg.AddInt64Gauge("g", metric.WithLabelKeys("l"))
	cumul, _ := reg.AddFloat64Cumulative("c", metric.WithLabelKeys("l"))
	derived, _ := reg.AddInt64DerivedCumulative("d", metric.WithLabelKeys("l"))
	reader := metricexport.NewReader()

	payload := func(i int) string { return fmt.Sprint("payload ", i, " of some length") }
	one := func(*http.Request) string { return "request" }
	handler := &ochttp.Handler{FormatSpanName: one, Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		ochttp.SetRoute(q.Context(), "/route")
		io.Copy(io.Discard, q.Body)
		io.WriteString(w, "body")
		if q.URL.RawQuery == "wait" {
			w.(http.Flusher).Flush()
			<-q.Context().Done()
		}
		if strings.HasSuffix(q.URL.Path, "77") {
			panic(http.ErrAbortHandler)
		}
	})}
	if err := view.Register(ochttp.ServerLatencyView, ochttp.ClientRoundtripLatencyDistribution,
		&view.View{Name: "rpc1", Measure: ocgrpc.ClientRoundtripLatency, Aggregation: view.Distribution(1, 2, 3)},
		&view.View{Name: "rpc2", Measure: ocgrpc.ServerReceivedBytesPerRPC, Aggregation: view.Sum(), TagKeys: []tag.Key{ocgrpc.KeyServerStatus}}); err != nil {
		r.Broken("%v", err)
		return
	}
	transports := []*ochttp.Transport{{Base: fakeTripper{}, FormatSpanName: one}, {FormatSpanName: one, Base: fakeTripper{}, Propagation: &tracecontext.HTTPFormat{}, NewClientTrace: ochttp.NewSpanAnnotatingClientTrace}}
	server := httptest.NewUnstartedServer(handler)
	server.Config.ErrorLog = log.New(io.Discard, "", 0)
	server.Start()
	defer server.Close()
	client := &http.Client{Transport: &ochttp.Transport{FormatSpanName: one, NewClientTrace: ochttp.NewSpanAnnotatingClientTrace}}
	mux := http.NewServeMux()
	zpages.Handle(mux, "/z")
	internal.LocalSpanStoreEnabled = r.Shard%2 == 1
	// The pages have views with a row for each method.
	view.Unregister(ocgrpc.DefaultClientViews...)
	view.Unregister(ocgrpc.DefaultServerViews...)
	view.Unregister(ocgrpc.ClientSentMessagesPerRPCView, ocgrpc.ClientReceivedMessagesPerRPCView, ocgrpc.ServerReceivedMessagesPerRPCView, ocgrpc.ServerSentMessagesPerRPCView)

	// It all happens within something that could be called off and goes on for
	// longer than any of it.
	alive, callOff := context.WithCancel(context.Background())
	defer callOff()
	loads := []load{
		{"spans", 1500, func(i int) {
			ctx, sp := trace.StartSpan(alive, fmt.Sprint("span", i%3))
			sp.AddAttributes(trace.StringAttribute(payload(i), payload(i)))
			sp.Annotate([]trace.Attribute{trace.StringAttribute("a", payload(i))}, payload(i))
			sp.AddMessageSendEvent(int64(i), 1, 1)
			_, c := trace.StartSpan(ctx, "child", trace.WithSampler([]trace.Sampler{nil, trace.NeverSample(), trace.ProbabilitySampler(0.5)}[i%3]))
			sp.AddLink(trace.Link{TraceID: c.SpanContext().TraceID, Attributes: map[string]interface{}{"x": payload(i)}})
			c.SetStatus(trace.Status{Code: int32(i % 5), Message: payload(i)})
			if i%2 == 0 {
				c.SetName(payload(i))
			}
			c.End()
			sp.End()
			sp.AddAttributes(trace.StringAttribute(payload(i), "late"))
			sp.End()
		}, nil},
		{"remote spans", 2000, func(i int) {
			ts, _ := tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint(i)})
			sc := trace.SpanContext{TraceID: trace.TraceID{1, byte(i)}, SpanID: trace.SpanID{byte(i >> 8), 1}, Tracestate: ts}
			_, sp := trace.StartSpanWithRemoteParent(alive, "remote", sc)
			sp.End()
		}, nil},
		{"tags", 2000, func(i int) {
			ctx, _ := tag.New(alive, tag.Upsert(k1, payload(i)), tag.Insert(k2, "x"))
			tag.Do(ctx, func(ctx context.Context) {})
			b := tag.Encode(tag.FromContext(ctx))
			tag.Decode(b)
			tag.Decode(b[:len(b)-1])
			tag.New(ctx, tag.Upsert(k1, "\x01"))
			if k, err := tag.NewKey(fmt.Sprint("k", i)); err == nil {
				ctx, _ = tag.New(ctx, tag.Insert(k, "x"), tag.Update(k, payload(i)), tag.Delete(k1))
				stats.Record(ctx, m.M(1))
			}
			tag.NewKey("\x01" + payload(i))
		}, sync},
		{"recordings", 3000, func(i int) {
			ctx, _ := tag.New(alive, tag.Upsert(k1, fmt.Sprint(i%3)), tag.Upsert(k2, payload(i)))
			stats.RecordWithOptions(ctx, stats.WithMeasurements(m.M(float64(i%200))), stats.WithAttachments(metricdata.Attachments{payload(i): payload(i)}))
			stats.Record(ctx, m.M(1))
			stats.RecordWithTags(ctx, []tag.Mutator{tag.Upsert(k1, "\x01")}, m.M(1))
			if i%500 == 0 {
				sync()
			}
		}, nil},
		{"views", 2000, func(i int) {
			v := &view.View{Name: payload(i), Measure: m, Aggregation: aggs[i%4], TagKeys: []tag.Key{k1, k2}}
			if err := view.Register(v); err != nil {
				r.Broken("%v", err)
			}
			ctx, _ := tag.New(alive, tag.Upsert(k2, payload(i)))
			stats.Record(ctx, m.M(1))
			view.Unregister(v)
			view.Register(&view.View{Name: payload(i), Measure: m}) // invalid
			view.Unregister(v)
		}, nil},
		{"view exporters", 2000, func(i int) {
			e := &nothing{}
			view.RegisterExporter(e)
			view.UnregisterExporter(e)
			te := &nothing{}
			trace.RegisterExporter(te)
			trace.UnregisterExporter(te)
		}, nil},
		{"meters", 1500, func(i int) {
			mt := view.NewMeter()
			mt.Start()
			mt.SetResource(&resource.Resource{Type: payload(i)})
			mt.Register(views...)
			stats.RecordWithOptions(alive, stats.WithRecorder(mt), stats.WithMeasurements(m.M(3)))
			for _, p := range metricproducer.GlobalManager().GetAll() {
				p.Read()
			}
			mt.RegisterExporter(&nothing{})
			mt.Stop()
			mt.Stop()
		}, nil},
		{"instruments", 2000, func(i int) {
			l := metricdata.NewLabelValue(fmt.Sprint(i % 3))
			e, _ := gauge.GetEntry(l)
			e.Set(int64(i))
			f, _ := cumul.GetEntry(l)
			f.Inc(1)
			derived.UpsertEntry(func() int64 { return int64(i) }, l)
			gauge.GetEntry()
			g, _ := reg.AddFloat64DerivedGauge("again", metric.WithDescription(payload(i)))
			g.UpsertEntry(func() float64 { return float64(i) })
			reg.AddInt64Gauge("again")
			if i%10 == 0 {
				reg.Read()
			}
		}, nil},
		{"registries", 1500, func(i int) {
			g := metric.NewRegistry()
			metricproducer.GlobalManager().AddProducer(g)
			e, _ := g.AddInt64Cumulative(payload(i))
			e.GetEntry()
			p := &nothing{}
			metricproducer.GlobalManager().AddProducer(p)
			reader.ReadAndExport(ex)
			metricproducer.GlobalManager().DeleteProducer(g)
			metricproducer.GlobalManager().DeleteProducer(p)
		}, nil},
		{"readers", 4000, func(i int) {
			ir, err := metricexport.NewIntervalReader(metricexport.NewReader(metricexport.WithSpanName("c26")), &nothing{})
			if err != nil {
				r.Broken("%v", err)
			}
			ir.ReportingInterval = time.Hour
			ir.Start()
			ir.Start()
			ir.Stop()
			ir.Flush()
		}, nil},
		{"server requests", 2000, func(i int) {
			defer func() { recover() }()
			q := httptest.NewRequest("POST", "/"+fmt.Sprint(i), strings.NewReader(payload(i)))
			q.Host = fmt.Sprint("host", i)
			q.Header.Set("User-Agent", payload(i))
			q.Header.Set("X-B3-TraceId", fmt.Sprintf("%032x", i))
			q.Header.Set("X-B3-SpanId", fmt.Sprintf("%016x", i))
			handler.ServeHTTP(httptest.NewRecorder(), q.WithContext(alive))
		}, sync},
		{"client requests", 2000, func(i int) {
			u := &url.URL{Scheme: "http", Host: fmt.Sprint("host", i), Path: "/" + fmt.Sprint(i)}
			q := (&http.Request{Method: "POST", URL: u, Host: u.Host, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(payload(i))))}).WithContext(alive)
			resp, err := transports[i%2].RoundTrip(q)
			if err == nil {
				if i%3 == 0 {
					io.Copy(io.Discard, resp.Body)
				}
				resp.Body.Close()
			}
		}, sync},
		{"requests over loopback", 300, func(i int) {
			ctx, cancel := context.WithCancel(alive)
			defer cancel()
			to := server.URL + "/" + fmt.Sprint(i)
			if i%5 == 0 {
				to += "?wait"
			}
			q, _ := http.NewRequestWithContext(ctx, "POST", to, strings.NewReader(payload(i)))
			resp, err := client.Do(q)
			if err != nil {
				return // the handler panicked
			}
			if i%5 == 0 {
				io.ReadFull(resp.Body, make([]byte, 1))
				cancel()
			} else if i%3 == 0 {
				io.Copy(io.Discard, resp.Body)
			}
			resp.Body.Close()
		}, sync},
		{"RPCs", 2000, func(i int) {
			for _, h := range []grpcstats.Handler{&ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{IsPublicEndpoint: i%2 == 0}} {
				_, client := h.(*ocgrpc.ClientHandler)
				method := fmt.Sprint("/s/m", i%3)
				if !internal.LocalSpanStoreEnabled { // which keeps something for every span name
					method = fmt.Sprint("/s/m", i)
				}
				ctx := h.TagRPC(alive, &grpcstats.RPCTagInfo{FullMethodName: method})
				h.HandleRPC(ctx, &grpcstats.Begin{Client: client})
				h.HandleRPC(ctx, &grpcstats.InPayload{Client: client, Length: i})
				h.HandleRPC(ctx, &grpcstats.OutPayload{Client: client, Length: i})
				var err error
				if i%4 == 0 {
					err = errors.New(payload(i))
				}
				h.HandleRPC(ctx, &grpcstats.End{Client: client, Error: err})
			}
		}, sync},
		{"propagation", 1500, func(i int) {
			ts, _ := tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint(i)})
			ts, _ = tracestate.New(ts, tracestate.Entry{Key: "l", Value: fmt.Sprint(i)})
			sc := trace.SpanContext{TraceID: trace.TraceID{1, byte(i)}, SpanID: trace.SpanID{byte(i >> 8), 1}, Tracestate: ts}
			tprop.FromBinary(tprop.Binary(sc))
			for _, f := range []tprop.HTTPFormat{&b3.HTTPFormat{}, &tracecontext.HTTPFormat{}, &propagation.HTTPFormat{}} {
				q := &http.Request{Header: http.Header{}}
				f.SpanContextToRequest(sc, q)
				f.SpanContextFromRequest(q)
			}
			s := resource.EncodeLabels(map[string]string{"a": payload(i)})
			resource.DecodeLabels(s)
		}, nil},
		{"configurations", 1000, func(i int) {
			trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(float64(i%10) / 10), MaxLinksPerSpan: 8 + i%3})
			sc := views[i%4].Name
			if v := view.Find(sc); v == nil {
				r.Broken("view %q is gone", sc)
			}
			view.SetReportingPeriod(time.Hour + time.Duration(i))
		}, func() { trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()}) }},
		{"runtime metrics", 1500, func(i int) {
			runmetrics.Enable(runmetrics.RunMetricOptions{EnableCPU: true, EnableMemory: true, UseDerivedCumulative: i%2 == 0, Prefix: fmt.Sprint(i)})
			reader.ReadAndExport(ex)
			if i%3 == 0 {
				runmetrics.Disable()
			}
		}, runmetrics.Disable},
		{"recordings of no view", 3000, func(i int) {
			stats.Record(alive, stats.Int64("c26 unused", "", "1").M(int64(i)))
		}, nil},
	}
	pages := load{name: "pages", n: 150, do: func(i int) {
		for _, p := range []string{"/z/tracez", "/z/rpcz", "/z/tracez?zspanname=span1&ztype=1&zsubtype=0", "/z/tracez?zspanname=span1&ztype=0&zsubtype=0", fmt.Sprint("/z/tracez?zspanname=none", i)} {
			w := httptest.NewRecorder()
			mux.ServeHTTP(w, httptest.NewRequest("GET", p, nil))
		}
	}}
	for _, l := range append(loads, pages) {
		r.Case("%s", l.name)
		l.n *= mult
		if l.name == "pages" {
			internal.LocalSpanStoreEnabled = true
		}
		r.Do(l.name, func() { measure(r, l) })
	}
	bounded(r, "attributes", func(sp *trace.Span, i int) { sp.AddAttributes(trace.StringAttribute(payload(i), payload(i))) })
	bounded(r, "annotations", func(sp *trace.Span, i int) { sp.Annotate(nil, payload(i)) })
	bounded(r, "message events", func(sp *trace.Span, i int) { sp.AddMessageReceiveEvent(int64(i), 1, 2) })
	bounded(r, "links", func(sp *trace.Span, i int) { sp.AddLink(trace.Link{Attributes: map[string]interface{}{payload(i): 1}}) })
	bounded(r, "children", func(sp *trace.Span, i int) {
		_, c := trace.StartSpan(trace.NewContext(alive, sp), "child")
		c.End()
	})
	bounded(r, "names and states", func(sp *trace.Span, i int) {
		sp.SetName(payload(i))
		sp.SetStatus(trace.Status{Code: int32(i), Message: payload(i)})
		_ = sp.String()
	})
}
