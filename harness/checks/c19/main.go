// Monitor for C19: the instrumented HTTP server.
package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	tprop "go.opencensus.io/trace/propagation"
	hm "go.opencensus.io/verifmon/httpmon"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C19", run) }

type op struct {
	kind string
	n    int
}

// want is what one request is to do, and what was seen of it.
type want struct {
	host, path, method, ua string
	ops                    []op
	reqLen                 int64 // -1: no body, -2: body of unknown length
	sampler                int   // 0 default (always), 1 always, 2 never
	perRequest             bool  // given by GetStartOptions
	nameFn                 bool
	public                 bool
	health                 bool
	healthFn               bool
	route                  string
	routeBy                int // 0 none, 1 WithRouteTag, 2 SetRoute
	format                 int // 0 default, 1 b3, 2 tracecontext, 3 google
	remote                 *trace.SpanContext
	useMux                 bool
	real                   bool
	through                *ochttp.Handler // shared with other requests

	// seen
	url            string
	status         int // the first final one, 0: unknown
	bytes          int64
	writes         int
	inner, outer   time.Duration
	sc             trace.SpanContext
	hadSpan        bool
	childID        trace.SpanID
	handled        bool
	ended          bool
	exportedInside int
	results        []string // of its writes
	clientStatus   int
	clientBytes    int64
	wrongIfaces    string
	claimed        atomic.Bool   // reached the server, or never will
	served         chan struct{} // closed when it has been served
	unreached      bool
}

var formats = []tprop.HTTPFormat{nil, &b3.HTTPFormat{}, &tracecontext.HTTPFormat{}, &propagation.HTTPFormat{}}

func randWant(rng *rand.Rand) *want {
	w := &want{host: vm.Unique("h") + ".test", method: []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"}[rng.IntN(6)]}
	w.path = "/x" + hm.Pad(rng)
	if rng.IntN(3) > 0 {
		w.ua = "agent/" + fmt.Sprint(rng.IntN(10))
	}
	for k := rng.IntN(7); k > 0; k-- {
		switch rng.IntN(10) {
		case 0, 1:
			w.ops = append(w.ops, op{"header", hm.Code(rng)})
		case 2:
			w.ops = append(w.ops, op{"header", []int{103, 102}[rng.IntN(2)]})
		case 3:
			w.ops = append(w.ops, op{"flush", 0})
		case 4, 5:
			w.ops = append(w.ops, op{"copy", 1 + rng.IntN(3000)})
		case 6:
			w.ops = append(w.ops, op{"child", 0})
		default:
			w.ops = append(w.ops, op{"write", rng.IntN(3) * rng.IntN(2000)})
		}
	}
	if rng.IntN(12) == 0 {
		w.ops = append(w.ops, op{"panic", 0})
	}
	w.reqLen = []int64{-1, -2, int64(1 + rng.IntN(5000))}[rng.IntN(3)]
	if w.method == "GET" || w.method == "HEAD" {
		w.reqLen = -1
	}
	w.sampler = []int{0, 1, 1, 1, 2}[rng.IntN(5)]
	w.perRequest = rng.IntN(3) == 0
	w.nameFn = rng.IntN(3) == 0
	w.public = rng.IntN(4) == 0
	switch rng.IntN(10) {
	case 0:
		w.health, w.path = true, []string{"/healthz", "/_ah/health"}[rng.IntN(2)]
	case 1:
		w.health, w.healthFn = true, true
	case 2: // nearly a health check, and none
		w.path = []string{"/healthz/", "/healthzz", "/_ah/health/", "/Healthz", "/x/healthz", "/_ah/healthz", "/_ah"}[rng.IntN(7)]
	}
	w.routeBy = rng.IntN(3)
	if w.routeBy > 0 {
		w.route = []string{"/r/:id", "/r", strings.Repeat("r", 300), "r\x02", "é"}[rng.IntN(5)]
	}
	w.format = rng.IntN(4)
	if rng.IntN(2) == 0 {
		sc := &trace.SpanContext{TraceOptions: trace.TraceOptions(rng.IntN(2))}
		for i := range sc.TraceID {
			sc.TraceID[i] = byte(rng.IntN(256))
		}
		for i := range sc.SpanID {
			sc.SpanID[i] = byte(rng.IntN(256))
		}
		sc.TraceID[3], sc.SpanID[5] = 1, 1
		w.remote = sc
	}
	return w
}

func (w *want) sampled() bool { return w.sampler != 2 }

// pure hides all interfaces but Reader.
type pure struct{ io.Reader }

// serve is the handler within the instrumented one.
func (w *want) serve(r *mon.Run, spans *hm.Spans, rw http.ResponseWriter, req *http.Request) {
	t0 := time.Now()
	defer func() { w.inner = time.Since(t0) }()
	w.handled = true
	span := trace.FromContext(req.Context())
	w.hadSpan = span != nil
	if span != nil {
		w.sc = span.SpanContext()
	}
	w.url = req.URL.String()
	if w.routeBy == 2 {
		ochttp.SetRoute(req.Context(), w.route)
	} else if w.routeBy == 1 && hm.Tag(w.route) != "" {
		v, ok := tag.FromContext(req.Context()).Value(ochttp.KeyServerRoute)
		r.Check(ok && v == w.route, "route-context", "the context's route tag is %q, not %q", v, w.route)
	}
	if w.reqLen > 0 || w.reqLen == -2 {
		b, err := io.ReadAll(req.Body)
		if err == nil && w.reqLen > 0 {
			r.Check(int64(len(b)) == w.reqLen, "request-body", "the handler reads %d bytes of a body of %d", len(b), w.reqLen)
		}
	}
	final := func(code int) {
		if w.status == 0 && (code >= 200 || code == 101) {
			w.status = code
		}
	}
	for _, o := range w.ops {
		switch o.kind {
		case "header":
			o.drive(rw)
			final(o.n)
		case "write", "copy":
			final(200)
			n, err := o.drive(rw)
			w.bytes += n
			w.writes++
			w.results = append(w.results, fmt.Sprint(n, err))
		case "flush":
			if _, ok := rw.(http.Flusher); ok {
				final(200)
				o.drive(rw)
			}
		case "pause":
			for i := 0; i < o.n; i++ {
				runtime.Gosched()
			}
			time.Sleep(time.Duration(o.n) * time.Microsecond)
		case "child":
			_, c := trace.StartSpan(req.Context(), "child")
			c.AddAttributes(trace.StringAttribute(ochttp.HostAttribute, "child-of-"+w.host))
			w.childID = c.SpanContext().SpanID
			c.End()
		case "panic":
			w.exportedInside = spans.Peek(w.host)
			panic(http.ErrAbortHandler)
		}
	}
	final(200)
	w.exportedInside = spans.Peek(w.host)
}

type wantKey struct{}

var byHost sync.Map

// handler builds the instrumented handler for the request.
func (w *want) handler(r *mon.Run, spans *hm.Spans) *ochttp.Handler {
	h := &ochttp.Handler{Propagation: formats[w.format], IsPublicEndpoint: w.public}
	var inner http.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { w.serve(r, spans, rw, req) })
	if w.routeBy == 1 {
		inner = ochttp.WithRouteTag(inner, w.route)
	}
	if !w.useMux {
		h.Handler = inner
	}
	smp := []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[w.sampler]
	if w.perRequest {
		h.StartOptions.Sampler = trace.NeverSample() // ignored
		if w.sampler == 2 {
			h.StartOptions.Sampler = trace.AlwaysSample()
		}
		h.GetStartOptions = func(*http.Request) trace.StartOptions {
			return trace.StartOptions{Sampler: smp, SpanKind: trace.SpanKindClient}
		}
	} else {
		h.StartOptions = trace.StartOptions{Sampler: smp, SpanKind: trace.SpanKindUnspecified}
	}
	if w.nameFn {
		h.FormatSpanName = func(q *http.Request) string { return "named " + q.Method + q.URL.Path }
	}
	if w.healthFn {
		h.IsHealthEndpoint = func(q *http.Request) bool { return q.Host == w.host }
	} else if w.host[len(w.host)-6]%2 == 0 { // often there is none
		h.IsHealthEndpoint = func(q *http.Request) bool { return false }
	}
	return h
}

// outer calls the instrumented handler and watches it from outside.
func (w *want) around(r *mon.Run, spans *hm.Spans, rw http.ResponseWriter, req *http.Request) {
	if w.remote != nil {
		f := formats[w.format]
		if f == nil {
			f = formats[1]
		}
		f.SpanContextToRequest(*w.remote, req)
	}
	t0 := time.Now()
	defer func() {
		w.outer = time.Since(t0)
		w.ended = true
		if w.sampled() && !w.health {
			r.Check(spans.Peek(w.host) == 1, "span-ends", "%d spans exported when the handler has returned", spans.Peek(w.host))
		}
	}()
	h := w.through
	if h == nil {
		h = w.handler(r, spans)
	}
	h.ServeHTTP(rw, req)
}

// judge compares all that was seen of a request with what is expected.
func (w *want) judge(r *mon.Run, spans *hm.Spans, totals map[string]map[string][]hm.Total) {
	desc := fmt.Sprintf("%s %q ops %v", w.method, w.path, w.ops)
	bad := func(sig, f string, a ...any) { r.Violate(sig, "%s: %s", desc, fmt.Sprintf(f, a...)) }
	if !w.handled || !w.ended {
		bad("not-handled", "the handler was not called")
		return
	}
	panics := len(w.ops) > 0 && w.ops[len(w.ops)-1].kind == "panic"
	known := !panics || w.status != 0
	if w.wrongIfaces != "" {
		bad("interfaces", "%s", w.wrongIfaces)
	}
	// Statistics.
	for name, byHost := range totals {
		rows := byHost[w.host]
		expect := 1
		var sum float64
		tags := map[string]string{}
		put := func(k, v string) {
			if hm.Tag(v) != "" {
				tags[k] = v
			}
		}
		put("http.host", w.host)
		put("http.path", w.path)
		put("http.method", w.method)
		if name != ochttp.ServerRequestCount.Name() {
			if known {
				put("http.status", fmt.Sprint(w.status))
			}
			if w.routeBy == 2 || w.routeBy == 1 && !panics {
				put("http_server_route", w.route)
			}
		}
		switch name {
		case ochttp.ServerRequestCount.Name():
			sum = 1
		case ochttp.ServerResponseBytes.Name():
			sum = float64(w.bytes)
		case ochttp.ServerRequestBytes.Name():
			switch {
			case w.reqLen == -1:
				if w.real && len(rows) == 1 { // HTTP/2 gives a body of no bytes
					break
				}
				expect = 0
			case w.reqLen > 0:
				sum = float64(w.reqLen)
			}
		}
		if len(rows) != expect || expect == 1 && rows[0].N != 1 {
			bad("stats-count", "%s recorded %v, want %d recording", name, rows, expect)
			continue
		}
		if expect == 0 {
			continue
		}
		if !known {
			delete(rows[0].Tags, "http.status")
		}
		if !reflect.DeepEqual(rows[0].Tags, tags) {
			bad("stats-tags", "%s has tags %q, want %q", name, rows[0].Tags, tags)
		}
		if name == ochttp.ServerLatency.Name() {
			lo, hi := float64(w.inner)/1e6, float64(w.outer)/1e6
			if rows[0].Sum < lo-0.001 || rows[0].Sum > hi+0.001 {
				bad("stats-latency", "latency %v ms is not within [%v,%v]", rows[0].Sum, lo, hi)
			}
		} else if rows[0].Sum != sum {
			bad("stats-value", "%s is %v, want %v", name, rows[0].Sum, sum)
		}
		r.Count("measures_compared", 1)
	}
	if w.real && !panics && w.clientStatus != 0 {
		if w.clientStatus != w.status {
			r.Broken("the client got status %d, the monitor's model says %d: %s", w.clientStatus, w.status, desc)
		}
		if w.method != "HEAD" && w.clientBytes != w.bytes {
			bad("response-body", "the client got %d bytes of %d", w.clientBytes, w.bytes)
		}
	}
	// The span.
	ds := spans.Take(w.host)
	if w.health {
		if w.hadSpan || len(ds) > 0 {
			bad("health-traced", "a health endpoint is traced")
		}
		r.Count("health", 1)
		return
	}
	if !w.hadSpan {
		bad("no-span", "the request's context has no span")
		return
	}
	if w.sc.IsSampled() != w.sampled() {
		bad("sampler", "span sampled %v with sampler %d", w.sc.IsSampled(), w.sampler)
	}
	if w.remote != nil && !w.public != (w.sc.TraceID == w.remote.TraceID) {
		bad("parent", "trace ID %v, the request's %v, public %v", w.sc.TraceID, w.remote.TraceID, w.public)
	}
	if w.exportedInside > 0 {
		bad("span-ends", "the span ended before the handler returned")
	}
	if !w.sampled() {
		if len(ds) > 0 {
			bad("sampler", "an unsampled span is exported")
		}
		return
	}
	if len(ds) != 1 {
		bad("span-count", "%d spans exported", len(ds))
		return
	}
	d := ds[0]
	if d.SpanContext.SpanID != w.sc.SpanID {
		bad("span-context", "the handler saw another span than was exported")
	}
	if w.childID != (trace.SpanID{}) {
		for _, c := range spans.Take("child-of-" + w.host) {
			r.Check(c.ParentSpanID == d.SpanID && c.TraceID == d.TraceID, "span-context", "a span started by the handler is no child of the request's")
		}
	}
	name := w.path
	if w.nameFn {
		name = "named " + w.method + w.path
	}
	if d.Name != name || d.SpanKind != trace.SpanKindServer {
		bad("span-name", "span %q of kind %d, want %q", d.Name, d.SpanKind, name)
	}
	if w.remote != nil && !w.public {
		if d.ParentSpanID != w.remote.SpanID || !d.HasRemoteParent || len(d.Links) != 0 {
			bad("parent", "parent %v remote %v links %v, want remote parent %v", d.ParentSpanID, d.HasRemoteParent, d.Links, w.remote.SpanID)
		}
	} else {
		if d.ParentSpanID != (trace.SpanID{}) || d.HasRemoteParent {
			bad("parent", "parent %v of a root span", d.ParentSpanID)
		}
		if w.remote != nil {
			if len(d.Links) != 1 || d.Links[0].TraceID != w.remote.TraceID || d.Links[0].SpanID != w.remote.SpanID || d.Links[0].Type != trace.LinkTypeParent {
				bad("link", "links %v, want one to the request's %v", d.Links, w.remote)
			}
		} else if len(d.Links) != 0 {
			bad("link", "links %v", d.Links)
		}
	}
	attrs := map[string]any{"http.host": w.host, "http.path": w.path, "http.method": w.method, "http.url": w.url}
	if w.ua != "" {
		attrs["http.user_agent"] = w.ua
	}
	if known {
		attrs["http.status_code"] = int64(w.status)
		if d.Status != hm.Status(w.status) {
			bad("span-status", "status %v for %d, want %v", d.Status, w.status, hm.Status(w.status))
		}
	} else {
		delete(d.Attributes, "http.status_code")
	}
	if !reflect.DeepEqual(d.Attributes, attrs) {
		bad("span-attributes", "attributes %v, want %v", d.Attributes, attrs)
	}
	var sent, received int64
	var ns, nr int
	for _, e := range d.MessageEvents {
		if e.EventType == trace.MessageEventTypeSent {
			sent += e.UncompressedByteSize
			ns++
		} else {
			received += e.UncompressedByteSize
			nr++
		}
	}
	if sent != w.bytes || ns > 0 && w.writes == 0 {
		bad("message-events", "%d send events of %d bytes for %d writes of %d bytes", ns, sent, w.writes, w.bytes)
	}
	wr, wn := max(w.reqLen, 0), 0
	if wr > 0 {
		wn = 1
	}
	if received != wr || nr != wn {
		bad("message-events", "%d receive events of %d bytes for a body of %d", nr, received, w.reqLen)
	}
	r.Count("spans_compared", 1)
}

// drive makes the calls of the step on the writer.
func (o op) drive(rw http.ResponseWriter) (n int64, err error) {
	switch o.kind {
	case "header":
		rw.WriteHeader(o.n)
	case "write":
		var k int
		k, err = rw.Write(bytes.Repeat([]byte("w"), o.n))
		n = int64(k)
	case "copy":
		n, err = io.Copy(rw, pure{bytes.NewReader(bytes.Repeat([]byte("c"), o.n))})
	case "flush":
		if f, ok := rw.(http.Flusher); ok {
			f.Flush()
		}
	}
	return n, err
}

// fakeWriter is an http.ResponseWriter with all optional interfaces.
type fakeWriter struct {
	h      http.Header
	status int
	calls  map[string]int
	n      int64
	log    []string // the calls made
}

func (f *fakeWriter) Header() http.Header { return f.h }
func (f *fakeWriter) WriteHeader(c int) {
	f.log = append(f.log, fmt.Sprint("header ", c))
	f.sendHeader(c)
}
func (f *fakeWriter) sendHeader(c int) {
	if f.status == 0 && c >= 200 {
		f.status = c
	}
}
func (f *fakeWriter) Write(b []byte) (int, error) {
	f.log = append(f.log, fmt.Sprintf("write %d %.1s", len(b), b))
	f.sendHeader(200)
	if f.status == 204 || f.status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	if len(b) > 1000 && len(b)%7 == 0 {
		f.n += int64(len(b) / 2)
		return len(b) / 2, errors.New("short write")
	}
	f.n += int64(len(b))
	return len(b), nil
}
func (f *fakeWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	f.calls["Hijack"]++
	return nil, nil, errHijack
}
func (f *fakeWriter) CloseNotify() <-chan bool { f.calls["CloseNotify"]++; return closed }
func (f *fakeWriter) Push(target string, o *http.PushOptions) error {
	f.calls["Push"+target]++
	return errPush
}
func (f *fakeWriter) Flush() {
	f.log = append(f.log, "flush")
	f.sendHeader(200)
	f.calls["Flush"]++
}
func (f *fakeWriter) ReadFrom(src io.Reader) (int64, error) {
	f.log = append(f.log, "read from")
	f.calls["ReadFrom"]++
	b, err := io.ReadAll(src)
	n, err2 := f.Write(b)
	if err == nil {
		err = err2
	}
	return int64(n), err
}

var (
	errHijack = errors.New("hijacked")
	errPush   = errors.New("pushed")
	closed    = make(chan bool)
)

func mask(w http.ResponseWriter) int {
	m := 0
	if _, ok := w.(http.Hijacker); ok {
		m |= 1
	}
	if _, ok := w.(http.CloseNotifier); ok {
		m |= 2
	}
	if _, ok := w.(http.Pusher); ok {
		m |= 4
	}
	if _, ok := w.(http.Flusher); ok {
		m |= 8
	}
	if _, ok := w.(io.ReaderFrom); ok {
		m |= 16
	}
	return m
}

// memory runs a request without network, over a writer with some of the interfaces.
func memory(r *mon.Run, rng *rand.Rand, spans *hm.Spans) *want {
	w := randWant(rng)
	if rng.IntN(15) == 0 { // a host that is no tag value is told apart otherwise; not here
		w.ua = ""
	}
	f := &fakeWriter{h: http.Header{}, calls: map[string]int{}}
	m := rng.IntN(32)
	rw := combo(f, m)
	req := &http.Request{Method: w.method, URL: &url.URL{Path: w.path, RawQuery: "q=1"}, Host: w.host, Header: http.Header{}}
	if w.ua != "" {
		req.Header.Set("User-Agent", w.ua)
	}
	switch {
	case w.reqLen == -1:
		if rng.IntN(2) == 0 {
			req.Body = http.NoBody
		}
	case w.reqLen == -2:
		req.Body, req.ContentLength = io.NopCloser(strings.NewReader("abc")), -1
	default:
		req.Body, req.ContentLength = io.NopCloser(bytes.NewReader(make([]byte, w.reqLen))), w.reqLen
	}
	if rng.IntN(8) == 0 && !(w.routeBy == 1) {
		w.useMux = true
	}
	// See how the writer looks from within.
	probe := ochttp.Handler{Handler: http.HandlerFunc(func(x http.ResponseWriter, q *http.Request) {
		if got := mask(x); got != m {
			w.wrongIfaces = fmt.Sprintf("a writer with interfaces %05b is passed on with %05b", m, got)
			return
		}
		if h, ok := x.(http.Hijacker); ok {
			if _, _, err := h.Hijack(); err != errHijack {
				w.wrongIfaces = "Hijack is not passed on"
			}
		}
		if c, ok := x.(http.CloseNotifier); ok && c.CloseNotify() != (<-chan bool)(closed) {
			w.wrongIfaces = "CloseNotify is not passed on"
		}
		if p, ok := x.(http.Pusher); ok && (p.Push("/t", nil) != errPush || f.calls["Push/t"] != 1) {
			w.wrongIfaces = "Push is not passed on"
		}
		if _, ok := x.(io.ReaderFrom); ok {
			x.(io.ReaderFrom).ReadFrom(strings.NewReader(""))
			if f.calls["ReadFrom"] != 1 {
				w.wrongIfaces = "ReadFrom is not passed on"
			}
		}
		if fl, ok := x.(http.Flusher); ok {
			if fl.Flush(); f.calls["Flush"] != 1 {
				w.wrongIfaces = "Flush is not passed on"
			}
		}
		x.Header().Set("probe", "1")
		if f.h.Get("probe") != "1" {
			w.wrongIfaces = "Header is not passed on"
		}
	})}
	probe.ServeHTTP(rw, &http.Request{Method: "GET", URL: &url.URL{Path: "/healthz"}, Host: "probe", Header: http.Header{}})
	f.status, f.n, f.log = 0, 0, nil
	if w.useMux {
		byHost.Store(w.host, func(x http.ResponseWriter, q *http.Request) { w.serve(r, spans, x, q) })
		defer byHost.Delete(w.host)
	}
	func() {
		defer func() {
			if e := recover(); e != nil && e != http.ErrAbortHandler {
				r.Violate("panic", "serving the request panicked: %v\n%s", e, debug.Stack())
			}
		}()
		w.around(r, spans, rw, req)
	}()
	if f.n != w.bytes {
		r.Violate("response-body", "%d of %d bytes reach the writer", f.n, w.bytes)
	}
	// The same calls on such a writer alone.
	if w.handled {
		alone := &fakeWriter{h: http.Header{}, calls: map[string]int{}}
		bare := combo(alone, m)
		var results []string
		for _, o := range w.ops {
			if o.kind == "panic" {
				break
			}
			n, err := o.drive(bare)
			if o.kind == "write" || o.kind == "copy" {
				results = append(results, fmt.Sprint(n, err))
			}
		}
		r.Check(reflect.DeepEqual(f.log, alone.log) && f.status == alone.status, "calls-changed", "the writer got the calls %q and status %d, without the instrumentation %q and %d; ops %v", f.log, f.status, alone.log, alone.status, w.ops)
		r.Check(reflect.DeepEqual(w.results, results), "calls-changed", "the handler got the results %q, without the instrumentation %q; ops %v", w.results, results, w.ops)
		r.Count("calls_compared", len(f.log))
	}
	return w
}

// shared runs requests through one handler, several at a time, without network.
func shared(r *mon.Run, rng *rand.Rand, spans *hm.Spans, n int) []*want {
	common := randWant(rng)
	all := map[string]*want{}
	var ws []*want
	for i := 0; i < n; i++ {
		w := randWant(rng)
		w.format, w.public, w.nameFn, w.perRequest = common.format, common.public, common.nameFn, true
		w.healthFn = w.healthFn || w.health
		w.reqLen = -1
		if w.routeBy > 0 && rng.IntN(4) > 0 {
			w.route = fmt.Sprintf("/route/%d", i)
		}
		for k := rng.IntN(3); k > 0; k-- { // so that others come between, but not after a panic
			at := 0
			if l := len(w.ops); l > 0 {
				at = rng.IntN(l)
			}
			w.ops = append(w.ops[:at:at], append([]op{{"pause", rng.IntN(200)}}, w.ops[at:]...)...)
		}
		all[w.host] = w
		ws = append(ws, w)
	}
	h := &ochttp.Handler{Propagation: formats[common.format], IsPublicEndpoint: common.public}
	h.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		w := all[req.Host]
		var inner http.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { w.serve(r, spans, rw, req) })
		if w.routeBy == 1 {
			inner = ochttp.WithRouteTag(inner, w.route)
		}
		inner.ServeHTTP(rw, req)
	})
	h.GetStartOptions = func(q *http.Request) trace.StartOptions {
		return trace.StartOptions{Sampler: []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[all[q.Host].sampler]}
	}
	if common.nameFn {
		h.FormatSpanName = func(q *http.Request) string { return "named " + q.Method + q.URL.Path }
	}
	h.IsHealthEndpoint = func(q *http.Request) bool { return all[q.Host].health }
	var next, at, most atomic.Int64
	r.Par(8, func(int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= len(ws) {
				return
			}
			w := ws[i]
			w.through = h
			req := &http.Request{Method: w.method, URL: &url.URL{Path: w.path}, Host: w.host, Header: http.Header{}}
			if w.ua != "" {
				req.Header.Set("User-Agent", w.ua)
			}
			f := &fakeWriter{h: http.Header{}, calls: map[string]int{}}
			if k := at.Add(1); k > most.Load() {
				most.Store(k)
			}
			func() {
				defer func() {
					if e := recover(); e != nil && e != http.ErrAbortHandler {
						r.Violate("panic", "serving the request panicked: %v\n%s", e, debug.Stack())
					}
				}()
				w.around(r, spans, combo(f, i%32), req)
			}()
			at.Add(-1)
			if f.n != w.bytes {
				r.Violate("response-body", "%d of %d bytes reach the writer", f.n, w.bytes)
			}
			r.Progress()
		}
	})
	if most.Load() > 1 {
		r.Count("overlapping_batches", 1)
	}
	return ws
}

// muxed answers for handlers that use the default mux.
type muxed struct{}

func (muxed) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	if f, ok := byHost.Load(q.Host); ok {
		f.(func(http.ResponseWriter, *http.Request))(rw, q)
	}
}

// network runs requests through a real server, several at a time.
func network(r *mon.Run, rng *rand.Rand, spans *hm.Spans, n int, h2 bool) []*want {
	var all sync.Map
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		x, ok := all.Load(req.Host)
		if !ok || !x.(*want).claimed.CompareAndSwap(false, true) {
			return // a client may repeat a request whose connection broke
		}
		defer close(x.(*want).served)
		x.(*want).around(r, spans, rw, req)
	}))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	if h2 {
		srv.EnableHTTP2 = true
		srv.StartTLS()
	} else {
		srv.Start()
	}
	defer srv.Close()
	client := srv.Client()
	client.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	var ws []*want
	for i := 0; i < n; i++ {
		w := randWant(rng)
		w.real, w.served = true, make(chan struct{})
		ws = append(ws, w)
	}
	var next atomic.Int64
	r.Par(8, func(int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= len(ws) {
				return
			}
			w := ws[i]
			all.Store(w.host, w)
			u, _ := url.Parse(srv.URL)
			u.Path = w.path
			req := &http.Request{Method: w.method, URL: u, Host: w.host, Header: http.Header{}}
			req.Header.Set("User-Agent", w.ua)
			if w.reqLen > 0 {
				req.Body, req.ContentLength = io.NopCloser(bytes.NewReader(make([]byte, w.reqLen))), w.reqLen
			} else if w.reqLen == -2 {
				req.Body, req.ContentLength = io.NopCloser(pure{strings.NewReader("chunked")}), -1
			}
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			resp, err := client.Do(req.WithContext(ctx))
			if err == nil {
				k, err := io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if err == nil {
					w.clientStatus, w.clientBytes = resp.StatusCode, k
				}
			}
			cancel()
			if w.claimed.CompareAndSwap(false, true) { // its connection broke
				w.unreached = true
				r.Count("requests_lost_by_the_network", 1)
			} else {
				<-w.served
			}
			r.Progress()
		}
	})
	out := ws[:0]
	for _, w := range ws {
		if !w.unreached {
			out = append(out, w)
		}
	}
	return out
}

func run(r *mon.Run) {
	rng := r.Rand("requests")
	for _, k := range []string{"measures_compared", "spans_compared", "health", "memory_requests", "network_requests", "shared_requests", "overlapping_batches"} {
		r.Require(k, 1)
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	http.Handle("/", muxed{})
	spans := hm.NewSpans(ochttp.HostAttribute)
	totals := hm.NewTotals(r, []tag.Key{ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute},
		ochttp.ServerRequestCount, ochttp.ServerRequestBytes, ochttp.ServerResponseBytes, ochttp.ServerLatency)
	judge := func(ws []*want) {
		t := totals.Take(ochttp.Host)
		for _, w := range ws {
			w.judge(r, spans, t)
			r.Eval(fmt.Sprintf("%s %s %v %d %d %d %v %v %d", w.method, w.path, w.ops, w.reqLen, w.sampler, w.format, w.public, w.remote != nil, w.routeBy))
		}
		if len(ws) > 3 {
			w := ws[2]
			r.Sample(fmt.Sprintf("%s %.30q ops %v body %d", w.method, w.path, w.ops, w.reqLen))
		}
	}
	for c := 0; c < r.N(120, 20); c++ {
		r.Case("memory %d", c)
		var ws []*want
		for i := 0; i < 100; i++ {
			ws = append(ws, memory(r, rng, spans))
		}
		r.Count("memory_requests", len(ws))
		judge(ws)
	}
	for c := 0; c < r.N(60, 20); c++ {
		r.Case("shared %d", c)
		ws := shared(r, rng, spans, 100)
		r.Count("shared_requests", len(ws))
		judge(ws)
	}
	for c := 0; c < r.N(40, 20); c++ {
		r.Case("network %d", c)
		ws := network(r, rng, spans, 100, c%2 == 1)
		r.Count("network_requests", len(ws))
		judge(ws)
	}
}
