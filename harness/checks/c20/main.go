// Monitor for C20: the instrumented HTTP client.
package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	tprop "go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	hm "go.opencensus.io/verifmon/httpmon"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C20", run) }

var (
	formats  = []tprop.HTTPFormat{nil, &b3.HTTPFormat{}, &tracecontext.HTTPFormat{}, &propagation.HTTPFormat{}}
	keyOuter = tag.MustNewKey("outer")
	keyHost  = ochttp.KeyClientHost
)

func format(i int) tprop.HTTPFormat {
	if formats[i] == nil {
		return formats[1]
	}
	return formats[i]
}

// step is one result of reading the response's body.
type step struct {
	n   int
	err error
}

// body is a scripted response body.
type body struct {
	mu       sync.Mutex
	steps    []step
	at       int
	closes   int
	closeErr error
	written  int
	out      []step // what it returned
	slow     bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.slow {
		time.Sleep(20 * time.Microsecond)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.closes > 0 {
		b.out = append(b.out, step{0, errClosed})
		return 0, errClosed
	}
	s := step{0, io.EOF}
	if b.at < len(b.steps) {
		s = b.steps[b.at]
		if s.n > len(p) {
			b.steps[b.at].n -= len(p)
			s = step{len(p), nil}
		} else {
			b.at++
		}
	} else if k := len(b.steps); k > 0 && b.steps[k-1].err != nil {
		s = step{0, b.steps[k-1].err}
	}
	for i := 0; i < s.n; i++ {
		p[i] = byte(len(b.out) + i)
	}
	b.out = append(b.out, s)
	return s.n, s.err
}

func (b *body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.closes++
	return b.closeErr
}

// rwBody is a body that can be written to, as after switching protocols.
type rwBody struct{ *body }

func (b rwBody) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.written += len(p)
	return len(p), errWritten
}

var (
	errClosed    = errors.New("read after close")
	errWritten   = errors.New("written")
	errTransport = errors.New("no route")
	errBody      = errors.New("connection reset")
	errClose     = errors.New("close failed")
)

// want is one request and what is to become of it.
type want struct {
	host, path, method, ua, outer string
	reqKind                       int // 0 nil, 1 NoBody, 2 known length, 3 unknown length
	reqLen                        int64
	sampler                       int // 0 default, 1 always, 2 never
	perRequest, nameFn            bool
	format, parent                int // parent: 0 none, 1 sampled, 2 unsampled
	hooks                         int // 0 none, 1 annotator, 2 own
	health                        bool
	fail                          bool
	status                        int
	respLen                       int64
	nilBody, rw                   bool

	base     *body
	par      *trace.Span
	sc       trace.SpanContext
	hadSpan  bool
	called   int
	inner    time.Duration
	outerDur time.Duration
	read     int64 // bytes read before the end
	exact    bool  // whether read is exact
	readMax  int64
	ended    bool
	bodyErr  error // last read error but EOF before the end
	notes    []note
	ownCalls int
}

type note struct {
	msg   string
	attrs map[string]any
}

func randWant(rng *rand.Rand) *want {
	w := &want{host: vm.Unique("c") + ".test", path: "/x" + hm.Pad(rng), exact: true}
	w.method = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"}[rng.IntN(6)]
	if rng.IntN(3) > 0 {
		w.ua = "agent/" + fmt.Sprint(rng.IntN(10))
	}
	if rng.IntN(2) == 0 {
		w.outer = "o" + fmt.Sprint(rng.IntN(5))
	}
	w.reqKind = rng.IntN(4)
	if w.reqKind == 2 {
		w.reqLen = int64(1 + rng.IntN(4000))
	}
	w.sampler = []int{0, 0, 1, 1, 2}[rng.IntN(5)]
	w.perRequest, w.nameFn = rng.IntN(3) == 0, rng.IntN(3) == 0
	w.format, w.parent, w.hooks = rng.IntN(4), rng.IntN(3), rng.IntN(3)
	if rng.IntN(12) == 0 {
		w.health, w.path = true, []string{"/healthz", "/_ah/health"}[rng.IntN(2)]
	} else if rng.IntN(10) == 0 { // nearly a health check, and none
		w.path = []string{"/healthz/", "//healthz", "/healthzz", "/_ah/health/", "/Healthz", "/x/healthz", "/_ah/healthz", "/_ah"}[rng.IntN(8)]
	}
	w.fail = rng.IntN(8) == 0
	w.status = hm.Code(rng)
	w.nilBody = rng.IntN(10) == 0
	w.rw = rng.IntN(6) == 0
	b := &body{slow: rng.IntN(4) == 0}
	var total int64
	for k := rng.IntN(6); k > 0; k-- {
		n := rng.IntN(3) * rng.IntN(1500)
		total += int64(n)
		b.steps = append(b.steps, step{n, nil})
	}
	switch rng.IntN(4) {
	case 0: // the end comes with data
		n := rng.IntN(500)
		total += int64(n)
		b.steps = append(b.steps, step{n, io.EOF})
	case 1:
		b.steps = append(b.steps, step{rng.IntN(2) * rng.IntN(500), errBody})
	}
	if rng.IntN(4) == 0 {
		b.closeErr = errClose
	}
	w.base = b
	w.respLen = []int64{-1, 0, total, total, int64(rng.IntN(5000))}[rng.IntN(5)]
	return w
}

func (w *want) sampled() bool {
	switch w.sampler {
	case 1:
		return true
	case 2:
		return false
	}
	return w.parent != 2
}

// base is the transport below, which checks what it is given.
type base struct {
	r    *mon.Run
	w    *want
	req  *http.Request // the caller's
	hdr  http.Header   // as it was
	kind int
	last *http.Request
}

type cancelBase struct {
	*base
	canceled []*http.Request
}

func (c *cancelBase) CancelRequest(q *http.Request) { c.canceled = append(c.canceled, q) }

func (b *base) RoundTrip(q *http.Request) (resp *http.Response, err error) {
	r, w := b.r, b.w
	t0 := time.Now()
	defer func() { w.inner = time.Since(t0) }()
	w.called++
	b.last = q
	span := trace.FromContext(q.Context())
	if w.health {
		r.Check(q == b.req || reflect.DeepEqual(q.Header, b.hdr), "health-traced", "headers %v of a health check became %v", b.hdr, q.Header)
		r.Check(span == w.par, "health-traced", "a health check has a span of its own")
	} else if r.Check(span != nil && span != w.par, "no-span", "the request sent has no span of its own") {
		w.hadSpan = true
		w.sc = span.SpanContext()
		r.Check(q != b.req, "request-mutated", "the caller's request is passed on with a new context")
		// The headers are the caller's plus the span's.
		exp := &http.Request{Header: hm.Clone(b.hdr)}
		format(w.format).SpanContextToRequest(w.sc, exp)
		r.Check(reflect.DeepEqual(exp.Header, q.Header), "headers", "format %d: headers sent %v, want %v", w.format, q.Header, exp.Header)
		got, ok := format(w.format).SpanContextFromRequest(q)
		r.Check(ok && got.TraceID == w.sc.TraceID && got.SpanID == w.sc.SpanID && got.IsSampled() == w.sc.IsSampled(), "headers", "the headers say %v, the span is %v", got, w.sc)
		if _, ok := format(w.format).(*tracecontext.HTTPFormat); ok {
			r.Check(reflect.DeepEqual(got.Tracestate.Entries(), w.sc.Tracestate.Entries()), "headers", "the headers have tracestate %v, the span %v", got.Tracestate.Entries(), w.sc.Tracestate.Entries())
		}
		v, _ := tag.FromContext(q.Context()).Value(keyOuter)
		r.Check(v == w.outer, "request-context", "the caller's tag %q became %q", w.outer, v)
	}
	r.Check(q.Method == b.req.Method && reflect.DeepEqual(q.URL, b.req.URL) && q.Host == b.req.Host && q.ContentLength == b.req.ContentLength && q.Body == b.req.Body, "request-changed", "%s %v %s %d became %s %v %s %d", b.req.Method, b.req.URL, b.req.Host, b.req.ContentLength, q.Method, q.URL, q.Host, q.ContentLength)
	if q.Body != nil {
		io.Copy(io.Discard, q.Body)
	}
	w.fire(httptrace.ContextClientTrace(q.Context()))
	if w.fail {
		return nil, errTransport
	}
	resp = &http.Response{StatusCode: w.status, Status: fmt.Sprint(w.status, " X"), ContentLength: w.respLen, Header: http.Header{"X": {"y"}}, Request: q}
	if !w.nilBody {
		resp.Body = w.base
		if w.rw {
			resp.Body = rwBody{w.base}
		}
	}
	return resp, nil
}

// fire calls the hooks of a client trace.
func (w *want) fire(ct *httptrace.ClientTrace) {
	if ct == nil || ct.GetConn == nil {
		return
	}
	note1 := func(msg string, kv ...any) {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		w.notes = append(w.notes, note{msg, m})
	}
	e := errors.New("e" + w.host)
	idle := len(w.ua) > 0
	ct.GetConn("h:" + w.host)
	note1("GetConn", "httptrace.get_connection.host_port", "h:"+w.host)
	if w.hooks != 1 {
		return
	}
	ct.DNSStart(httptrace.DNSStartInfo{Host: w.host})
	note1("DNSStart", "httptrace.dns_start.host", w.host)
	addrs := []net.IPAddr{{IP: net.IPv4(1, 2, 3, 4)}, {IP: net.IPv4(5, 6, 7, 8)}}[:len(w.path)%3]
	a := []string{"", "1.2.3.4", "1.2.3.4 , 5.6.7.8"}[len(w.path)%3]
	if idle {
		ct.DNSDone(httptrace.DNSDoneInfo{Addrs: addrs})
		note1("DNSDone", "httptrace.dns_done.addrs", a)
		ct.ConnectStart("tcp", w.host)
		note1("ConnectStart", "httptrace.connect_start.network", "tcp", "httptrace.connect_start.addr", w.host)
		ct.ConnectDone("tcp", w.host, nil)
		note1("ConnectDone", "httptrace.connect_done.network", "tcp", "httptrace.connect_done.addr", w.host)
		ct.TLSHandshakeStart()
		note1("TLSHandshakeStart")
		ct.TLSHandshakeDone(tls.ConnectionState{}, nil)
		note1("TLSHandshakeDone")
		ct.GotConn(httptrace.GotConnInfo{WasIdle: true, IdleTime: time.Second})
		note1("GotConn", "httptrace.got_connection.reused", false, "httptrace.got_connection.was_idle", true, "httptrace.got_connection.idle_time", "1s")
		ct.PutIdleConn(nil)
		note1("PutIdleConn")
		ct.WroteRequest(httptrace.WroteRequestInfo{})
		note1("WroteRequest")
	} else {
		ct.DNSDone(httptrace.DNSDoneInfo{Addrs: addrs, Err: e})
		note1("DNSDone", "httptrace.dns_done.addrs", a, "httptrace.dns_done.error", e.Error())
		ct.ConnectDone("udp", w.host, e)
		note1("ConnectDone", "httptrace.connect_done.network", "udp", "httptrace.connect_done.addr", w.host, "httptrace.connect_done.error", e.Error())
		ct.TLSHandshakeDone(tls.ConnectionState{}, e)
		note1("TLSHandshakeDone", "httptrace.tls_handshake_done.error", e.Error())
		ct.GotConn(httptrace.GotConnInfo{Reused: true})
		note1("GotConn", "httptrace.got_connection.reused", true, "httptrace.got_connection.was_idle", false)
		ct.PutIdleConn(e)
		note1("PutIdleConn", "httptrace.put_idle_connection.error", e.Error())
		ct.WroteRequest(httptrace.WroteRequestInfo{Err: e})
		note1("WroteRequest", "httptrace.wrote_request.error", e.Error())
	}
	ct.WroteHeaders()
	note1("WroteHeaders")
	ct.Wait100Continue()
	note1("Wait100Continue")
	ct.Got100Continue()
	note1("Got100Continue")
	ct.GotFirstResponseByte()
	note1("GotFirstResponseByte")
}

// transport builds the instrumented transport over b.
func (w *want) transport(r *mon.Run, b http.RoundTripper) *ochttp.Transport {
	t := &ochttp.Transport{Base: b, Propagation: formats[w.format]}
	smp := []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[w.sampler]
	t.StartOptions = trace.StartOptions{Sampler: smp, SpanKind: trace.SpanKindServer}
	if w.perRequest {
		t.StartOptions.Sampler = trace.NeverSample() // ignored
		if w.sampler == 2 {
			t.StartOptions.Sampler = trace.AlwaysSample()
		}
		t.GetStartOptions = func(q *http.Request) trace.StartOptions {
			r.Check(q.Host == w.host, "start-options", "GetStartOptions is given another request")
			return trace.StartOptions{Sampler: smp}
		}
	}
	if w.nameFn {
		t.FormatSpanName = func(q *http.Request) string { return "named " + q.Method + q.URL.Path }
	}
	switch w.hooks {
	case 1:
		t.NewClientTrace = ochttp.NewSpanAnnotatingClientTrace
	case 2:
		t.NewClientTrace = func(q *http.Request, s *trace.Span) *httptrace.ClientTrace {
			w.ownCalls++
			r.Check(q.Host == w.host && s != nil, "client-trace", "NewClientTrace is given another request")
			return &httptrace.ClientTrace{GetConn: func(hp string) {
				s.Annotate([]trace.Attribute{trace.StringAttribute("httptrace.get_connection.host_port", hp)}, "GetConn")
			}}
		}
	}
	return t
}

// send makes one request over a fake transport and consumes the response.
func send(r *mon.Run, rng *rand.Rand, spans *hm.Spans, recorded func(string) int64) *want {
	w := randWant(rng)
	desc := w.desc()
	ctx := context.Background()
	if w.outer != "" {
		ctx, _ = tag.New(ctx, tag.Insert(keyOuter, w.outer))
	}
	if w.parent > 0 {
		ctx, w.par = trace.StartSpan(ctx, "parent", trace.WithSampler([]trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[w.parent]))
		defer w.par.End()
	}
	req := (&http.Request{Method: w.method, URL: &url.URL{Scheme: "http", Host: w.host, Path: w.path, RawQuery: "a=b"}, Host: w.host, Header: http.Header{}}).WithContext(ctx)
	if w.ua != "" {
		req.Header.Set("User-Agent", w.ua)
	}
	req.Header.Add("Multi", "1")
	req.Header.Add("Multi", "2")
	if rng.IntN(4) == 0 { // stale trace headers
		stale := trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}}
		stale.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "stale", Value: "1"})
		format(rng.IntN(4)).SpanContextToRequest(stale, req)
	}
	empty := rng.IntN(6) == 0
	switch w.reqKind {
	case 1:
		req.Body = http.NoBody
	case 2:
		req.Body, req.ContentLength = io.NopCloser(bytes.NewReader(make([]byte, w.reqLen))), w.reqLen
	case 3:
		req.Body, req.ContentLength = io.NopCloser(strings.NewReader("abc")), -1
	}
	if w.ua == "" {
		req.Header.Set("User-Agent", "") // none
	}
	if empty {
		req.Header = http.Header{}
		w.ua = ""
		r.Count("requests_with_no_headers", 1)
	}
	before := *req
	hdr := hm.Clone(req.Header)
	b := &base{r: r, w: w, req: req, hdr: hdr}
	var rt http.RoundTripper = b
	var cb *cancelBase
	if rng.IntN(2) == 0 {
		cb = &cancelBase{base: b}
		rt = cb
	}
	tr := w.transport(r, rt)
	if rng.IntN(4) == 0 { // without a base, the default transport is
		tr.Base = nil
		defer func(old http.RoundTripper) { http.DefaultTransport = old }(http.DefaultTransport)
		http.DefaultTransport = rt
		r.Count("over_the_default_transport", 1)
	}
	t0 := time.Now()
	end := func() { w.outerDur, w.ended = time.Since(t0), true }
	resp, err := tr.RoundTrip(req)
	r.Check(w.called == 1, "base-calls", "%s: the base transport was called %d times", desc, w.called)
	r.Check(reflect.DeepEqual(req.Header, hdr) && req.Context() == ctx && req.URL == before.URL && req.Body == before.Body && req.Method == before.Method && req.Host == before.Host && req.ContentLength == before.ContentLength, "request-mutated", "%s: the caller's request was changed", desc)
	tr.CancelRequest(req)
	if cb != nil {
		r.Check(len(cb.canceled) == 1 && cb.canceled[0] == req, "cancel", "CancelRequest reached the base %d times", len(cb.canceled))
	}
	if w.fail {
		end()
		r.Check(resp == nil && err == errTransport, "error", "%s: error %v became %v", desc, errTransport, err)
		return w
	}
	if !r.Check(err == nil && resp != nil, "error", "%s: RoundTrip gives error %v", desc, err) {
		return w
	}
	r.Check(resp.StatusCode == w.status && resp.ContentLength == w.respLen && resp.Header.Get("X") == "y" && (resp.Body == nil) == w.nilBody, "response", "%s: the response became %d, length %d, nil body %v", desc, resp.StatusCode, resp.ContentLength, resp.Body == nil)
	if resp.Body == nil {
		end()
		return w
	}
	if w.health {
		resp.Body.Close()
		return w
	}
	wr, ok := resp.Body.(io.Writer)
	if r.Check(ok == w.rw, "body-writer", "%s: body that can be written %v became %v", desc, w.rw, ok) && ok {
		n, err := wr.Write([]byte("hello"))
		r.Check(n == 5 && err == errWritten && w.base.written == 5, "body-writer", "%s: Write gives %d, %v", desc, n, err)
	}
	open := func() {
		if rng.IntN(3) == 0 {
			r.Check(spans.Peek(w.host) == 0, "span-ends", "%s: the span ended while the body is open", desc)
			r.Check(recorded(w.host) == 0, "stats-early", "%s: recorded while the body is open", desc)
		}
	}
	open()
	if rng.IntN(6) == 0 { // read and close at the same time
		w.exact = false
		r.Go(func() {
			buf := make([]byte, 300)
			for {
				n, err := resp.Body.Read(buf)
				w.readMax += int64(n)
				if err != nil {
					return
				}
			}
		}, func() {
			if rng.IntN(2) == 0 {
				time.Sleep(time.Duration(rng.IntN(100)) * time.Microsecond)
			}
			resp.Body.Close()
		}, func() { resp.Body.Close() })
		end()
		r.Count("concurrent_closes", 1)
		r.Check(w.base.closes == 2, "body-close", "%s: 2 closes became %d", desc, w.base.closes)
		return w
	}
	stop := rng.IntN(8) // reads before closing
	seen := 0
	for i := 0; ; i++ {
		if i == stop && rng.IntN(2) == 0 {
			break
		}
		buf := make([]byte, 1+rng.IntN(700))
		n, err := resp.Body.Read(buf)
		out := w.base.out
		if !r.Check(len(out) == seen+1 && out[seen] == step{n, err}, "body-read", "%s: read %d gives %d, %v; the base says %v", desc, i, n, err, out) {
			break
		}
		for j := 0; j < n; j++ {
			if buf[j] != byte(seen+j) {
				r.Violate("body-read", "%s: other bytes are read than sent", desc)
				break
			}
		}
		seen++
		if !w.ended {
			w.read += int64(n)
			if err != nil && err != io.EOF {
				w.bodyErr = err
			}
			if err == io.EOF {
				end()
				if w.sampled() {
					r.Check(spans.Peek(w.host) == 1, "span-ends", "%s: %d spans ended when the body has been read", desc, spans.Peek(w.host))
				}
			} else {
				open()
			}
		}
		if err != nil && rng.IntN(3) > 0 {
			break
		}
		if i > 200 {
			break
		}
	}
	n := rng.IntN(3)
	if !w.ended {
		n++
	}
	for i := 0; i < n; i++ {
		err := resp.Body.Close()
		r.Check(err == w.base.closeErr && w.base.closes == i+1, "body-close", "%s: close %d gives %v, want %v; %d closes", desc, i, err, w.base.closeErr, w.base.closes)
		if !w.ended {
			end()
			if w.sampled() {
				r.Check(spans.Peek(w.host) == 1, "span-ends", "%s: %d spans ended when the body is closed", desc, spans.Peek(w.host))
			}
		}
		if rng.IntN(3) == 0 {
			resp.Body.Read(make([]byte, 10))
		}
	}
	return w
}

func (w *want) desc() string {
	return fmt.Sprintf("%s %.40q body %d/%d response %d length %d steps %v fail %v", w.method, w.path, w.reqKind, w.reqLen, w.status, w.respLen, w.base.steps, w.fail)
}

// judge compares what was exported and recorded of a request.
func (w *want) judge(r *mon.Run, spans *hm.Spans, totals map[string]map[string][]hm.Total, desc string) {
	bad := func(sig, f string, a ...any) { r.Violate(sig, "%s: %s", desc, fmt.Sprintf(f, a...)) }
	ds := spans.Take(w.host)
	if w.health {
		n := 0
		for _, byHost := range totals {
			n += len(byHost[w.host])
		}
		if n > 0 || len(ds) > 0 {
			bad("health-traced", "a health check has %d rows and %d spans", n, len(ds))
		}
		r.Count("health", 1)
		return
	}
	for name, byHost := range totals {
		rows := byHost[w.host]
		expect := 1
		tags := map[string]string{}
		put := func(k, v string) {
			if hm.Tag(v) != "" {
				tags[k] = v
			}
		}
		put("http_client_host", w.host)
		put("http.host", w.host)
		put("http_client_path", w.path)
		put("http.path", w.path)
		put("http_client_method", w.method)
		put("http.method", w.method)
		put("outer", w.outer)
		if name != ochttp.ClientRequestCount.Name() {
			put("http_client_status", fmt.Sprint(w.status))
			put("http.status", fmt.Sprint(w.status))
		}
		var lo, hi float64
		switch name {
		case ochttp.ClientRequestCount.Name():
			lo, hi = 1, 1
		case ochttp.ClientSentBytes.Name(), ochttp.ClientRequestBytes.Name():
			lo, hi = float64(w.reqLen), float64(w.reqLen)
			if name == ochttp.ClientRequestBytes.Name() && w.reqKind == 0 {
				expect = 0
			}
		case ochttp.ClientResponseBytes.Name(), ochttp.ClientReceivedBytes.Name():
			lo, hi = float64(w.read), float64(w.read)
			if !w.exact {
				lo, hi = 0, float64(w.readMax)
			}
			if name == ochttp.ClientReceivedBytes.Name() && w.method != "HEAD" && !w.fail && w.respLen > 0 {
				if w.exact && w.read == 0 {
					lo, hi = float64(w.respLen), float64(w.respLen)
				} else if !w.exact {
					hi = max(hi, float64(w.respLen))
				}
			}
		default:
			lo, hi = float64(w.inner)/1e6-0.001, float64(w.outerDur)/1e6+0.001
		}
		if len(rows) != expect || expect == 1 && rows[0].N != 1 {
			bad("stats-count", "%s recorded %v, want %d recording", name, rows, expect)
			continue
		}
		if expect == 0 {
			continue
		}
		if w.fail && name != ochttp.ClientRequestCount.Name() { // documented as "error", coded as 500
			for _, k := range []string{"http_client_status", "http.status"} {
				if v := rows[0].Tags[k]; v != "500" && v != "error" {
					bad("stats-tags", "%s has status %q of a failed request", name, v)
				}
				delete(rows[0].Tags, k)
				delete(tags, k)
			}
		}
		if !reflect.DeepEqual(rows[0].Tags, tags) {
			bad("stats-tags", "%s has tags %q, want %q", name, rows[0].Tags, tags)
		}
		if rows[0].Sum < lo || rows[0].Sum > hi {
			bad("stats-value", "%s is %v, want [%v,%v]", name, rows[0].Sum, lo, hi)
		}
		r.Count("measures_compared", 1)
	}
	if !w.hadSpan {
		return // reported by the base
	}
	if w.sc.IsSampled() != w.sampled() {
		bad("sampler", "span sampled %v with sampler %d and parent %d", w.sc.IsSampled(), w.sampler, w.parent)
	}
	if w.par != nil && w.sc.TraceID != w.par.SpanContext().TraceID {
		bad("parent", "trace ID %v, the parent's %v", w.sc.TraceID, w.par.SpanContext().TraceID)
	}
	if w.hooks == 2 && w.ownCalls != 1 {
		bad("client-trace", "NewClientTrace was called %d times", w.ownCalls)
	}
	n := 0
	if w.sampled() {
		n = 1
	}
	if len(ds) != n {
		bad("span-count", "%d spans exported, want %d", len(ds), n)
		return
	}
	if n == 0 {
		return
	}
	d := ds[0]
	name := w.path
	if w.nameFn {
		name = "named " + w.method + w.path
	}
	if d.SpanContext.SpanID != w.sc.SpanID || d.Name != name || d.SpanKind != trace.SpanKindClient {
		bad("span-name", "span %v %q of kind %d, want %v %q", d.SpanContext.SpanID, d.Name, d.SpanKind, w.sc.SpanID, name)
	}
	var pid trace.SpanID
	if w.par != nil {
		pid = w.par.SpanContext().SpanID
	}
	if d.ParentSpanID != pid || d.HasRemoteParent {
		bad("parent", "parent %v, want %v", d.ParentSpanID, pid)
	}
	attrs := map[string]any{"http.host": w.host, "http.path": w.path, "http.method": w.method, "http.url": (&url.URL{Scheme: "http", Host: w.host, Path: w.path, RawQuery: "a=b"}).String()}
	if w.ua != "" {
		attrs["http.user_agent"] = w.ua
	}
	status := trace.Status{Code: 2, Message: errTransport.Error()}
	if !w.fail {
		attrs["http.status_code"] = int64(w.status)
		status = hm.Status(w.status)
		if w.bodyErr != nil {
			status = trace.Status{Code: 2, Message: w.bodyErr.Error()}
		}
	}
	if !reflect.DeepEqual(d.Attributes, attrs) {
		bad("span-attributes", "attributes %v, want %v", d.Attributes, attrs)
	}
	if d.Status != status && (w.exact || d.Status.Message != errBody.Error() && d.Status.Message != errClosed.Error()) {
		bad("span-status", "status %v, want %v", d.Status, status)
	}
	if len(d.Annotations) != len(w.notes) {
		bad("annotations", "%d annotations, want %d", len(d.Annotations), len(w.notes))
	} else {
		for i, a := range d.Annotations {
			if a.Message != w.notes[i].msg || len(a.Attributes)+len(w.notes[i].attrs) > 0 && !reflect.DeepEqual(a.Attributes, w.notes[i].attrs) {
				bad("annotations", "annotation %q %v, want %v", a.Message, a.Attributes, w.notes[i])
			}
		}
		r.Count("annotations", len(w.notes))
	}
	r.Count("spans_compared", 1)
}

// network makes requests through real transports to a server that is
// instrumented too, and follows each of them.
func network(r *mon.Run, rng *rand.Rand, spans *hm.Spans, clientSpans *sync.Map, n int, h2 bool, totals *hm.Totals) {
	type seen struct {
		sc  trace.SpanContext
		par trace.SpanID
	}
	var mu sync.Mutex
	arrived := map[string][]seen{}
	fmtIdx := rng.IntN(4)
	srv := httptest.NewUnstartedServer(&ochttp.Handler{
		Propagation:    formats[fmtIdx],
		FormatSpanName: func(q *http.Request) string { return "server " + q.Header.Get("Id") },
		Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			in, _ := format(fmtIdx).SpanContextFromRequest(q)
			mu.Lock()
			arrived[q.Header.Get("Id")] = append(arrived[q.Header.Get("Id")], seen{trace.FromContext(q.Context()).SpanContext(), in.SpanID})
			mu.Unlock()
			io.Copy(io.Discard, q.Body)
			var hops, size int
			fmt.Sscanf(q.URL.Query().Get("s"), "%d-%d", &hops, &size)
			if hops > 0 {
				http.Redirect(rw, q, fmt.Sprintf("/n?s=%d-%d", hops-1, size), 307)
				return
			}
			rw.Write(make([]byte, size))
		}),
	})
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	if h2 {
		srv.EnableHTTP2 = true
		srv.StartTLS()
	} else {
		srv.Start()
	}
	defer srv.Close()
	client := srv.Client()
	client.Transport = &ochttp.Transport{Base: client.Transport, Propagation: formats[fmtIdx], FormatSpanName: func(q *http.Request) string { return "client " + q.Header.Get("Id") }, NewClientTrace: ochttp.NewSpanAnnotatingClientTrace}
	type call struct {
		id         string
		hops, size int
		ok         bool
		root       trace.SpanContext
		read       int64
	}
	calls := make([]*call, n)
	for i := range calls {
		calls[i] = &call{id: vm.Unique("id"), hops: rng.IntN(3) * rng.IntN(2), size: rng.IntN(5000)}
	}
	var next atomic.Int64
	r.Par(8, func(int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= n {
				return
			}
			c := calls[i]
			ctx, root := trace.StartSpan(context.Background(), "root", trace.WithSampler(trace.AlwaysSample()))
			ctx, _ = tag.New(ctx, tag.Insert(keyOuter, c.id))
			c.root = root.SpanContext()
			ctx, cancel := context.WithTimeout(ctx, 60*time.Second)
			q, _ := http.NewRequest([]string{"GET", "POST"}[i%2], fmt.Sprintf("%s/n?s=%d-%d", srv.URL, c.hops, c.size), nil)
			if i%2 == 1 {
				q, _ = http.NewRequest("POST", q.URL.String(), strings.NewReader("request"))
			}
			q.Header.Set("Id", c.id)
			resp, err := client.Do(q.WithContext(ctx))
			if err == nil {
				c.read, err = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				c.ok = err == nil && resp.StatusCode == 200
			}
			cancel()
			root.End()
			r.Progress()
		}
	})
	srv.Close() // waits for the handlers
	t := totals.Take(keyOuter)
	for _, c := range calls {
		var cs []*trace.SpanData
		if l, ok := clientSpans.LoadAndDelete("client " + c.id); ok {
			cs = l.(*spanList).take()
		}
		var ss []*trace.SpanData
		if l, ok := clientSpans.LoadAndDelete("server " + c.id); ok {
			ss = l.(*spanList).take()
		}
		if !c.ok {
			r.Count("requests_lost_by_the_network", 1)
			continue
		}
		desc := fmt.Sprintf("network request of %d bytes with %d redirects", c.size, c.hops)
		if len(cs) != c.hops+1 || len(ss) < len(cs) || len(arrived[c.id]) < len(cs) {
			r.Violate("span-count", "%s has %d client and %d server spans", desc, len(cs), len(ss))
			continue
		}
		r.Check(c.read == int64(c.size), "body-read", "%s: %d bytes are read", desc, c.read)
		have := map[trace.SpanID]bool{}
		for _, d := range cs {
			have[d.SpanID] = true
			r.Check(d.TraceID == c.root.TraceID && d.ParentSpanID == c.root.SpanID, "parent", "%s: a client span is no child of the caller's", desc)
			r.Check(len(d.Annotations) > 0, "annotations", "%s: no annotations", desc)
		}
		for _, d := range ss {
			r.Check(d.TraceID == c.root.TraceID && have[d.ParentSpanID] && d.HasRemoteParent, "parent", "%s: a server span is no child of a client span", desc)
		}
		for name, by := range t {
			var n int64
			var sum float64
			for _, row := range by[c.id] {
				n, sum = n+row.N, sum+row.Sum
			}
			r.Check(n == int64(c.hops+1) || name == ochttp.ClientRequestBytes.Name(), "stats-count", "%s: %s recorded %d times", desc, name, n)
			if name == ochttp.ClientReceivedBytes.Name() {
				r.Check(sum >= float64(c.size), "stats-value", "%s: %v bytes received", desc, sum)
			}
		}
		r.Count("network_requests", 1)
		r.Eval(fmt.Sprint(desc, h2, fmtIdx))
	}
}

type spanList struct {
	mu sync.Mutex
	l  []*trace.SpanData
}

func (s *spanList) take() []*trace.SpanData {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.l
}

type named struct{ by *sync.Map }

func (n named) ExportSpan(d *trace.SpanData) {
	if !strings.HasPrefix(d.Name, "client ") && !strings.HasPrefix(d.Name, "server ") {
		return
	}
	x, _ := n.by.LoadOrStore(d.Name, &spanList{})
	l := x.(*spanList)
	l.mu.Lock()
	defer l.mu.Unlock()
	l.l = append(l.l, d)
}

func run(r *mon.Run) {
	rng := r.Rand("requests")
	for _, k := range []string{"measures_compared", "spans_compared", "health", "annotations", "concurrent_closes", "network_requests"} {
		r.Require(k, 1)
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), MaxAnnotationEventsPerSpan: 64})
	spans := hm.NewSpans(ochttp.HostAttribute)
	var byName sync.Map
	trace.RegisterExporter(named{&byName})
	totals := hm.NewTotals(r, []tag.Key{ochttp.KeyClientHost, ochttp.KeyClientPath, ochttp.KeyClientMethod, ochttp.KeyClientStatus, ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, keyOuter},
		ochttp.ClientRequestCount, ochttp.ClientSentBytes, ochttp.ClientReceivedBytes, ochttp.ClientRoundtripLatency, ochttp.ClientLatency, ochttp.ClientResponseBytes, ochttp.ClientRequestBytes)
	recorded := func(host string) int64 { return totals.Peek(ochttp.ClientLatency, keyHost, host) }
	for c := 0; c < r.N(100, 20); c++ {
		r.Case("fake transports %d", c)
		var ws []*want
		for i := 0; i < 60; i++ {
			var w *want
			if !r.Do("RoundTrip", func() { w = send(r, rng, spans, recorded) }) {
				continue
			}
			ws = append(ws, w)
			r.Progress()
		}
		t := totals.Take(keyHost)
		for _, w := range ws {
			d := w.desc()
			w.judge(r, spans, t, d)
			r.Eval(fmt.Sprintf("%s %d %d %d %d %d %v %v", d, w.sampler, w.format, w.parent, w.hooks, w.reqKind, w.nilBody, w.rw))
			if c%50 == 0 && w == ws[0] {
				r.Sample(d)
			}
		}
	}
	for c := 0; c < r.N(16, 20); c++ {
		r.Case("network %d", c)
		network(r, rng, spans, &byName, 100, c%2 == 1, totals)
	}
}
