// C28: a request through many services is one trace, kept whole or not at all.
//
// Random trees of calls run through real HTTP and gRPC servers on loopback,
// mixing header formats, proxies, redirects, retries, public endpoints and
// samplers. What each handler found in its context and what was exported is
// compared with the tree of calls that was made.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

func main() { mon.Main("C28", run) }

// Ways of being sampled: by the default, or by an own sampler.
const (
	byDefault = iota
	always
	never
)

var samplers = [...]trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}

var formatNames = []string{"default", "b3", "w3c", "sd"}

const w3c = 2

// format is the propagation of the given name; nil is the default, B3.
func format(i int) httpFormat {
	switch i {
	case 1:
		return &b3.HTTPFormat{}
	case w3c:
		return &tracecontext.HTTPFormat{}
	case 3:
		return &propagation.HTTPFormat{}
	}
	return nil
}

type httpFormat = interface {
	SpanContextFromRequest(*http.Request) (trace.SpanContext, bool)
	SpanContextToRequest(trace.SpanContext, *http.Request)
}

// A leg is one request of a call as its handler saw it.
type leg struct {
	sc trace.SpanContext
	at time.Time
}

// A hop is one call of a service by another.
type hop struct {
	ID       string
	Kind     string // http, grpc
	Format   int
	Public   bool
	Client   int    // how the client span is sampled
	Server   int    // how the server span is sampled
	Via      string // "", "redirect", "retry": calls of two legs; "proxied": made by the hop above, a proxy
	Code     int    // HTTP status or gRPC code
	Par      bool   // calls its children concurrently
	Retag    bool   // gives the user tag a new value first
	Forward  bool   // passes the metadata it got on with its own calls
	Children []*hop

	mu    sync.Mutex
	local trace.SpanContext // of the span around the call
	start time.Time
	legs  []leg
	tags  []string // the user tag in each handler
}

func (h *hop) seen(ctx context.Context, r *mon.Run) (nth int) {
	l := leg{at: time.Now()}
	if sp := trace.FromContext(ctx); r.Check(sp != nil, "no-span", "a %s handler's context has no span", h.Kind) {
		l.sc = sp.SpanContext()
	}
	v, ok := tag.FromContext(ctx).Value(userKey)
	if !ok {
		v = "(none)"
	}
	if _, ok := tag.FromContext(ctx).Value(localKey); ok {
		r.Violate("tags", "a local-only tag reached another service")
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.legs, h.tags = append(h.legs, l), append(h.tags, v)
	return len(h.legs)
}

func (h *hop) path() string {
	return fmt.Sprintf("/%d/%v/%s", h.Format, h.Public, h.ID)
}

func (h *hop) String() string { b, _ := json.Marshal(h); return string(b) }

var (
	userKey  = tag.MustNewKey("user")
	localKey = tag.MustNewKey("local")
)

type exporter struct {
	mu   sync.Mutex
	by   map[trace.TraceID][]*trace.SpanData
	seen int
}

func (e *exporter) ExportSpan(d *trace.SpanData) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.by[d.TraceID] = append(e.by[d.TraceID], d)
	e.seen++
}

type codec struct{}

func (codec) Marshal(v any) ([]byte, error)   { return *v.(*[]byte), nil }
func (codec) Unmarshal(b []byte, v any) error { *v.(*[]byte) = append([]byte{}, b...); return nil }
func (codec) Name() string                    { return "raw" }

// world is the set of services.
type world struct {
	r     *mon.Run
	hops  sync.Map // by ID
	next  atomic.Int64
	http  *httptest.Server
	grpc  [2][3]*grpc.Server        // by public, sampler
	conns [2][3][3]*grpc.ClientConn // by public, server sampler, client sampler
	base  *http.Transport
}

func (w *world) hop(id string) *hop {
	h, ok := w.hops.Load(id)
	if !ok {
		return nil
	}
	return h.(*hop)
}

func newWorld(r *mon.Run) *world {
	w := &world{r: r, base: &http.Transport{MaxIdleConnsPerHost: 16}}
	mux := http.NewServeMux()
	for f := range formatNames {
		for _, public := range []bool{false, true} {
			prefix := fmt.Sprintf("/%d/%v/", f, public)
			h := &ochttp.Handler{Handler: http.HandlerFunc(w.serveHTTP), IsPublicEndpoint: public,
				GetStartOptions: func(q *http.Request) trace.StartOptions {
					n, _ := strconv.Atoi(q.Header.Get("X-Server"))
					return trace.StartOptions{Sampler: samplers[n]}
				}}
			if p := format(f); p != nil {
				h.Propagation = p
			}
			mux.Handle(prefix, h)
		}
	}
	w.http = httptest.NewServer(mux)
	for p := range w.grpc {
		for s := range w.grpc[p] {
			srv := grpc.NewServer(grpc.StatsHandler(&ocgrpc.ServerHandler{IsPublicEndpoint: p == 1, StartOptions: trace.StartOptions{Sampler: samplers[s]}}))
			srv.RegisterService(&grpc.ServiceDesc{ServiceName: "t.S", HandlerType: (*any)(nil),
				Methods: []grpc.MethodDesc{{MethodName: "U", Handler: func(_ any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
					var in []byte
					if err := dec(&in); err != nil {
						return nil, err
					}
					return &in, w.serveGRPC(ctx, string(in))
				}}},
				Streams: []grpc.StreamDesc{{StreamName: "B", ServerStreams: true, ClientStreams: true, Handler: func(_ any, ss grpc.ServerStream) error {
					var in []byte
					if err := ss.RecvMsg(&in); err != nil {
						return err
					}
					ss.SendMsg(&in)
					return w.serveGRPC(ss.Context(), string(in))
				}}}}, struct{}{})
			lis, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				r.Broken("listen: %v", err)
				return w
			}
			go srv.Serve(lis)
			w.grpc[p][s] = srv
			for c := range samplers {
				conn, err := grpc.Dial(lis.Addr().String(), grpc.WithInsecure(), grpc.WithBlock(), grpc.WithStatsHandler(&ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: samplers[c]}}))
				if err != nil {
					r.Broken("dial: %v", err)
					return w
				}
				w.conns[p][s][c] = conn
			}
		}
	}
	return w
}

func (w *world) close() {
	for p := range w.grpc {
		for s := range w.grpc[p] {
			for _, c := range w.conns[p][s] {
				c.Close()
			}
			w.grpc[p][s].Stop()
		}
	}
	w.base.CloseIdleConnections()
	w.http.Close()
}

func (w *world) serveHTTP(rw http.ResponseWriter, q *http.Request) {
	parts := strings.Split(q.URL.Path, "/")
	h := w.hop(parts[len(parts)-1])
	if h == nil {
		w.r.Broken("a request for %s", q.URL)
		return
	}
	n := h.seen(q.Context(), w.r)
	if n == 1 {
		switch h.Via {
		case "redirect":
			http.Redirect(rw, q, h.path(), http.StatusTemporaryRedirect)
			return
		case "retry":
			rw.WriteHeader(503)
			return
		}
	}
	if len(h.Children) == 1 && h.Children[0].Via == "proxied" {
		c := h.Children[0]
		u, _ := url.Parse(w.http.URL)
		p := &httputil.ReverseProxy{Transport: w.transport(c), Director: func(o *http.Request) {
			o.URL.Scheme, o.URL.Host, o.Host = "http", u.Host, u.Host
			o.URL.Path = c.path()
			o.Header.Set("X-Server", fmt.Sprint(c.Server))
		}}
		p.ServeHTTP(rw, q)
		return
	}
	w.calls(q.Context(), h)
	rw.WriteHeader(h.Code)
	fmt.Fprint(rw, h.ID)
}

func (w *world) serveGRPC(ctx context.Context, id string) error {
	h := w.hop(id)
	if h == nil {
		w.r.Broken("an RPC for %q", id)
		return nil
	}
	h.seen(ctx, w.r)
	w.calls(ctx, h)
	return status.Error(codes.Code(h.Code), "as told")
}

// calls makes the calls of a handler.
func (w *world) calls(ctx context.Context, h *hop) {
	if h.Retag {
		var err error
		if ctx, err = tag.New(ctx, tag.Upsert(userKey, "by-"+h.ID)); err != nil {
			w.r.Broken("tag: %v", err)
		}
	}
	if md, ok := metadata.FromIncomingContext(ctx); ok && h.Forward {
		ctx = metadata.NewOutgoingContext(ctx, md.Copy())
	}
	if !h.Par {
		for _, c := range h.Children {
			w.call(ctx, c)
		}
		return
	}
	var wg sync.WaitGroup
	for _, c := range h.Children {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.call(ctx, c)
		}()
	}
	wg.Wait()
}

func (w *world) transport(h *hop) *ochttp.Transport {
	t := &ochttp.Transport{Base: w.base, StartOptions: trace.StartOptions{Sampler: samplers[h.Client]}}
	if p := format(h.Format); p != nil {
		t.Propagation = p
	}
	return t
}

// call calls a service under a local span of its own.
func (w *world) call(ctx context.Context, h *hop) {
	ctx, sp := trace.StartSpan(ctx, "call-"+h.ID)
	defer sp.End()
	h.local, h.start = sp.SpanContext(), time.Now()
	if h.Kind == "grpc" {
		p := 0
		if h.Public {
			p = 1
		}
		conn := w.conns[p][h.Server][h.Client]
		in, out := []byte(h.ID), []byte{}
		var err error
		if len(h.ID)%2 == 0 {
			err = conn.Invoke(ctx, "/t.S/U", &in, &out, grpc.CallContentSubtype("raw"))
		} else {
			cs, e := conn.NewStream(ctx, &grpc.StreamDesc{StreamName: "B", ServerStreams: true, ClientStreams: true}, "/t.S/B", grpc.CallContentSubtype("raw"))
			if e != nil {
				w.r.Broken("stream: %v", e)
				return
			}
			cs.SendMsg(&in)
			cs.CloseSend()
			for err == nil {
				err = cs.RecvMsg(&out)
			}
			if err == io.EOF {
				err = nil
			}
		}
		w.r.Check(int(status.Code(err)) == h.Code, "outcome", "an RPC that ended with code %d returned %v", h.Code, err)
		return
	}
	q, _ := http.NewRequestWithContext(ctx, "GET", w.http.URL+h.path(), nil)
	q.Header.Set("X-Server", fmt.Sprint(h.Server))
	do := func() int {
		c := &http.Client{Transport: w.transport(h)}
		resp, err := c.Do(q)
		if err != nil {
			w.r.Broken("GET: %v", err)
			return 0
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		return resp.StatusCode
	}
	code := do()
	if h.Via == "retry" {
		code = do()
	}
	want := h.Code
	for len(h.Children) == 1 && h.Children[0].Via == "proxied" {
		h = h.Children[0]
		want = h.Code
	}
	w.r.Check(code == want, "outcome", "a request answered with %d returned %d", want, code)
}

var httpCodes = map[int]int32{200: 0, 201: 0, 404: trace.StatusCodeNotFound, 403: trace.StatusCodePermissionDenied, 503: trace.StatusCodeUnavailable, 307: 0}

// tree makes a random tree of calls.
func (w *world) tree(rng *rand.Rand, left *int, depth int, mix int) *hop {
	n := w.next.Add(1)
	h := &hop{ID: fmt.Sprintf("h%d", n), Kind: "http", Format: rng.IntN(len(formatNames)), Par: rng.IntN(2) == 0}
	if rng.IntN(3) == 0 {
		h.Kind = "grpc"
		h.Forward = rng.IntN(3) == 0
	}
	h.Retag = rng.IntN(4) == 0
	if mix > 0 && rng.IntN(6) == 0 {
		h.Public = true
	}
	if mix > 1 {
		if rng.IntN(5) == 0 {
			h.Client = 1 + rng.IntN(2)
		}
		if rng.IntN(5) == 0 {
			h.Server = 1 + rng.IntN(2)
		}
	}
	if h.Kind == "grpc" {
		if rng.IntN(4) == 0 {
			h.Code = 1 + rng.IntN(16)
		}
	} else {
		h.Code = []int{200, 200, 200, 201, 404, 403, 503}[rng.IntN(7)]
		h.Via = []string{"", "", "", "", "redirect", "retry"}[rng.IntN(6)]
	}
	w.hops.Store(h.ID, h)
	*left--
	if h.Kind == "http" && *left > 0 && rng.IntN(5) == 0 { // a proxy
		for {
			c := w.tree(rng, left, depth+1, mix)
			if c.Kind == "http" {
				c.Via = "proxied"
				h.Children = []*hop{c}
				if len(c.Children) == 1 && c.Children[0].Via == "proxied" {
					h.Code = c.Code
				}
				break
			}
			if *left <= 0 {
				break
			}
		}
	} else {
		for k := rng.IntN(4); k > 0 && *left > 0 && depth < 6; k-- {
			h.Children = append(h.Children, w.tree(rng, left, depth+1, mix))
		}
	}
	return h
}

// code is what a hop ends with: a proxy passes on what it was told.
func (h *hop) code() int {
	if len(h.Children) == 1 && h.Children[0].Via == "proxied" {
		return h.Children[0].code()
	}
	return h.Code
}

func (h *hop) size() int {
	n := 1
	for _, c := range h.Children {
		n += c.size()
	}
	return n
}

// A root is one trace to be: a tree of calls below a root span.
type root struct {
	hop     *hop
	sampler int
	remote  *trace.SpanContext
	sc      trace.SpanContext
	tag     string
}

// judge compares what was exported of a round with the calls made.
type judge struct {
	r        *mon.Run
	exp      *exporter
	p        float64
	dec      map[trace.TraceID]bool // what the default sampler says of a trace
	expected map[trace.SpanID]bool  // exported spans accounted for
	fresh    map[trace.TraceID]bool
	ctx      string
}

// byDefaultOf checks a decision of the default sampler against those before it.
func (j *judge) byDefaultOf(id trace.TraceID, parentSampled, got bool, what string) {
	if parentSampled {
		j.r.Check(got, "dropped", "%s: %s is not sampled though its parent is and samplers keep sampled parents' children", j.ctx, what)
		return
	}
	if j.p == 0 || j.p == 1 {
		j.r.Check(got == (j.p == 1), "decision", "%s: %s has sampled=%v with a fraction of %v", j.ctx, what, got, j.p)
		return
	}
	if d, ok := j.dec[id]; ok {
		j.r.Check(got == d, "half-trace", "%s: %s has sampled=%v, the same sampler said %v of the trace before", j.ctx, what, got, d)
		return
	}
	j.dec[id] = got
}

// find looks for exported spans of a trace.
func (j *judge) find(id trace.TraceID, f func(*trace.SpanData) bool) (out []*trace.SpanData) {
	for _, d := range j.exp.by[id] {
		if f(d) {
			out = append(out, d)
			j.expected[d.SpanID] = true
		}
	}
	return
}

func sameState(a, b *tracestate.Tracestate) bool {
	ae, be := a.Entries(), b.Entries()
	if len(ae) != len(be) {
		return false
	}
	for i := range ae {
		if ae[i] != be[i] {
			return false
		}
	}
	return true
}

// hop judges a call made under the span with context above.
func (j *judge) hop(h *hop, above trace.SpanContext, aboveTag string) {
	r, what := j.r, fmt.Sprintf("%s %s (%s, via %q, public %v, samplers %d/%d)", h.Kind, h.ID, formatNames[h.Format], h.Via, h.Public, h.Client, h.Server)
	r.Count("hops_"+h.Kind, 1)
	caller := above
	var local *trace.SpanData
	if h.Via != "proxied" {
		r.Check(h.local.TraceID == above.TraceID && h.local.IsSampled() == above.IsSampled() && sameState(h.local.Tracestate, above.Tracestate),
			"local", "%s: the span around %s is %+v under %+v", j.ctx, what, h.local, above)
		ds := j.find(above.TraceID, func(d *trace.SpanData) bool { return d.SpanID == h.local.SpanID })
		r.Check(len(ds) == b2i(h.local.IsSampled()), "local", "%s: the span around %s was exported %d times, sampled %v", j.ctx, what, len(ds), h.local.IsSampled())
		if len(ds) == 1 {
			local = ds[0]
			r.Check(local.ParentSpanID == above.SpanID && !local.HasRemoteParent && local.Name == "call-"+h.ID, "local", "%s: the span around %s is %+v under %v", j.ctx, what, local, above.SpanID)
		}
		caller = h.local
	}
	legs := 1
	if h.Via == "redirect" || h.Via == "retry" {
		legs = 2
	}
	if !r.Check(len(h.legs) == legs, "legs", "%s: %s was handled %d times, want %d", j.ctx, what, len(h.legs), legs) {
		return
	}
	if local != nil {
		r.Check(local.ChildSpanCount == legs, "children", "%s: the span around %s has %d children, want %d", j.ctx, what, local.ChildSpanCount, legs)
	}
	sampled := caller.IsSampled()
	switch h.Client {
	case always:
		sampled = true
	case never:
		sampled = false
	}
	clients := j.find(above.TraceID, func(d *trace.SpanData) bool {
		if d.ParentSpanID != caller.SpanID || d.SpanKind != trace.SpanKindClient {
			return false
		}
		return h.Via != "proxied" || d.Name == h.path()
	})
	if !r.Check(len(clients) == legs*b2i(sampled), "client-spans", "%s: %s has %d client spans, want %d", j.ctx, what, len(clients), legs*b2i(sampled)) {
		return
	}
	name := h.path()
	if h.Kind == "grpc" {
		name = "t.S.U"
		if len(h.ID)%2 != 0 {
			name = "t.S.B"
		}
	}
	byID := map[trace.SpanID]*trace.SpanData{}
	for _, c := range clients {
		byID[c.SpanID] = c
		r.Check(c.Name == name && !c.HasRemoteParent && c.IsSampled() && c.ChildSpanCount == 0, "client", "%s: %s has client span %+v", j.ctx, what, c)
		r.Check(sameState(c.Tracestate, above.Tracestate), "tracestate", "%s: the client span of %s has tracestate %v, want %v", j.ctx, what, c.Tracestate.Entries(), above.Tracestate.Entries())
		if local != nil {
			r.Check(!c.StartTime.Before(local.StartTime) && !c.EndTime.After(local.EndTime), "times", "%s: %s ran %v-%v within %v-%v", j.ctx, what, c.StartTime, c.EndTime, local.StartTime, local.EndTime)
		}
	}
	used := map[trace.SpanID]bool{}
	for i, l := range h.legs {
		code := h.code()
		if i < legs-1 {
			code = map[string]int{"redirect": 307, "retry": 503}[h.Via]
		}
		st := int32(code)
		if h.Kind == "http" {
			st = httpCodes[code]
		}
		if h.Public {
			r.Check(!j.fresh[l.sc.TraceID] && l.sc.TraceID != above.TraceID && l.sc.Tracestate == nil, "public", "%s: the public end of %s continues a trace: %+v", j.ctx, what, l.sc)
			j.fresh[l.sc.TraceID] = true
		} else {
			r.Check(l.sc.TraceID == above.TraceID, "trace-id", "%s: %s is of trace %v at its server, %v at its caller", j.ctx, what, l.sc.TraceID, above.TraceID)
			want := above.Tracestate
			if h.Kind == "grpc" || h.Format != w3c {
				want = nil
			}
			r.Check(sameState(l.sc.Tracestate, want), "tracestate", "%s: %s has tracestate %v at its server, want %v", j.ctx, what, l.sc.Tracestate.Entries(), want.Entries())
		}
		switch h.Server {
		case byDefault:
			j.byDefaultOf(l.sc.TraceID, sampled && !h.Public, l.sc.IsSampled(), what)
		default:
			r.Check(l.sc.IsSampled() == (h.Server == always), "decision", "%s: %s has sampled=%v, its sampler says %v", j.ctx, what, l.sc.IsSampled(), h.Server == always)
		}
		ds := j.find(l.sc.TraceID, func(d *trace.SpanData) bool { return d.SpanID == l.sc.SpanID })
		if !r.Check(len(ds) == b2i(l.sc.IsSampled()), "server-spans", "%s: the server span of %s was exported %d times, sampled %v", j.ctx, what, len(ds), l.sc.IsSampled()) {
			continue
		}
		tag := "(none)"
		if h.Kind == "grpc" {
			tag = aboveTag
		}
		r.Check(h.tags[i] == tag, "tags", "%s: %s has user tag %q, want %q", j.ctx, what, h.tags[i], tag)
		if len(ds) == 0 {
			continue
		}
		d := ds[0]
		r.Count("server_spans", 1)
		parent := d.ParentSpanID
		if h.Public {
			ok := d.ParentSpanID == trace.SpanID{} && !d.HasRemoteParent && len(d.Links) == 1 && d.Links[0].Type == trace.LinkTypeParent && d.Links[0].TraceID == above.TraceID
			if !r.Check(ok, "public", "%s: the public end of %s is %+v, want a root linked to %v", j.ctx, what, d, above.TraceID) {
				continue
			}
			parent = d.Links[0].SpanID
		} else {
			r.Check(d.HasRemoteParent && len(d.Links) == 0, "server", "%s: the server span of %s has remote parent %v and %d links", j.ctx, what, d.HasRemoteParent, len(d.Links))
		}
		c := byID[parent]
		r.Check((c != nil) == sampled && !used[parent] && parent != trace.SpanID{} && parent != caller.SpanID, "parentage",
			"%s: the server span of %s has parent %v, its %d client spans (sampled %v) are %v", j.ctx, what, parent, len(byID), sampled, byID)
		used[parent] = true
		r.Check(d.Name == name && d.SpanKind == trace.SpanKindServer, "server", "%s: the server span of %s is named %q, of kind %d", j.ctx, what, d.Name, d.SpanKind)
		calls := len(h.Children)
		if i < legs-1 {
			calls = 0
		}
		r.Check(d.ChildSpanCount == calls, "children", "%s: the server span of %s has %d children, want %d", j.ctx, what, d.ChildSpanCount, calls)
		r.Check(d.Code == st, "status", "%s: the server span of %s has status %d, want %d", j.ctx, what, d.Code, st)
		if c != nil {
			r.Check(c.Code == st, "status", "%s: the client span of %s has status %d, want %d", j.ctx, what, c.Code, st)
			r.Check(!d.StartTime.Before(c.StartTime) && !c.EndTime.Before(l.at), "times", "%s: %s started %v at its server, handled at %v, ran %v-%v at its caller", j.ctx, what, d.StartTime, l.at, c.StartTime, c.EndTime)
			r.Count("spans_joined", 1)
		}
		r.Check(!l.at.Before(d.StartTime), "times", "%s: %s was handled at %v before its server span started at %v", j.ctx, what, l.at, d.StartTime)
	}
	l := h.legs[legs-1]
	tag := "(none)"
	if h.Kind == "grpc" {
		tag = aboveTag
	}
	if h.Retag {
		tag = "by-" + h.ID
	}
	for _, c := range h.Children {
		j.hop(c, l.sc, tag)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *world) round(rng *rand.Rand, exp *exporter, n int) {
	r := w.r
	p := []float64{0, 0.3, 0.5, 0.5, 0.8, 1}[rng.IntN(6)]
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(p)})
	exp.mu.Lock()
	exp.by, exp.seen = map[trace.TraceID][]*trace.SpanData{}, 0
	exp.mu.Unlock()
	mix := rng.IntN(3)
	r.Case("fraction %v, mix %d", p, mix)
	roots := make([]*root, n)
	for i := range roots {
		left := 1 + rng.IntN(12)
		roots[i] = &root{hop: w.tree(rng, &left, 0, mix), sampler: rng.IntN(3), tag: fmt.Sprintf("u%d", rng.IntN(1000))}
		if rng.IntN(2) == 0 {
			roots[i].sampler = byDefault
		}
		if rng.IntN(3) == 0 {
			sc := trace.SpanContext{TraceOptions: trace.TraceOptions(rng.IntN(2))}
			for k := range sc.TraceID {
				sc.TraceID[k] = byte(rng.IntN(256))
			}
			sc.SpanID = trace.SpanID{1, byte(rng.IntN(256)), 3}
			if rng.IntN(2) == 0 {
				sc.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "vendor", Value: fmt.Sprint(rng.IntN(99))}, tracestate.Entry{Key: "a@b", Value: "x"})
			}
			roots[i].remote = &sc
		}
	}
	var next atomic.Int64
	r.Par(6, func(int) {
		for {
			k := int(next.Add(1)) - 1
			if k >= n {
				return
			}
			o := roots[k]
			ctx, err := tag.New(context.Background(), tag.Insert(userKey, o.tag), tag.Insert(localKey, "l", tag.WithTTL(tag.TTLNoPropagation)))
			if err != nil {
				r.Broken("tag: %v", err)
			}
			var sp *trace.Span
			if o.remote != nil {
				ctx, sp = trace.StartSpanWithRemoteParent(ctx, "root", *o.remote, trace.WithSampler(samplers[o.sampler]))
			} else {
				ctx, sp = trace.StartSpan(ctx, "root", trace.WithSampler(samplers[o.sampler]))
			}
			o.sc = sp.SpanContext()
			w.call(ctx, o.hop)
			sp.End()
			r.Progress()
		}
	})
	// The servers end their spans shortly after their callers have the answer.
	var j *judge
	want := 0
	for _, o := range roots {
		want += b2i(o.sc.IsSampled())
		var count func(h *hop, above trace.SpanContext)
		count = func(h *hop, above trace.SpanContext) {
			if h.Via != "proxied" {
				want += b2i(h.local.IsSampled())
				above = h.local
			}
			for _, l := range h.legs {
				want += b2i(l.sc.IsSampled()) + b2i(h.Client == always || h.Client == byDefault && above.IsSampled())
			}
			for _, c := range h.Children {
				if len(h.legs) > 0 {
					count(c, h.legs[len(h.legs)-1].sc)
				}
			}
		}
		count(o.hop, o.sc)
	}
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		exp.mu.Lock()
		n := exp.seen
		exp.mu.Unlock()
		if n >= want {
			break
		}
	}
	exp.mu.Lock()
	defer exp.mu.Unlock()
	j = &judge{r: r, exp: exp, p: p, dec: map[trace.TraceID]bool{}, expected: map[trace.SpanID]bool{}, fresh: map[trace.TraceID]bool{}}
	kept := 0
	for _, o := range roots {
		j.ctx = fmt.Sprintf("fraction %v, root sampler %d, remote %v, tree %v", p, o.sampler, o.remote, o.hop)
		if len(j.ctx) > 1500 {
			j.ctx = j.ctx[:1500]
		}
		if o.remote != nil {
			r.Check(o.sc.TraceID == o.remote.TraceID && sameState(o.sc.Tracestate, o.remote.Tracestate), "root", "%s: the root is %+v", j.ctx, o.sc)
		} else {
			r.Check(!j.fresh[o.sc.TraceID], "root", "%s: the root's trace is not its own", j.ctx)
			j.fresh[o.sc.TraceID] = true
		}
		if o.sampler == byDefault {
			j.byDefaultOf(o.sc.TraceID, o.remote != nil && o.remote.IsSampled(), o.sc.IsSampled(), "the root")
		} else {
			r.Check(o.sc.IsSampled() == (o.sampler == always), "decision", "%s: the root has sampled=%v", j.ctx, o.sc.IsSampled())
		}
		ds := j.find(o.sc.TraceID, func(d *trace.SpanData) bool { return d.SpanID == o.sc.SpanID })
		if r.Check(len(ds) == b2i(o.sc.IsSampled()), "root", "%s: the root was exported %d times", j.ctx, len(ds)) && len(ds) == 1 {
			r.Check(ds[0].ChildSpanCount == 1, "children", "%s: the root has %d children", j.ctx, ds[0].ChildSpanCount)
		}
		j.hop(o.hop, o.sc, o.tag)
		n := o.hop.size()
		key := fmt.Sprintf("%v|%d|%v|%v", p, o.sampler, o.remote, o.hop)
		r.Eval(key)
		r.Count("calls", n)
		if n > 2 {
			r.Count("traces_of_several_calls", 1)
		}
		if len(ds) == 1 {
			kept++
			r.Sample(map[string]any{"fraction": p, "tree": json.RawMessage(o.hop.String()), "spans_of_the_trace": len(exp.by[o.sc.TraceID])})
		}
	}
	r.Count("traces_kept", kept)
	r.Count("traces_not_kept", n-kept)
	for _, l := range exp.by {
		for _, d := range l {
			r.Count("spans_exported", 1)
			r.Check(j.expected[d.SpanID], "stray-span", "%s: a span that belongs to no call was exported: %+v", j.ctx, d)
		}
	}
	w.hops.Clear()
}

func run(r *mon.Run) {
	encoding.RegisterCodec(codec{})
	rng := r.Rand("main")
	exp := &exporter{by: map[trace.TraceID][]*trace.SpanData{}}
	trace.RegisterExporter(exp)
	w := newWorld(r)
	for i := r.N(400, 8); i > 0 && r.Violated() == 0; i-- {
		w.round(rng, exp, 12)
	}
	exp.mu.Lock()
	before := exp.seen
	exp.mu.Unlock()
	w.close()
	time.Sleep(20 * time.Millisecond)
	exp.mu.Lock()
	r.Check(exp.seen == before, "stray-span", "%d spans were exported after all calls were over", exp.seen-before)
	exp.mu.Unlock()
	for _, c := range []string{"hops_http", "hops_grpc", "server_spans", "spans_joined", "traces_kept", "traces_not_kept", "traces_of_several_calls"} {
		r.Require(c, 20)
	}
}
