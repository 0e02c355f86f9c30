// C27: the predefined views of ochttp and ocgrpc show exactly the traffic.
//
// Requests and RPCs of known shape go through the real instrumentation, from
// several goroutines. Each is logged with what is known of it; the rows of
// every predefined view are compared with what its documentation says it shows.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

func main() { mon.Main("C27", run) }

// An event is one request or RPC, with the values of its fields; a latency is
// known within bounds.
type event struct {
	kind  string // "hs", "hc", "gs", "gc": HTTP or gRPC, server or client
	begun bool
	ended bool
	tags  map[string]string
	val   map[string][2]float64
}

// What each view is documented to show.
type doc struct {
	v      *view.View
	name   string
	kind   string
	tags   []string
	field  string // of each ended event; "" counts them, "begun" the started ones
	unit   metricdata.Unit
	bounds []float64
}

var (
	sizes  = []float64{1024, 2048, 4096, 16384, 65536, 262144, 1048576, 4194304, 16777216, 67108864, 268435456, 1073741824, 4294967296}
	hlat   = []float64{1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300, 400, 500, 650, 800, 1000, 2000, 5000, 10000, 20000, 50000, 100000}
	glat   = []float64{0.01, 0.05, 0.1, 0.3, 0.6, 0.8, 1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300, 400, 500, 650, 800, 1000, 2000, 5000, 10000, 20000, 50000, 100000}
	counts = []float64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
)

const (
	one = metricdata.UnitDimensionless
	by  = metricdata.UnitBytes
	ms  = metricdata.UnitMilliseconds
)

var docs = func() []doc {
	cl := []string{"http_client_method", "http_client_status"}
	gc, gs := []string{"grpc_client_method"}, []string{"grpc_server_method"}
	h, g := "opencensus.io/http/", "grpc.io/"
	return []doc{
		{ochttp.ClientSentBytesDistribution, h + "client/sent_bytes", "hc", cl, "sent", by, sizes},
		{ochttp.ClientReceivedBytesDistribution, h + "client/received_bytes", "hc", cl, "received", by, sizes},
		{ochttp.ClientRoundtripLatencyDistribution, h + "client/roundtrip_latency", "hc", cl, "latency", ms, hlat},
		{ochttp.ClientCompletedCount, h + "client/completed_count", "hc", cl, "", one, nil},
		{ochttp.ClientRequestCountView, h + "client/request_count", "hc", nil, "begun", one, nil},
		{ochttp.ClientRequestBytesView, h + "client/request_bytes", "hc", nil, "sent", by, sizes},
		{ochttp.ClientResponseBytesView, h + "client/response_bytes", "hc", nil, "received", by, sizes},
		{ochttp.ClientLatencyView, h + "client/latency", "hc", nil, "latency", ms, hlat},
		{ochttp.ClientRequestCountByMethod, h + "client/request_count_by_method", "hc", []string{"http.method"}, "", one, nil},
		{ochttp.ClientResponseCountByStatusCode, h + "client/response_count_by_status_code", "hc", []string{"http.status"}, "", one, nil},
		{ochttp.ServerRequestCountView, h + "server/request_count", "hs", nil, "begun", one, nil},
		{ochttp.ServerRequestBytesView, h + "server/request_bytes", "hs", nil, "received", by, sizes},
		{ochttp.ServerResponseBytesView, h + "server/response_bytes", "hs", nil, "sent", by, sizes},
		{ochttp.ServerLatencyView, h + "server/latency", "hs", nil, "latency", ms, hlat},
		{ochttp.ServerRequestCountByMethod, h + "server/request_count_by_method", "hs", []string{"http.method"}, "begun", one, nil},
		{ochttp.ServerResponseCountByStatusCode, h + "server/response_count_by_status_code", "hs", []string{"http.status"}, "", one, nil},

		{ocgrpc.ClientSentBytesPerRPCView, g + "client/sent_bytes_per_rpc", "gc", gc, "sent", by, sizes},
		{ocgrpc.ClientReceivedBytesPerRPCView, g + "client/received_bytes_per_rpc", "gc", gc, "received", by, sizes},
		{ocgrpc.ClientRoundtripLatencyView, g + "client/roundtrip_latency", "gc", gc, "latency", ms, glat},
		{ocgrpc.ClientCompletedRPCsView, g + "client/completed_rpcs", "gc", []string{"grpc_client_method", "grpc_client_status"}, "", one, nil},
		{ocgrpc.ClientStartedRPCsView, g + "client/started_rpcs", "gc", gc, "begun", one, nil},
		{ocgrpc.ClientSentMessagesPerRPCView, g + "client/sent_messages_per_rpc", "gc", gc, "msent", one, counts},
		{ocgrpc.ClientReceivedMessagesPerRPCView, g + "client/received_messages_per_rpc", "gc", gc, "mreceived", one, counts},
		{ocgrpc.ServerReceivedBytesPerRPCView, g + "server/received_bytes_per_rpc", "gs", gs, "received", by, sizes},
		{ocgrpc.ServerSentBytesPerRPCView, g + "server/sent_bytes_per_rpc", "gs", gs, "sent", by, sizes},
		{ocgrpc.ServerLatencyView, g + "server/server_latency", "gs", gs, "latency", ms, glat},
		{ocgrpc.ServerCompletedRPCsView, g + "server/completed_rpcs", "gs", []string{"grpc_server_method", "grpc_server_status"}, "", one, nil},
		{ocgrpc.ServerStartedRPCsView, g + "server/started_rpcs", "gs", gs, "begun", one, nil},
		{ocgrpc.ServerReceivedMessagesPerRPCView, g + "server/received_messages_per_rpc", "gs", gs, "mreceived", one, counts},
		{ocgrpc.ServerSentMessagesPerRPCView, g + "server/sent_messages_per_rpc", "gs", gs, "msent", one, counts},
	}
}()

// tagged keeps the tags whose values are valid, as others are left out.
func tagged(m map[string]string) map[string]string {
	for k, v := range m {
		if len(v) > 255 || strings.IndexFunc(v, func(r rune) bool { return r < 32 || r > 126 }) >= 0 {
			delete(m, k)
		}
	}
	return m
}

func exact(n int) [2]float64 { return [2]float64{float64(n), float64(n)} }

func millis(in, out time.Duration) [2]float64 {
	return [2]float64{float64(in) / 1e6, float64(out) / 1e6}
}

func size(rng *rand.Rand) int {
	switch rng.IntN(6) {
	case 0:
		return 0
	case 1:
		return []int{1023, 1024, 1025, 2047, 2048, 4096, 4097, 16384}[rng.IntN(8)]
	case 2:
		return rng.IntN(20000)
	default:
		return rng.IntN(1500)
	}
}

func wait(rng *rand.Rand) {
	if rng.IntN(12) == 0 {
		time.Sleep(time.Duration(rng.IntN(5_000)) * time.Microsecond)
	}
}

var httpMethods = []string{"GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}

// served sends a request through the instrumented server.
func served(r *mon.Run, rng *rand.Rand) event {
	method := httpMethods[rng.IntN(len(httpMethods))]
	code := []int{200, 200, 201, 204, 301, 404, 503}[rng.IntN(7)]
	out, in := size(rng), -1
	var body io.Reader
	if rng.IntN(2) == 0 {
		in = 1 + size(rng)
		body = strings.NewReader(strings.Repeat("x", in))
	}
	pieces, wrote := 1+rng.IntN(3), 0
	var inner time.Duration
	panics := rng.IntN(16) == 0
	h := &ochttp.Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		t := time.Now()
		if rng.IntN(2) == 0 {
			io.Copy(io.Discard, req.Body)
		}
		w.WriteHeader(code)
		for k := 0; k < pieces; k++ {
			n := out / pieces
			if k == 0 {
				n += out % pieces
			}
			n, _ = w.Write(make([]byte, n)) // 204 takes no body
			wrote += n
		}
		wait(rng)
		inner = time.Since(t)
		if panics {
			panic(http.ErrAbortHandler)
		}
	}), IsPublicEndpoint: rng.IntN(3) == 0}
	req := httptest.NewRequest(method, "http://host/p", body)
	if body == nil {
		req.Body = http.NoBody
	}
	t := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil && e != http.ErrAbortHandler {
				panic(e)
			}
		}()
		h.ServeHTTP(httptest.NewRecorder(), req)
	}()
	e := event{kind: "hs", begun: true, ended: true,
		tags: tagged(map[string]string{"http.method": method, "http.status": fmt.Sprint(code)}),
		val:  map[string][2]float64{"sent": exact(wrote), "latency": millis(inner, time.Since(t))}}
	if in >= 0 {
		e.val["received"] = exact(in)
	}
	return e
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

// requested makes a request through the instrumented client.
func requested(r *mon.Run, rng *rand.Rand) event {
	method := append(httpMethods, "M\u00e9")[rng.IntN(len(httpMethods)+1)]
	code := []int{200, 200, 201, 204, 301, 404, 503}[rng.IntN(7)]
	out, in := 0, size(rng)
	fails, noBody, known := rng.IntN(8) == 0, rng.IntN(8) == 0, rng.IntN(2) == 0
	u, _ := url.Parse("http://host/p")
	req := &http.Request{Method: method, URL: u, Host: "host", Header: http.Header{}, ContentLength: 0}
	if rng.IntN(2) == 0 {
		out = 1 + size(rng)
		req.Body, req.ContentLength = io.NopCloser(strings.NewReader(strings.Repeat("y", out))), int64(out)
	}
	tr := &ochttp.Transport{Base: roundTripper(func(q *http.Request) (*http.Response, error) {
		wait(rng)
		if fails {
			return nil, errors.New("failed")
		}
		resp := &http.Response{StatusCode: code, Header: http.Header{}, Request: q, ContentLength: -1}
		if known {
			resp.ContentLength = int64(in)
		}
		if !noBody {
			resp.Body = io.NopCloser(strings.NewReader(strings.Repeat("z", in)))
		} else {
			resp.ContentLength = 0
		}
		return resp, nil
	})}
	open := false
	t := time.Now()
	resp, err := tr.RoundTrip(req.WithContext(context.Background()))
	received := 0
	if err == nil && resp.Body != nil {
		wait(rng)
		switch rng.IntN(8) {
		case 0: // never read: has not ended
			open = true
		case 1: // closed unread
			resp.Body.Close()
			if known {
				received = in
			}
		default:
			n, _ := io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			received = int(n)
			r.Check(received == in, "body", "read %d bytes of a body of %d", received, in)
		}
	}
	s := fmt.Sprint(code)
	if fails {
		s = "500"
	}
	return event{kind: "hc", begun: true, ended: !open,
		tags: tagged(map[string]string{"http.method": method, "http_client_method": method, "http.status": s, "http_client_status": s}),
		val:  map[string][2]float64{"sent": exact(out), "received": exact(received), "latency": {0, float64(time.Since(t)) / 1e6}}}
}

// called feeds the events of an RPC to a handler.
func called(r *mon.Run, rng *rand.Rand) event {
	server := rng.IntN(2) == 0
	method := []string{"pkg.S/A", "pkg.S/B", "T/C", "T/\u00e9"}[rng.IntN(4)]
	var h stats.Handler = &ocgrpc.ClientHandler{}
	side, kind := "client", "gc"
	if server {
		h, side, kind = &ocgrpc.ServerHandler{}, "server", "gs"
	}
	t := time.Now()
	ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/" + method})
	t1 := time.Now()
	h.HandleRPC(ctx, &stats.Begin{Client: !server})
	var sent, received, ms, mr int
	max := []int{1, 2, 3, 9, 40}[rng.IntN(5)]
	for k := rng.IntN(max + 1); k > 0; k-- {
		n := size(rng)
		if rng.IntN(2) == 0 {
			sent, ms = sent+n, ms+1
			h.HandleRPC(ctx, &stats.OutPayload{Client: !server, Length: n, WireLength: n + 5})
		} else {
			received, mr = received+n, mr+1
			h.HandleRPC(ctx, &stats.InPayload{Client: !server, Length: n, WireLength: n + 5})
		}
	}
	wait(rng)
	in := time.Since(t1)
	e := event{kind: kind, begun: true, tags: tagged(map[string]string{"grpc_" + side + "_method": method})}
	if rng.IntN(16) == 0 {
		return e // still going on
	}
	var err error
	st := "OK"
	if rng.IntN(3) == 0 {
		c := codes.Code(1 + rng.IntN(16))
		err = status.Error(c, "e")
		st = [...]string{"", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}[c]
	}
	h.HandleRPC(ctx, &stats.End{Client: !server, Error: err})
	e.ended = true
	e.tags["grpc_"+side+"_status"] = st
	e.val = map[string][2]float64{"sent": exact(sent), "received": exact(received), "msent": exact(ms), "mreceived": exact(mr), "latency": millis(in, time.Since(t))}
	return e
}

// rowKey names a row by its tags.
func rowKey(tags map[string]string) string {
	ks := []string{}
	for k, v := range tags {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "&")
}

// expected sorts the events of a view into its rows.
func (d *doc) expected(evs []event) map[string][][2]float64 {
	out := map[string][][2]float64{}
	for _, e := range evs {
		if e.kind != d.kind || d.field == "begun" && !e.begun || d.field != "begun" && !e.ended {
			continue
		}
		v, ok := [2]float64{}, true
		if d.field != "" && d.field != "begun" {
			v, ok = e.val[d.field]
		}
		if !ok {
			continue
		}
		tags := map[string]string{}
		for _, k := range d.tags {
			if x, ok := e.tags[k]; ok {
				tags[k] = x
			}
		}
		k := rowKey(tags)
		out[k] = append(out[k], v)
	}
	return out
}

// differs compares a distribution with the values it should hold.
func (d *doc) differs(obs [][2]float64, x *view.DistributionData, bounds []float64) string {
	n := len(obs)
	if x.Count != int64(n) {
		return fmt.Sprintf("holds %d values, want %d", x.Count, n)
	}
	if !reflect.DeepEqual(bounds, d.bounds) {
		return fmt.Sprintf("has bounds %v, documented are %v", bounds, d.bounds)
	}
	if len(x.CountPerBucket) != len(bounds)+1 {
		return fmt.Sprintf("has %d buckets for %d bounds", len(x.CountPerBucket), len(bounds))
	}
	lo, hi := [3]float64{0, math.Inf(1), math.Inf(-1)}, [3]float64{0, math.Inf(1), math.Inf(-1)} // sum, min, max
	for _, o := range obs {
		lo = [3]float64{lo[0] + o[0], min(lo[1], o[0]), max(lo[2], o[0])}
		hi = [3]float64{hi[0] + o[1], min(hi[1], o[1]), max(hi[2], o[1])}
	}
	eps := 1e-7*math.Abs(hi[0]) + 1e-9
	for i, got := range []float64{x.Sum(), x.Min, x.Max} {
		if got < lo[i]-eps || got > hi[i]+eps {
			return fmt.Sprintf("has %s %v, the values give %v..%v", []string{"sum", "minimum", "maximum"}[i], got, lo[i], hi[i])
		}
	}
	below := int64(0)
	for i, b := range bounds {
		below += x.CountPerBucket[i]
		must, may := int64(0), int64(0)
		for _, o := range obs {
			if o[1] < b {
				must++
			}
			if o[0] < b {
				may++
			}
		}
		if below < must || below > may {
			return fmt.Sprintf("has %d values below %v, want %d..%d", below, b, must, may)
		}
	}
	if below+x.CountPerBucket[len(bounds)] != int64(n) {
		return fmt.Sprintf("buckets %v do not add up to %d", x.CountPerBucket, n)
	}
	return ""
}

// compare checks the rows of a view.
func compare(r *mon.Run, d *doc, evs []event, ctx string) {
	rows, err := view.RetrieveData(d.name)
	if !r.Check(err == nil, "name", "%s: no data under the documented name: %v", d.name, err) {
		return
	}
	want := d.expected(evs)
	seen := map[string]bool{}
	total := int64(0)
	for _, row := range rows {
		tags := map[string]string{}
		for _, t := range row.Tags {
			v := t.Value
			if v == "error" {
				v = "500"
			}
			tags[t.Key.Name()] = v
		}
		k := rowKey(tags)
		r.Check(!seen[k], "row-twice", "%s, %s: two rows for %q", ctx, d.name, k)
		seen[k] = true
		obs, ok := want[k]
		if !r.Check(ok, "row", "%s, %s: a row for %q, expected are %v", ctx, d.name, k, keys(want)) {
			continue
		}
		diff := ""
		switch x := row.Data.(type) {
		case *view.CountData:
			if d.bounds != nil {
				diff = "is a count"
			} else if x.Value != int64(len(obs)) {
				diff = fmt.Sprintf("counts %d, want %d", x.Value, len(obs))
			}
		case *view.DistributionData:
			if d.bounds == nil {
				diff = "is a distribution"
			} else {
				diff = d.differs(obs, x, d.v.Aggregation.Buckets)
			}
		default:
			diff = fmt.Sprintf("holds a %T", x)
		}
		r.Check(diff == "", "row", "%s, %s, row %q %s", ctx, d.name, k, diff)
		total += int64(len(obs))
		r.Count("rows_compared", 1)
	}
	for k, obs := range want {
		r.Check(seen[k], "row-missing", "%s, %s: no row for %q (%d values)", ctx, d.name, k, len(obs))
	}
	r.Count("values_compared", int(total))
}

func keys(m map[string][][2]float64) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// units compares the metric read of each view with its documented unit and labels.
func units(r *mon.Run, ds []*doc, ctx string) {
	got := map[string]*metricdata.Metric{}
	for _, p := range metricproducer.GlobalManager().GetAll() {
		for _, m := range p.Read() {
			r.Check(got[m.Descriptor.Name] == nil, "metric-twice", "%s: two metrics %s", ctx, m.Descriptor.Name)
			got[m.Descriptor.Name] = m
		}
	}
	for _, d := range ds {
		m := got[d.name]
		if m == nil {
			continue // without rows; rows are compared by now
		}
		r.Check(m.Descriptor.Unit == d.unit, "unit", "%s: metric %s has unit %q, documented is %q", ctx, d.name, m.Descriptor.Unit, d.unit)
		var ks []string
		for _, k := range m.Descriptor.LabelKeys {
			ks = append(ks, k.Key)
		}
		want := append([]string(nil), d.tags...)
		sort.Strings(want)
		r.Check(reflect.DeepEqual(ks, want), "labels", "%s: metric %s has labels %v, want %v", ctx, d.name, ks, want)
		r.Check(m.Descriptor.Description == d.v.Description && m.Descriptor.Description != "", "description", "%s: metric %s is described %q", ctx, d.name, m.Descriptor.Description)
		r.Count("metrics_compared", 1)
	}
}

type definition struct {
	name, desc, measure string
	tags                []tag.Key
	agg                 view.Aggregation
}

func define(v *view.View) definition {
	a := *v.Aggregation
	a.Buckets = append([]float64(nil), a.Buckets...)
	return definition{v.Name, v.Description, v.Measure.Name(), append([]tag.Key(nil), v.TagKeys...), view.Aggregation{Type: a.Type, Buckets: a.Buckets}}
}

func round(r *mon.Run, rng *rand.Rand) {
	defs := make([]definition, len(docs))
	for i := range docs {
		defs[i] = define(docs[i].v)
	}
	// Which views are registered, in which order and how.
	var ds []*doc
	var vs []*view.View
	all := rng.IntN(2) == 0
	for _, i := range rng.Perm(len(docs)) {
		if all || rng.IntN(3) > 0 {
			ds = append(ds, &docs[i])
			vs = append(vs, docs[i].v)
		}
	}
	if len(vs) == 0 {
		return
	}
	lists := rng.IntN(4) == 0
	if lists { // the lists of defaults
		ds, vs = nil, nil
		for _, l := range [][]*view.View{ochttp.DefaultServerViews, ocgrpc.DefaultClientViews, ochttp.DefaultClientViews, ocgrpc.DefaultServerViews} {
			vs = append(vs, l...)
		}
		for _, v := range vs {
			for i := range docs {
				if docs[i].v == v {
					ds = append(ds, &docs[i])
				}
			}
		}
		r.Check(len(ds) == 20 && len(vs) == 20, "defaults", "the lists of default views hold %d views, %d of them documented", len(vs), len(ds))
	}
	register := func(vs []*view.View) {
		for len(vs) > 0 {
			n := len(vs)
			if rng.IntN(3) == 0 {
				n = 1 + rng.IntN(n)
			}
			err := view.Register(vs[:n]...)
			r.Check(err == nil, "register", "predefined views cannot be registered together: %v", err)
			vs = vs[n:]
		}
	}
	register(vs)
	ctx := fmt.Sprintf("%d views", len(vs))
	log := []event{}
	burst := func() {
		n := 1 + rng.IntN(4)
		per := make([][]event, n)
		var wg sync.WaitGroup
		for g := range per {
			wg.Add(1)
			rng := rand.New(rand.NewPCG(rng.Uint64(), uint64(g)))
			go func() {
				defer wg.Done()
				r.Do("traffic", func() {
					for k := 5 + rng.IntN(40); k > 0; k-- {
						per[g] = append(per[g], []func(*mon.Run, *rand.Rand) event{served, requested, called, called}[rng.IntN(4)](r, rng))
					}
				})
			}()
		}
		wg.Wait()
		for _, p := range per {
			log = append(log, p...)
			r.Count("events", len(p))
		}
	}
	for k := 1 + rng.IntN(2); k >= 0; k-- {
		burst()
		for _, d := range ds {
			compare(r, d, log, ctx)
		}
		units(r, ds, ctx)
		if rng.IntN(3) == 0 { // changes nothing
			register(vs[:1])
		}
	}
	if rng.IntN(2) == 0 { // some start over, the others go on
		cut := 1 + rng.IntN(len(vs))
		view.Unregister(vs[:cut]...)
		old := log
		log = nil
		burst()
		missed := log
		register(vs[:cut])
		log = nil
		burst()
		for i, d := range ds {
			if i < cut {
				compare(r, d, log, ctx+", registered again")
			} else {
				compare(r, d, append(append(append([]event(nil), old...), missed...), log...), ctx+", kept")
			}
		}
		r.Count("registered_again", 1)
	}
	view.Unregister(vs...)
	for i := range docs {
		r.Check(reflect.DeepEqual(defs[i], define(docs[i].v)), "definition", "%s was %+v and is %+v", docs[i].name, defs[i], define(docs[i].v))
	}
	r.Eval(fmt.Sprint(len(vs), len(log), lists, rng.Uint64()))
	r.Count("rounds", 1)
}

func run(r *mon.Run) {
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(0.5)})
	rng := r.Rand("c27")
	r.Require("rounds", 10)
	r.Require("rows_compared", 500)
	r.Require("metrics_compared", 100)
	for c := 0; c < r.N(60, 20); c++ {
		r.Case("round %d", c)
		round(r, rng)
		r.Progress()
	}
}
