// Monitor for C21: the gRPC handlers.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/plugin/ocgrpc"
	ostats "go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	hm "go.opencensus.io/verifmon/httpmon"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

func main() { mon.Main("C21", run) }

var (
	keyID    = tag.MustNewKey("id")
	keyLocal = tag.MustNewKey("local")
	codeName = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}
	measures = [2][]ostats.Measure{
		{ocgrpc.ClientStartedRPCs, ocgrpc.ClientSentMessagesPerRPC, ocgrpc.ClientSentBytesPerRPC, ocgrpc.ClientReceivedMessagesPerRPC, ocgrpc.ClientReceivedBytesPerRPC, ocgrpc.ClientRoundtripLatency},
		{ocgrpc.ServerStartedRPCs, ocgrpc.ServerSentMessagesPerRPC, ocgrpc.ServerSentBytesPerRPC, ocgrpc.ServerReceivedMessagesPerRPC, ocgrpc.ServerReceivedBytesPerRPC, ocgrpc.ServerLatency},
	}
	exemplars [2]*view.View
)

func name(c codes.Code) string {
	if int(c) < len(codeName) {
		return codeName[c]
	}
	return fmt.Sprintf("CODE_%d", int64(c))
}

// spans collects exported spans by span ID.
type spans struct {
	mu sync.Mutex
	by map[trace.SpanID][]*trace.SpanData
}

func (s *spans) ExportSpan(d *trace.SpanData) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.by[d.SpanID] = append(s.by[d.SpanID], d)
}

func (s *spans) get(id trace.SpanID) []*trace.SpanData {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.by[id]
}

func (s *spans) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.by = map[trace.SpanID][]*trace.SpanData{}
}

// side is what one side of an RPC is to report.
type side struct {
	server             bool
	id                 string // propagated tag
	local              string // tag that is not propagated
	method             string
	sc                 trace.SpanContext
	sampled            bool
	parent             *trace.SpanContext
	remote             bool
	link               *trace.SpanContext
	sentN, sentB       int64
	recvN, recvB       int64
	minSent, minRecv   int64 // messages, when counts are not exact
	inexact            bool
	inherited          bool
	failFast           bool
	err                error
	anyErr             bool
	inner, outer       time.Duration
	noLatency          bool
	ended              bool
	wire               [2]int64 // bytes on the wire, when exact
	direct             bool
	earlyExport, nSpan int
}

func (s *side) judge(r *mon.Run, sp *spans, totals [2]map[string]map[string][]hm.Total, desc string) {
	k := 0
	methodKey, statusKey := "grpc_client_method", "grpc_client_status"
	if s.server {
		k, methodKey, statusKey = 1, "grpc_server_method", "grpc_server_status"
	}
	desc = fmt.Sprintf("%s (server %v, method %.30q)", desc, s.server, s.method)
	bad := func(sig, f string, a ...any) { r.Violate(sig, "%s: %s", desc, fmt.Sprintf(f, a...)) }
	code := codes.OK
	msg := ""
	if s.err != nil {
		st, _ := status.FromError(s.err)
		code, msg = st.Code(), st.Message()
	}
	for i, m := range measures[k] {
		rows := totals[k][m.Name()][s.id]
		tags := map[string]string{"id": s.id}
		if s.id == "" { // the method is this RPC's alone
			rows, tags = nil, map[string]string{}
			for _, row := range totals[k][m.Name()][""] {
				if row.Tags[methodKey] == strings.TrimLeft(s.method, "/") {
					rows = append(rows, row)
				}
			}
		}
		put := func(k, v string) {
			if hm.Tag(v) != "" {
				tags[k] = v
			}
		}
		if s.inherited { // the caller sent tags of the same names
			put(methodKey, "callers")
			put(statusKey, "callers")
		}
		put(methodKey, strings.TrimLeft(s.method, "/"))
		put("local", s.local)
		if i > 0 {
			put(statusKey, name(code))
		}
		if len(rows) != 1 || rows[0].N != 1 {
			bad("stats-count", "%s recorded %v, want one recording", m.Name(), rows)
			continue
		}
		row := rows[0]
		if s.anyErr {
			delete(row.Tags, statusKey)
			delete(tags, statusKey)
		}
		if !reflect.DeepEqual(row.Tags, tags) {
			bad("stats-tags", "%s has tags %q, want %q", m.Name(), row.Tags, tags)
		}
		var lo, hi float64
		switch i {
		case 0:
			lo, hi = 1, 1
		case 1:
			lo, hi = float64(s.sentN), float64(s.sentN)
			if s.inexact {
				lo = float64(s.minSent)
			}
		case 2:
			lo, hi = float64(s.sentB), float64(s.sentB)
			if s.inexact {
				lo = 0
			}
		case 3:
			lo, hi = float64(s.recvN), float64(s.recvN)
			if s.inexact {
				lo, hi = float64(s.minRecv), hi+1
			}
		case 4:
			lo, hi = float64(s.recvB), float64(s.recvB)
			if s.inexact {
				lo, hi = 0, 1e9
			}
		case 5:
			lo, hi = float64(s.inner)/1e6-0.001, float64(s.outer)/1e6+0.001
			if s.noLatency {
				hi = 120e3
			}
		}
		if row.Sum < lo || row.Sum > hi {
			bad("stats-value", "%s is %v, want [%v,%v]", m.Name(), row.Sum, lo, hi)
		}
		r.Count("measures_compared", 1)
	}
	// The latency's exemplar names the span.
	rows, _ := view.RetrieveData(exemplars[k].Name)
	for _, row := range rows {
		for _, t := range row.Tags {
			if t.Key.Name() == "id" && t.Value == s.id {
				for _, e := range row.Data.(*view.DistributionData).ExemplarsPerBucket {
					if e == nil {
						if s.sc.IsSampled() {
							bad("exemplar", "the latency of a sampled RPC has no exemplar")
						}
						continue
					}
					if sc, ok := e.Attachments[metricdata.AttachmentKeySpanContext].(trace.SpanContext); !ok && s.sc.IsSampled() || ok && sc.SpanID != s.sc.SpanID {
						bad("exemplar", "the exemplar names span %v, not %v", sc, s.sc)
					}
				}
				r.Count("exemplars", 1)
			}
		}
	}
	if s.sc.IsSampled() != s.sampled {
		bad("sampled", "span sampled %v", s.sc.IsSampled())
	}
	ds := sp.get(s.sc.SpanID)
	if !s.sampled {
		if len(ds) > 0 {
			bad("span-count", "%d spans exported of an unsampled RPC", len(ds))
		}
		return
	}
	if len(ds) != 1 || s.earlyExport > 0 {
		bad("span-count", "%d spans exported, %d before the end", len(ds), s.earlyExport)
		return
	}
	d := ds[0]
	kind := trace.SpanKindClient
	if s.server {
		kind = trace.SpanKindServer
	}
	if nm := strings.ReplaceAll(strings.TrimPrefix(s.method, "/"), "/", "."); d.Name != nm || d.SpanKind != kind {
		bad("span-name", "span %q of kind %d, want %q", d.Name, d.SpanKind, nm)
	}
	if s.parent == nil {
		if d.ParentSpanID != (trace.SpanID{}) || d.HasRemoteParent {
			bad("parent", "a root span has parent %v", d.ParentSpanID)
		}
	} else if d.ParentSpanID != s.parent.SpanID || d.TraceID != s.parent.TraceID || d.HasRemoteParent != s.remote {
		bad("parent", "trace %v parent %v remote %v, want %v remote %v", d.TraceID, d.ParentSpanID, d.HasRemoteParent, s.parent, s.remote)
	}
	if s.link == nil {
		if len(d.Links) > 0 {
			bad("link", "links %v", d.Links)
		}
	} else if len(d.Links) != 1 || d.Links[0].TraceID != s.link.TraceID || d.Links[0].SpanID != s.link.SpanID || d.Links[0].Type != trace.LinkTypeParent || d.TraceID == s.link.TraceID {
		bad("link", "trace %v links %v, want one to %v", d.TraceID, d.Links, s.link)
	}
	if !s.anyErr {
		if d.Status != (trace.Status{Code: int32(code), Message: msg}) {
			bad("span-status", "status %v, want %d %q", d.Status, code, msg)
		}
	} else if s.err != nil && d.Status.Code == 0 { // a cancelled RPC may have ended well for one end
		bad("span-status", "status %v of a failed RPC", d.Status)
	}
	if len(d.Attributes) != 2 || d.Attributes["Client"] != !s.server || d.Attributes["FailFast"] != s.failFast {
		bad("span-attributes", "attributes %v, want fail fast %v", d.Attributes, s.failFast)
	}
	var n, b, w [2]int64
	for _, e := range d.MessageEvents {
		i := 0
		if e.EventType == trace.MessageEventTypeRecv {
			i = 1
		}
		n[i]++
		b[i] += e.UncompressedByteSize
		w[i] += e.CompressedByteSize
	}
	if s.direct && w != s.wire && d.DroppedMessageEventCount == 0 {
		bad("message-events", "on the wire sent %d received %d, want %d", w[0], w[1], s.wire)
	}
	if !s.inexact && (n != [2]int64{s.sentN, s.recvN} || b != [2]int64{s.sentB, s.recvB}) && d.DroppedMessageEventCount == 0 {
		bad("message-events", "sent %d/%d received %d/%d, want %d/%d and %d/%d", n[0], b[0], n[1], b[1], s.sentN, s.sentB, s.recvN, s.recvB)
	}
	r.Count("spans_compared", 1)
}

func randSC(rng *rand.Rand) trace.SpanContext {
	sc := trace.SpanContext{TraceOptions: trace.TraceOptions(rng.IntN(2))}
	for i := range sc.TraceID {
		sc.TraceID[i] = byte(rng.IntN(256))
	}
	for i := range sc.SpanID {
		sc.SpanID[i] = byte(rng.IntN(256))
	}
	sc.TraceID[2], sc.SpanID[2] = 1, 1
	return sc
}

func randErr(rng *rand.Rand) error {
	switch rng.IntN(3) {
	case 0:
		return nil
	case 1:
		return status.Error(codes.Code(1+rng.IntN(20)), []string{"", "msg", "<é>"}[rng.IntN(3)])
	}
	return status.Error(codes.Code(1+rng.IntN(16)), "m")
}

// direct drives a handler with events as gRPC would send them.
// ended is an RPC that is over.
type ended struct {
	h      stats.Handler
	ctx    context.Context
	client bool
}

var over []ended

func direct(r *mon.Run, rng *rand.Rand, sp *spans) *side {
	s := &side{server: rng.IntN(2) == 0, id: vm.Unique("d"), failFast: rng.IntN(2) == 0, err: randErr(rng), anyErr: false}
	if rng.IntN(8) == 0 {
		s.err, s.anyErr = []error{errors.New("no status"), context.Canceled, io.ErrUnexpectedEOF}[rng.IntN(3)], true
	}
	s.method = "/" + []string{"pkg.S/M", "S/M/x", "M", "pkg.S/" + strings.Repeat("m", 300), "S/é", "/S/M"}[rng.IntN(6)]
	smp := []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[rng.IntN(3)]
	opts := trace.StartOptions{Sampler: smp, SpanKind: rng.IntN(3)}
	never := smp != nil && !smp(trace.SamplingParameters{}).Sample
	ctx := context.Background()
	var h stats.Handler
	var outSC trace.SpanContext
	if s.server {
		public := rng.IntN(3) == 0
		h = &ocgrpc.ServerHandler{IsPublicEndpoint: public, StartOptions: opts}
		s.sampled = !never
		md := metadata.MD{}
		switch rng.IntN(4) {
		case 0:
		case 1, 2:
			sc := randSC(rng)
			md["grpc-trace-bin"] = []string{string(propagation.Binary(sc))}
			if public {
				s.link = &sc
			} else {
				s.parent, s.remote = &sc, true
			}
		case 3: // malformed
			b := propagation.Binary(randSC(rng))
			md["grpc-trace-bin"] = []string{[]string{"", "x", string(b[:rng.IntN(18)]), "\x01" + string(b[1:])}[rng.IntN(4)]}
		}
		if v := md["grpc-trace-bin"]; v != nil && rng.IntN(3) == 0 { // only the first counts
			for k := rng.IntN(3); k >= 0; k-- {
				v = append(v, []string{string(propagation.Binary(randSC(rng))), "", "y"}[rng.IntN(3)])
			}
			md["grpc-trace-bin"] = v
			r.Count("several_trace_contexts", 1)
		}
		if len(md) > 0 || rng.IntN(2) == 0 {
			ctx = metadata.NewIncomingContext(ctx, md)
		}
		c, _ := tag.New(ctx, tag.Insert(keyID, s.id), tag.Insert(keyLocal, "never", tag.WithTTL(tag.TTLNoPropagation)))
		if rng.IntN(3) == 0 {
			c, _ = tag.New(c, tag.Insert(ocgrpc.KeyServerMethod, "callers"), tag.Insert(ocgrpc.KeyServerStatus, "callers"))
			s.inherited = true
		}
		enc := tag.Encode(tag.FromContext(c))
		if rng.IntN(6) == 0 {
			// No tags, or bytes that are no tags.
			s.method, s.id, s.inherited = "/pkg.S/"+s.id, "", false
			switch rng.IntN(5) {
			case 0:
				enc = nil
			case 1:
				enc = enc[:1+rng.IntN(len(enc)-1)]
			case 2:
				enc[0] = byte(1 + rng.IntN(255))
			case 3:
				enc = append(enc, []byte{0, 200, 'x'}...)
			case 4:
				enc = append(enc, 0, 1, 1, 1, 'v') // a key that is no key
			}
			if m, err := tag.Decode(enc); enc != nil && err == nil { // cut between two tags
				s.id, _ = m.Value(keyID)
				_, s.inherited = m.Value(ocgrpc.KeyServerStatus)
				if _, half := m.Value(ocgrpc.KeyServerMethod); s.id == "" || half != s.inherited {
					enc, s.id, s.inherited = nil, "", false
				}
			}
			if s.id == "" {
				r.Count("undecodable_tags", 1)
			}
		}
		if enc != nil || rng.IntN(2) == 0 {
			ctx = stats.SetIncomingTags(ctx, enc)
		}
	} else {
		h = &ocgrpc.ClientHandler{StartOptions: opts}
		s.sampled = !never
		if rng.IntN(3) > 0 {
			ps := []trace.Sampler{trace.AlwaysSample(), trace.NeverSample()}[rng.IntN(2)]
			var p *trace.Span
			ctx, p = trace.StartSpan(ctx, "parent", trace.WithSampler(ps))
			sc := p.SpanContext()
			s.parent = &sc
			if smp == nil {
				s.sampled = sc.IsSampled()
			}
			defer p.End()
		}
		s.local = []string{"", "l"}[rng.IntN(2)]
		ctx, _ = tag.New(ctx, tag.Insert(keyID, s.id))
		if s.local != "" {
			ctx, _ = tag.New(ctx, tag.Insert(keyLocal, s.local, tag.WithTTL(tag.TTLNoPropagation)))
		}
		if rng.IntN(3) == 0 { // metadata of the caller's own, and stale metadata
			ctx = metadata.AppendToOutgoingContext(ctx, "own", "1")
			if rng.IntN(2) == 0 {
				ctx = metadata.AppendToOutgoingContext(ctx, "grpc-trace-bin", string(propagation.Binary(randSC(rng))))
			}
		}
	}
	before := tag.FromContext(ctx)
	own, _ := metadata.FromOutgoingContext(ctx)
	t0 := time.Now()
	c := h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: s.method, FailFast: s.failFast})
	t1 := time.Now()
	span := trace.FromContext(c)
	if !r.Check(span != nil, "no-span", "TagRPC puts no span into the context") {
		return s
	}
	s.sc = span.SpanContext()
	id, _ := tag.FromContext(c).Value(keyID)
	r.Check(id == s.id, "tags", "the RPC's context has tag %q, want %q", id, s.id)
	if s.id == "" {
		_, ok := tag.FromContext(c).Value(ocgrpc.KeyServerStatus)
		v, _ := tag.FromContext(c).Value(ocgrpc.KeyServerMethod)
		r.Check(!ok && v == strings.TrimLeft(s.method, "/"), "tags", "the context of an RPC without decodable tags has %v", tag.FromContext(c))
	}
	if !s.server {
		md, _ := metadata.FromOutgoingContext(c)
		v := md["grpc-trace-bin"]
		r.Check(len(v) == 1, "metadata", "%d trace contexts are sent", len(v))
		if len(v) > 0 {
			outSC, _ = propagation.FromBinary([]byte(v[0]))
			r.Check(outSC.SpanID == s.sc.SpanID && outSC.TraceID == s.sc.TraceID && outSC.IsSampled() == s.sc.IsSampled(), "metadata", "the metadata says %v, the span is %v", outSC, s.sc)
		}
		r.Check(reflect.DeepEqual(md["own"], own["own"]), "metadata", "the caller's metadata %v became %v", own, md)
		m, err := tag.Decode(stats.OutgoingTags(c))
		if r.Check(err == nil && m != nil, "tags", "tags sent cannot be decoded: %v", err) {
			v, ok := m.Value(keyID)
			_, ok2 := m.Value(keyLocal)
			r.Check(ok && v == s.id && !ok2, "tags", "tags sent are %v", m)
		}
		r.Check(tag.FromContext(c) != nil && before != nil, "tags", "no tags")
	}
	// The events.
	s.direct = true
	h.HandleConn(c, &stats.ConnBegin{Client: !s.server})
	h.HandleRPC(c, &stats.Begin{Client: !s.server, FailFast: s.failFast, BeginTime: time.Now()})
	if len(over) > 0 && rng.IntN(2) == 0 {
		// Events of RPCs that are over may come late, and count for none.
		for k := 1 + rng.IntN(3); k > 0; k-- {
			e := over[rng.IntN(len(over))]
			e.h.HandleRPC(e.ctx, &stats.OutPayload{Client: e.client, Length: 1 + rng.IntN(5000), WireLength: 7})
			e.h.HandleRPC(e.ctx, &stats.InPayload{Client: e.client, Length: 1 + rng.IntN(5000), WireLength: 7})
			r.Count("late_events", 2)
		}
	}
	var wg sync.WaitGroup
	par := 1
	if rng.IntN(3) == 0 {
		par = 2 + rng.IntN(3)
	}
	for g := 0; g < par; g++ {
		var evs []stats.RPCStats
		for k := rng.IntN(6); k > 0; k-- {
			n := rng.IntN(2) * rng.IntN(5000)
			w := n/(1+rng.IntN(3)) + rng.IntN(20)
			switch rng.IntN(5) {
			case 0:
				evs = append(evs, &stats.InHeader{Client: !s.server})
			case 1:
				evs = append(evs, &stats.OutHeader{Client: !s.server}, &stats.OutTrailer{Client: !s.server})
			case 2:
				evs = append(evs, &stats.InPayload{Client: !s.server, Length: n, WireLength: w})
				s.recvN, s.recvB, s.wire[1] = s.recvN+1, s.recvB+int64(n), s.wire[1]+int64(w)
			default:
				evs = append(evs, &stats.OutPayload{Client: !s.server, Length: n, WireLength: w})
				s.sentN, s.sentB, s.wire[0] = s.sentN+1, s.sentB+int64(n), s.wire[0]+int64(w)
			}
		}
		send := func() {
			for _, e := range evs {
				h.HandleRPC(c, e)
			}
		}
		if par == 1 {
			send()
		} else {
			wg.Add(1)
			go func() { defer wg.Done(); send() }()
		}
	}
	wg.Wait()
	s.earlyExport = len(sp.get(s.sc.SpanID))
	t2 := time.Now()
	h.HandleRPC(c, &stats.End{Client: !s.server, Error: s.err})
	if over = append(over, ended{h, c, !s.server}); len(over) > 8 {
		over = over[1:]
	}
	s.inner, s.outer, s.ended = t2.Sub(t1), time.Since(t0), true
	r.Check(!s.sampled || len(sp.get(s.sc.SpanID)) == 1, "span-ends", "the span has not ended with the RPC")
	if internal.LocalSpanStoreEnabled {
		name := strings.ReplaceAll(strings.TrimPrefix(s.method, "/"), "/", ".")
		for _, d := range internal.Trace.(interface {
			ReportActiveSpans(name string) []*trace.SpanData
		}).ReportActiveSpans(name) {
			r.Check(d.SpanContext.SpanID != s.sc.SpanID, "span-ends", "the span (sampled %v) still runs after an RPC ended with %v", s.sampled, s.err)
		}
		r.Count("active_spans_checked", 1)
	}
	return s
}

// codec passes byte slices through.
type codec struct{}

func (codec) Marshal(v any) ([]byte, error) { return *v.(*[]byte), nil }
func (codec) Unmarshal(b []byte, v any) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (codec) Name() string { return "raw" }

// script is what the server is to do, sent in the first message.
type script struct {
	ID    string
	Reply []int // sizes; -1 waits for a message first
	Code  uint32
	Msg   string
	Pad   string
}

// network makes RPCs over loopback between instrumented ends.
func network(r *mon.Run, rng *rand.Rand, sp *spans, n int) (out []*side, descs []string) {
	public := rng.IntN(3) == 0
	var mu sync.Mutex
	servers := map[string]*side{}
	seen := func(ctx context.Context, method string) *side {
		s := &side{server: true, method: method, noLatency: true}
		if sp := trace.FromContext(ctx); r.Check(sp != nil, "no-span", "the server's context has no span") {
			s.sc = sp.SpanContext()
		}
		s.id, _ = tag.FromContext(ctx).Value(keyID)
		v, _ := tag.FromContext(ctx).Value(ocgrpc.KeyServerMethod)
		r.Check(v == strings.TrimLeft(method, "/"), "tags", "the server's context has method %q for %q", v, method)
		if _, ok := tag.FromContext(ctx).Value(keyLocal); ok {
			r.Violate("tags", "a local tag was propagated")
		}
		mu.Lock()
		defer mu.Unlock()
		r.Check(servers[s.id] == nil, "harness", "one RPC handled twice")
		servers[s.id] = s
		return s
	}
	unary := func(method string) grpc.MethodDesc {
		return grpc.MethodDesc{MethodName: method, Handler: func(_ any, ctx context.Context, dec func(any) error, _ grpc.UnaryServerInterceptor) (any, error) {
			t0 := time.Now()
			s := seen(ctx, "/t.S/"+method)
			var in []byte
			if err := dec(&in); err != nil {
				return nil, err
			}
			var sc script
			json.Unmarshal(in, &sc)
			s.recvN, s.recvB = 1, int64(len(in))
			s.inner = time.Since(t0)
			if sc.Code != 0 {
				s.err = status.Error(codes.Code(sc.Code), sc.Msg)
				return nil, s.err
			}
			b := make([]byte, sc.Reply[0])
			s.sentN, s.sentB = 1, int64(len(b))
			return &b, nil
		}}
	}
	stream := func(ss grpc.ServerStream, method string) (err error) {
		t0 := time.Now()
		s := seen(ss.Context(), method)
		defer func() { s.inner = time.Since(t0) }()
		recv := func() ([]byte, error) {
			var b []byte
			err := ss.RecvMsg(&b)
			if err == nil {
				s.recvN, s.recvB = s.recvN+1, s.recvB+int64(len(b))
			}
			return b, err
		}
		in, err := recv()
		if err != nil {
			s.inexact, s.anyErr = true, true
			s.err = err
			return err
		}
		var sc script
		json.Unmarshal(in, &sc)
		for _, k := range sc.Reply {
			if k < 0 {
				if _, err := recv(); err == io.EOF {
					continue
				} else if err != nil {
					s.inexact, s.anyErr, s.err = true, true, err
					return err
				}
				continue
			}
			b := make([]byte, k)
			if err := ss.SendMsg(&b); err != nil {
				s.inexact, s.anyErr, s.err = true, true, err
				s.sentN, s.sentB = s.sentN+1, s.sentB+int64(k)
				return err
			}
			s.sentN, s.sentB = s.sentN+1, s.sentB+int64(k)
		}
		if sc.Code != 0 {
			s.err = status.Error(codes.Code(sc.Code), sc.Msg)
			return s.err
		}
		return nil
	}
	srv := grpc.NewServer(grpc.StatsHandler(&ocgrpc.ServerHandler{IsPublicEndpoint: public, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}),
		grpc.UnknownServiceHandler(func(_ any, ss grpc.ServerStream) error {
			m, _ := grpc.MethodFromServerStream(ss)
			return stream(ss, m)
		}))
	srv.RegisterService(&grpc.ServiceDesc{ServiceName: "t.S", HandlerType: (*any)(nil), Methods: []grpc.MethodDesc{unary("U")},
		Streams: []grpc.StreamDesc{{StreamName: "B", ServerStreams: true, ClientStreams: true, Handler: func(_ any, ss grpc.ServerStream) error { return stream(ss, "/t.S/B") }}}}, struct{}{})
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Broken("listen: %v", err)
		return
	}
	go srv.Serve(lis)
	conn, err := grpc.Dial(lis.Addr().String(), grpc.WithInsecure(), grpc.WithBlock(), grpc.WithStatsHandler(&ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}))
	if err != nil {
		r.Broken("dial: %v", err)
		return
	}
	type call struct {
		s      *side
		sc     script
		sizes  []int
		method string
		unary  bool
		cancel bool
		ff     bool
	}
	var calls []*call
	for i := 0; i < n; i++ {
		c := &call{method: "/t.S/U", unary: rng.IntN(2) == 0}
		if !c.unary {
			c.method = []string{"/t.S/B", "/other/X", "/t.S/Unknown"}[rng.IntN(3)]
		}
		c.sc = script{ID: vm.Unique("n"), Reply: []int{rng.IntN(9000)}, Pad: strings.Repeat("p", rng.IntN(3000))}
		if rng.IntN(3) == 0 {
			c.sc.Code, c.sc.Msg = uint32(1+rng.IntN(16)), "because"
		}
		if !c.unary {
			c.sc.Reply = nil
			for k := rng.IntN(8); k > 0; k-- {
				if rng.IntN(2) == 0 {
					c.sizes = append(c.sizes, rng.IntN(3000))
					c.sc.Reply = append(c.sc.Reply, -1)
				} else {
					c.sc.Reply = append(c.sc.Reply, rng.IntN(3000))
				}
			}
			c.cancel = rng.IntN(6) == 0
		}
		c.ff = rng.IntN(2) == 0
		calls = append(calls, c)
	}
	var next atomic.Int64
	r.Par(8, func(int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= n {
				return
			}
			c := calls[i]
			s := &side{id: c.sc.ID, local: "l", method: c.method, sampled: true, failFast: c.ff}
			c.s = s
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			ctx, p := trace.StartSpan(ctx, "parent", trace.WithSampler(trace.AlwaysSample()))
			psc := p.SpanContext()
			s.parent = &psc
			ctx, _ = tag.New(ctx, tag.Insert(keyID, s.id), tag.Insert(keyLocal, "l", tag.WithTTL(tag.TTLNoPropagation)))
			first, _ := json.Marshal(c.sc)
			o := []grpc.CallOption{grpc.CallContentSubtype("raw"), grpc.WaitForReady(!c.ff)}
			t0 := time.Now()
			s.sentN, s.sentB = 1, int64(len(first))
			if c.unary {
				var reply []byte
				s.err = conn.Invoke(ctx, c.method, &first, &reply, o...)
				s.outer = time.Since(t0)
				if s.err == nil {
					s.recvN, s.recvB = 1, int64(len(reply))
					r.Check(len(reply) == c.sc.Reply[0], "response-body", "a reply of %d bytes has %d", c.sc.Reply[0], len(reply))
				}
			} else {
				cs, err := conn.NewStream(ctx, &grpc.StreamDesc{StreamName: "B", ServerStreams: true, ClientStreams: true}, c.method, o...)
				if err != nil {
					r.Broken("stream: %v", err)
					cancel()
					continue
				}
				send := func(b []byte) {
					if err := cs.SendMsg(&b); err != nil { // the server ended the stream first
						s.inexact, s.minSent, s.minRecv = true, 0, 0
					}
				}
				send(first)
				for _, k := range c.sizes {
					s.sentN, s.sentB = s.sentN+1, s.sentB+int64(k)
					send(bytes.Repeat([]byte("x"), k))
				}
				if c.cancel {
					s.inexact, s.anyErr = true, true
					cancel()
				}
				cs.CloseSend()
				for {
					var b []byte
					if s.err = cs.RecvMsg(&b); s.err != nil {
						break
					}
					s.recvN, s.recvB = s.recvN+1, s.recvB+int64(len(b))
				}
				s.outer = time.Since(t0)
				if s.err == io.EOF {
					s.err = nil
				}
			}
			cancel()
			p.End()
			r.Progress()
		}
	})
	conn.Close()
	done := make(chan bool)
	go func() { srv.GracefulStop(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Broken("the server does not stop")
	}
	clientSpans := map[trace.SpanID]*trace.SpanData{}
	sp.mu.Lock()
	for _, l := range sp.by {
		for _, d := range l {
			if d.SpanKind == trace.SpanKindClient {
				clientSpans[d.ParentSpanID] = d
			}
		}
	}
	sp.mu.Unlock()
	for _, c := range calls {
		desc := fmt.Sprintf("%s sending %v script %v code %d cancel %v", c.method, c.sizes, c.sc.Reply, c.sc.Code, c.cancel)
		d := clientSpans[c.s.parent.SpanID]
		if d == nil {
			r.Violate("span-count", "%s: no client span was exported", desc)
			continue
		}
		c.s.sc = d.SpanContext
		out, descs = append(out, c.s), append(descs, desc)
		s := servers[c.sc.ID]
		if s == nil {
			r.Count("rpcs_not_handled", 1)
			if !c.cancel {
				r.Violate("tags", "%s: the tags did not reach the server", desc)
			}
			continue
		}
		s.sampled, s.id = true, c.sc.ID
		sc := d.SpanContext
		if public {
			s.link = &sc
		} else {
			s.parent, s.remote = &sc, true
		}
		if c.cancel {
			s.inexact, s.anyErr = true, true
		}
		out, descs = append(out, s), append(descs, desc)
		r.Count("network_rpcs", 1)
	}
	return
}

func run(r *mon.Run) {
	encoding.RegisterCodec(codec{})
	rng := r.Rand("rpcs")
	for _, k := range []string{"measures_compared", "spans_compared", "exemplars", "direct_rpcs", "network_rpcs", "several_trace_contexts", "undecodable_tags", "active_spans_checked"} {
		r.Require(k, 1)
	}
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), MaxMessageEventsPerSpan: 1000})
	sp := &spans{}
	sp.reset()
	trace.RegisterExporter(sp)
	keys := []tag.Key{keyID, keyLocal, ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus, ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus}
	ts := [2]*hm.Totals{hm.NewTotals(r, keys, measures[0]...), hm.NewTotals(r, keys, measures[1]...)}
	for i, m := range []ostats.Measure{ocgrpc.ClientRoundtripLatency, ocgrpc.ServerLatency} {
		exemplars[i] = &view.View{Name: vm.Unique("ex"), Measure: m, Aggregation: view.Distribution(), TagKeys: []tag.Key{keyID}}
		view.Register(exemplars[i])
	}
	judge := func(ss []*side, descs []string) {
		t := [2]map[string]map[string][]hm.Total{ts[0].Take(keyID), ts[1].Take(keyID)}
		for i, s := range ss {
			s.judge(r, sp, t, descs[i])
			r.Eval(fmt.Sprint(descs[i], s.server, s.method, s.sentN, s.sentB, s.recvN, s.recvB, s.err, s.sampled, s.remote, s.link != nil))
		}
		sp.reset()
		for i := range exemplars {
			view.Unregister(exemplars[i])
			view.Register(exemplars[i])
		}
	}
	for c := 0; c < r.N(60, 20); c++ {
		r.Case("events %d", c)
		internal.LocalSpanStoreEnabled = c%2 == 1
		var ss []*side
		var ds []string
		for i := 0; i < 40; i++ {
			r.Do("handler", func() {
				ss = append(ss, direct(r, rng, sp))
				ds = append(ds, "events")
			})
		}
		r.Count("direct_rpcs", len(ss))
		judge(ss, ds)
	}
	for c := 0; c < r.N(12, 20); c++ {
		r.Case("network %d", c)
		ss, ds := network(r, rng, sp, 80)
		judge(ss, ds)
		if len(ds) > 0 {
			r.Sample(ds[0])
		}
	}
	// Events without TagRPC, as when another handler is installed too.
	r.Do("untagged events", func() {
		for _, h := range []stats.Handler{&ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}} {
			_, client := h.(*ocgrpc.ClientHandler)
			for _, e := range []stats.RPCStats{&stats.Begin{Client: client}, &stats.InPayload{Client: client}, &stats.OutPayload{Client: client}, &stats.End{Client: client, Error: errors.New("x")}} {
				h.HandleRPC(context.Background(), e)
			}
		}
	})
}
