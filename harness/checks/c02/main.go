// Monitor for C02: a span's collections are bounded by the configured caps,
// keep the most recent entries, count exactly what was dropped, and are not
// altered by being observed.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	tm "go.opencensus.io/verifmon/tracemodel"
)

func main() { mon.Main("C02", run) }

type sink struct {
	mu  sync.Mutex
	got []*trace.SpanData
}

func (s *sink) ExportSpan(sd *trace.SpanData) {
	s.mu.Lock()
	s.got = append(s.got, sd)
	s.mu.Unlock()
}

func (s *sink) take() []*trace.SpanData {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	return g
}

type reporter interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
}

// start starts a span of any descent: a root, a child or one under a remote
// parent; and, if the local span store records it anyway, an unsampled one.
func start(r *mon.Run, rng *rand.Rand, caps tm.Caps, name string) (context.Context, *trace.Span, *tm.Span) {
	m := &tm.Span{Caps: caps, Name: name, Kind: rng.IntN(3)}
	smp := trace.AlwaysSample()
	if internal.LocalSpanStoreEnabled && rng.IntN(3) == 0 {
		smp = trace.NeverSample()
		r.Count("unsampled", 1)
	}
	opts := []trace.StartOption{trace.WithSampler(smp), trace.WithSpanKind(m.Kind)}
	ctx := context.Background()
	var sp *trace.Span
	switch rng.IntN(3) {
	case 0:
		ctx, sp = trace.StartSpan(ctx, name, opts...)
	case 1:
		pctx, p := trace.StartSpan(ctx, "parent", trace.WithSampler(smp))
		m.Parent = p.SpanContext().SpanID
		if rng.IntN(2) == 0 {
			opts = opts[1:] // inherits the decision
		}
		ctx, sp = trace.StartSpan(pctx, name, opts...)
		r.Count("children", 1)
	default:
		var pc trace.SpanContext
		pc.TraceID[rng.IntN(16)], pc.SpanID[rng.IntN(8)], pc.TraceOptions = 1, 1, trace.TraceOptions(rng.IntN(2))
		m.Parent, m.Remote = pc.SpanID, true
		ctx, sp = trace.StartSpanWithRemoteParent(ctx, name, pc, opts...)
		r.Count("remote", 1)
	}
	m.SC = sp.SpanContext()
	return ctx, sp, m
}

func run(r *mon.Run) {
	var s sink
	trace.RegisterExporter(&s)
	sequential(r, &s)
	concurrent(r, &s)
	r.Require("attributes_dropped", 200)
	r.Require("annotations_dropped", 200)
	r.Require("messages_dropped", 200)
	r.Require("links_dropped", 200)
	r.Require("observations", 200)
	r.Require("unsampled", 20)
	r.Require("children", 20)
	r.Require("remote", 20)
}

func randCap(rng *rand.Rand) int {
	switch rng.IntN(4) {
	case 0:
		return 1
	case 1:
		return 2
	default:
		return 1 + rng.IntN(40)
	}
}

func apply(c tm.Caps) {
	trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: c.Attr, MaxAnnotationEventsPerSpan: c.Ann, MaxMessageEventsPerSpan: c.Msg, MaxLinksPerSpan: c.Link})
}

func sequential(r *mon.Run, s *sink) {
	rng := r.Rand("seq")
	rep := internal.Trace.(reporter)
	for c := 0; c < r.N(400, 60); c++ {
		caps := tm.Caps{Attr: randCap(rng), Ann: randCap(rng), Msg: randCap(rng), Link: randCap(rng)}
		if c == 0 {
			caps = tm.DefaultCaps
		} else {
			apply(caps)
		}
		r.Case("sequential %d caps %+v", c, caps)
		internal.LocalSpanStoreEnabled = rng.IntN(2) == 0
		store := internal.LocalSpanStoreEnabled
		name := fmt.Sprintf("c02-%d-%d", r.Shard, c)
		_, sp, m := start(r, rng, caps, name)
		if rng.IntN(3) == 0 { // a later configuration must not touch a running span
			apply(tm.Caps{Attr: 3, Ann: 3, Msg: 3, Link: 3})
		}
		keys := 1 + rng.IntN(2*caps.Attr+3)
		var log []string
		for i := 20 + rng.IntN(200); i > 0; i-- {
			log = append(log, tm.Mutate(rng, sp, m, keys))
			if store && rng.IntN(12) == 0 {
				log = append(log, "observe")
				r.Count("observations", 1)
				var act []*trace.SpanData
				for _, d := range rep.ReportActiveSpans(name) {
					if d.SpanContext.SpanID == m.SC.SpanID {
						act = append(act, d)
					}
				}
				if len(act) != 1 {
					r.Violate("active-missing", "span reported active %d times", len(act))
				} else if d := m.Diff(act[0]); d != "" {
					r.Violate("observed-content", "observing the running span: %s; caps %+v; ops %v", d, caps, log)
				}
			}
		}
		sp.End()
		got := s.take()
		if sampled := m.SC.IsSampled(); len(got) != map[bool]int{true: 1}[sampled] {
			r.Violate("export-count", "exported %d times (sampled: %v)", len(got), sampled)
			continue
		}
		if store { // the first span of its name is kept, sampled or not
			var kept []*trace.SpanData
			if m.Status.Code == 0 {
				kept = rep.ReportSpansByLatency(name, 0, 0)
			} else {
				kept = rep.ReportSpansByError(name, m.Status.Code)
			}
			if len(kept) != 1 {
				r.Violate("store-count", "kept %d times", len(kept))
				continue
			}
			got = append(got, kept[0])
		}
		for _, g := range got {
			d := m.Diff(g)
			if d == "" {
				continue
			}
			sig := "final-content"
			for _, l := range log {
				if l == "observe" {
					sig = "final-content-after-observation"
				}
			}
			r.Violate(sig, "%s; caps %+v; ops %s", d, caps, strings.Join(log, " "))
		}
		r.Count("attributes_dropped", m.DropAttr)
		r.Count("annotations_dropped", m.DropAnn)
		r.Count("messages_dropped", m.DropMsg)
		r.Count("links_dropped", m.DropLink)
		key := ""
		if m.DropAttr+m.DropAnn+m.DropMsg+m.DropLink > 0 {
			key = fmt.Sprint(caps, log)
		}
		r.Eval(key)
		if c == 1 {
			r.Sample(map[string]any{"caps": caps, "ops": len(log), "dropped_attributes": m.DropAttr, "dropped_annotations": m.DropAnn})
		}
	}
}

// concurrent: many goroutines add uniquely identified entries to one span; in
// whatever order they are taken, exactly the last cap of them are kept, so each
// goroutine's kept entries are a suffix of what it added.
func concurrent(r *mon.Run, s *sink) {
	rng := r.Rand("conc")
	rep := internal.Trace.(reporter)
	for c := 0; c < r.N(30, 40); c++ {
		caps := tm.Caps{Attr: randCap(rng), Ann: randCap(rng), Msg: randCap(rng), Link: randCap(rng)}
		apply(caps)
		internal.LocalSpanStoreEnabled = c%2 == 0
		r.Case("concurrent %d caps %+v", c, caps)
		name := fmt.Sprintf("c02c-%d-%d", r.Shard, c)
		_, sp, m := start(r, rng, caps, name)
		g := 2 + rng.IntN(5)
		per := 5 + rng.IntN(20)
		check := func(d *trace.SpanData, final bool) {
			n := func(kind string, kept, dropped, limit int) {
				if kept > limit {
					r.Violate("cap-exceeded", "%s: %d kept, cap %d", kind, kept, limit)
				}
				if dropped > 0 && kept != limit {
					r.Violate("dropped-below-cap", "%s: %d kept of cap %d but %d dropped", kind, kept, limit, dropped)
				}
				if final && kept+dropped != g*per {
					r.Violate("kept-plus-dropped", "%s: kept %d + dropped %d != added %d", kind, kept, dropped, g*per)
				}
			}
			n("attributes", len(d.Attributes), d.DroppedAttributeCount, caps.Attr)
			n("annotations", len(d.Annotations), d.DroppedAnnotationCount, caps.Ann)
			n("messages", len(d.MessageEvents), d.DroppedMessageEventCount, caps.Msg)
			n("links", len(d.Links), d.DroppedLinkCount, caps.Link)
			if !final {
				return
			}
			suffix := func(kind string, idx [][]int) {
				for i, l := range idx {
					for k := range l {
						if l[k] != per-len(l)+k {
							r.Violate("not-most-recent", "%s of goroutine %d: kept %v of 0..%d", kind, i, l, per-1)
							return
						}
					}
				}
			}
			col := func() [][]int { return make([][]int, g) }
			a, m, l := col(), col(), col()
			for _, x := range d.Annotations {
				var i, k int
				fmt.Sscanf(x.Message, "%d/%d", &i, &k)
				a[i] = append(a[i], k)
			}
			for _, x := range d.MessageEvents {
				m[x.MessageID>>32] = append(m[x.MessageID>>32], int(x.MessageID&0xffff))
			}
			for _, x := range d.Links {
				l[x.TraceID[0]] = append(l[x.TraceID[0]], int(x.TraceID[1]))
			}
			at := col()
			for i := 0; i < g; i++ {
				for k := 0; k < per; k++ {
					if v, ok := d.Attributes[fmt.Sprintf("%d/%d", i, k)]; ok {
						if v != int64(k) {
							r.Violate("attribute-value", "attribute %d/%d has value %v", i, k, v)
						}
						at[i] = append(at[i], k)
					}
				}
			}
			suffix("annotations", a)
			suffix("message events", m)
			suffix("links", l)
			suffix("attributes", at)
		}
		var fs []func()
		for i := 0; i < g; i++ {
			fs = append(fs, func() {
				for k := 0; k < per; k++ {
					id := fmt.Sprintf("%d/%d", i, k)
					sp.Annotate(nil, id)
					sp.AddAttributes(trace.Int64Attribute(id, int64(k)))
					if k%2 == 0 {
						sp.AddMessageSendEvent(int64(i)<<32|int64(k), 1, 1)
					} else {
						sp.AddMessageReceiveEvent(int64(i)<<32|int64(k), 1, 1)
					}
					sp.AddLink(trace.Link{TraceID: trace.TraceID{byte(i), byte(k)}})
				}
			})
		}
		if internal.LocalSpanStoreEnabled {
			fs = append(fs, func() {
				for k := 0; k < 10; k++ {
					for _, d := range rep.ReportActiveSpans(name) {
						check(d, false)
						r.Count("observations", 1)
					}
				}
			})
		}
		r.Go(fs...)
		sp.End()
		got := s.take()
		if !m.SC.IsSampled() {
			got = append(rep.ReportSpansByLatency(name, 0, 0), got...)
		}
		if len(got) != 1 {
			r.Violate("export-count", "exported or kept %d times", len(got))
			continue
		}
		check(got[0], true)
		r.Eval(fmt.Sprintf("conc %v %d %d", caps, g, per))
	}
}
