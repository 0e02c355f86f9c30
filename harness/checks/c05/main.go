// Monitor for C05: the tracing configuration merges field by field, atomically.
package main

import (
	"context"
	"fmt"
	"sync/atomic"

	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	tm "go.opencensus.io/verifmon/tracemodel"
)

func main() { mon.Main("C05", run) }

type sink struct{ ch chan *trace.SpanData }

func (s *sink) ExportSpan(sd *trace.SpanData) { s.ch <- sd }

var out = &sink{ch: make(chan *trace.SpanData, 1024)}

type gen struct {
	tag byte
	n   *atomic.Uint32
}

func (g gen) NewTraceID() [16]byte {
	k := g.n.Add(1)
	return [16]byte{g.tag, byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k), 1}
}

func (g gen) NewSpanID() [8]byte {
	k := g.n.Add(1)
	return [8]byte{g.tag, byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k), 1}
}

// probe measures the configuration in force through one span: its caps by
// overflowing them, its generator by the IDs, its sampler by who is asked.
type probe struct {
	caps tm.Caps
	gen  byte
	smp  int64
}

// sampled carries the identity of the sampler consulted last by this goroutine's span.
func sampler(id int64, asked func(name string, id int64)) trace.Sampler {
	return func(p trace.SamplingParameters) trace.SamplingDecision {
		asked(p.Name, id)
		return trace.SamplingDecision{Sample: true}
	}
}

const over = 70

func fill(sp *trace.Span) {
	for i := 0; i < over; i++ {
		sp.AddAttributes(trace.Int64Attribute(fmt.Sprint(i), 1))
		sp.Annotate(nil, "x")
		sp.AddMessageSendEvent(1, 1, 1)
		sp.AddLink(trace.Link{})
	}
}

func measured(d *trace.SpanData) tm.Caps {
	return tm.Caps{Attr: len(d.Attributes), Ann: len(d.Annotations), Msg: len(d.MessageEvents), Link: len(d.Links)}
}

func run(r *mon.Run) {
	trace.RegisterExporter(out)
	defaults(r)
	sequential(r)
	disjoint(r)
	torn(r)
	r.Require("configs_applied", 500)
	r.Require("probes", 500)
}

func defaults(r *mon.Run) {
	_, sp := trace.StartSpan(context.Background(), "d", trace.WithSampler(trace.AlwaysSample()))
	for i := 0; i < 200; i++ {
		sp.AddAttributes(trace.Int64Attribute(fmt.Sprint(i), 1))
		sp.Annotate(nil, "x")
		sp.AddMessageSendEvent(1, 1, 1)
		sp.AddLink(trace.Link{})
	}
	sp.End()
	got := measured(<-out.ch)
	want := tm.Caps{Attr: 32, Ann: 32, Msg: 128, Link: 32}
	r.Check(want == tm.Caps{Attr: trace.DefaultMaxAttributesPerSpan, Ann: trace.DefaultMaxAnnotationEventsPerSpan, Msg: trace.DefaultMaxMessageEventsPerSpan, Link: trace.DefaultMaxLinksPerSpan}, "defaults", "the documented defaults differ from %+v", want)
	// The default sampler samples one trace in ten thousand, by trace ID.
	for _, b := range []byte{0, 0xff} {
		_, sp := trace.StartSpanWithRemoteParent(context.Background(), "d", trace.SpanContext{TraceID: trace.TraceID{b, b, b, b, 15: 1}, SpanID: trace.SpanID{1}})
		r.Check(sp.SpanContext().IsSampled() == (b == 0), "defaults", "the default sampler's decision about a trace ID of bytes %#x is %v", b, sp.SpanContext().IsSampled())
	}
	r.Check(got == want, "defaults", "initial caps %+v want %+v", got, want)
	r.Eval("defaults")
}

func sequential(r *mon.Run) {
	rng := r.Rand("seq")
	var last atomic.Int64
	asked := func(_ string, id int64) { last.Store(id) }
	// Start from a fully known configuration.
	model := probe{caps: tm.Caps{Attr: 5, Ann: 6, Msg: 7, Link: 8}, gen: 1, smp: 1}
	var n atomic.Uint32
	trace.ApplyConfig(trace.Config{DefaultSampler: sampler(1, asked), IDGenerator: gen{1, &n}, MaxAttributesPerSpan: 5, MaxAnnotationEventsPerSpan: 6, MaxMessageEventsPerSpan: 7, MaxLinksPerSpan: 8})
	for c := 0; c < r.N(400, 30); c++ {
		var cfg trace.Config
		set := ""
		val := func() int {
			switch rng.IntN(5) {
			case 0:
				return 0
			case 1:
				return -1 - rng.IntN(5)
			default:
				return 1 + rng.IntN(over-5)
			}
		}
		mid := rng.IntN(3) == 0
		var running *trace.Span
		before := model
		if mid {
			_, running = trace.StartSpan(context.Background(), "running")
		}
		for f := 0; f < 6; f++ {
			if rng.IntN(2) == 0 {
				continue
			}
			v := val()
			set += fmt.Sprintf(" f%d=%d", f, v)
			switch f {
			case 0:
				id := int64(c + 2)
				cfg.DefaultSampler, model.smp = sampler(id, asked), id
			case 1:
				tag := byte(2 + c%250)
				cfg.IDGenerator, model.gen = gen{tag, &n}, tag
			case 2:
				cfg.MaxAttributesPerSpan = v
				if v > 0 {
					model.caps.Attr = v
				}
			case 3:
				cfg.MaxAnnotationEventsPerSpan = v
				if v > 0 {
					model.caps.Ann = v
				}
			case 4:
				cfg.MaxMessageEventsPerSpan = v
				if v > 0 {
					model.caps.Msg = v
				}
			case 5:
				cfg.MaxLinksPerSpan = v
				if v > 0 {
					model.caps.Link = v
				}
			}
		}
		r.Case("sequential %d:%s", c, set)
		trace.ApplyConfig(cfg)
		r.Count("configs_applied", 1)
		if mid {
			fill(running)
			running.End()
			got := measured(<-out.ch)
			r.Check(got == before.caps, "running-span-affected", "applying%s changed the caps of a running span to %+v from %+v", set, got, before.caps)
		}
		_, sp := trace.StartSpan(context.Background(), "probe")
		fill(sp)
		sp.End()
		d := <-out.ch
		got := probe{measured(d), d.TraceID[0], last.Load()}
		// Spans with a parent obey the same limits.
		for kind := 0; kind < 2; kind++ {
			ctx, psp := trace.StartSpan(context.Background(), "parent", trace.WithSampler(trace.NeverSample()))
			opt := trace.WithSampler(trace.AlwaysSample())
			var sp *trace.Span
			if kind == 0 {
				_, sp = trace.StartSpan(ctx, "probe", opt)
			} else {
				_, sp = trace.StartSpanWithRemoteParent(context.Background(), "probe", psp.SpanContext(), opt)
			}
			fill(sp)
			sp.End()
			d := <-out.ch
			r.Check(measured(d) == model.caps, "merge", "after applying%s: a span with a parent has limits %+v want %+v", set, measured(d), model.caps)
			r.Check(d.SpanID[0] == model.gen, "merge", "after applying%s: the ID of a span with a parent comes from generator %d want %d", set, d.SpanID[0], model.gen)
			r.Count("child_probes", 1)
		}
		if d.SpanID[0] != d.TraceID[0] {
			r.Violate("generator-mixed", "trace and span IDs come from generators %d and %d", d.TraceID[0], d.SpanID[0])
		}
		r.Check(got == model, "merge", "after applying%s: in force %+v want %+v", set, got, model)
		r.Count("probes", 1)
		r.Eval(set)
		if c < 3 {
			r.Sample(map[string]string{"applied": set, "in_force": fmt.Sprintf("%+v", got)})
		}
	}
}

// disjoint: concurrent partial updates of different fields must all survive.
func disjoint(r *mon.Run) {
	rng := r.Rand("disjoint")
	for c := 0; c < r.N(80, 40); c++ {
		r.Case("disjoint %d", c)
		var lastSmp atomic.Int64
		asked := func(_ string, id int64) { lastSmp.Store(id) }
		var n atomic.Uint32
		var want probe
		vals := [4][]int{}
		for f := range vals {
			for k := 0; k < 6; k++ {
				vals[f] = append(vals[f], 1+rng.IntN(over-5))
			}
		}
		want.caps = tm.Caps{Attr: vals[0][5], Ann: vals[1][5], Msg: vals[2][5], Link: vals[3][5]}
		want.gen, want.smp = byte(1+c%200), int64(1000+c)
		var fs []func()
		for f := 0; f < 4; f++ {
			fs = append(fs, func() {
				for _, v := range vals[f] {
					switch f {
					case 0:
						trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: v})
					case 1:
						trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: v})
					case 2:
						trace.ApplyConfig(trace.Config{MaxMessageEventsPerSpan: v})
					case 3:
						trace.ApplyConfig(trace.Config{MaxLinksPerSpan: v})
					}
				}
			})
		}
		fs = append(fs, func() {
			for k := 5; k >= 0; k-- {
				tag := want.gen
				if k > 0 {
					tag = byte(200 + k)
				}
				trace.ApplyConfig(trace.Config{IDGenerator: gen{tag, &n}})
			}
		}, func() {
			for k := int64(5); k >= 0; k-- {
				trace.ApplyConfig(trace.Config{DefaultSampler: sampler(want.smp+k, asked)})
			}
		})
		r.Go(fs...)
		r.Count("configs_applied", 4*6+12)
		_, sp := trace.StartSpan(context.Background(), "probe")
		fill(sp)
		sp.End()
		d := <-out.ch
		got := probe{measured(d), d.TraceID[0], lastSmp.Load()}
		r.Check(got == want, "lost-update", "after concurrent disjoint updates: in force %+v want %+v", got, want)
		r.Count("probes", 1)
		r.Eval(fmt.Sprint("disjoint", vals))
	}
}

// torn: a span takes all its settings from one configuration.
func torn(r *mon.Run) {
	for c := 0; c < r.N(6, 40); c++ {
		r.Case("torn %d", c)
		var n atomic.Uint32
		stop := make(chan struct{})
		noask := func(string, int64) {}
		set := func(k int) {
			trace.ApplyConfig(trace.Config{DefaultSampler: sampler(int64(k), noask), IDGenerator: gen{byte(k), &n}, MaxAttributesPerSpan: k, MaxAnnotationEventsPerSpan: k, MaxMessageEventsPerSpan: k, MaxLinksPerSpan: k})
		}
		set(1)
		const probers, per = 3, 12
		done := make(chan struct{})
		go func() {
			defer close(done)
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
					set(1 + k%(over-5))
				}
			}
		}()
		r.Par(probers, func(w int) {
			for i := 0; i < per; i++ {
				_, sp := trace.StartSpan(context.Background(), "t")
				fill(sp)
				sp.End()
			}
		})
		close(stop)
		<-done
		for i := 0; i < probers*per; i++ {
			d := <-out.ch
			m := measured(d)
			k := int(d.TraceID[0])
			if m.Attr != k || m.Ann != k || m.Msg != k || m.Link != k || int(d.SpanID[0]) != k {
				r.Violate("torn-config", "one span mixes configurations: trace ID from %d, span ID from %d, caps %+v", k, d.SpanID[0], m)
			}
			r.Count("probes", 1)
		}
		r.Eval(fmt.Sprint("torn", c))
	}
}
