// Monitor for C04: sampling decisions.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sync"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C04", run) }

type sink struct {
	mu  sync.Mutex
	got map[trace.SpanID]int
}

func (s *sink) ExportSpan(sd *trace.SpanData) {
	s.mu.Lock()
	s.got[sd.SpanID]++
	s.mu.Unlock()
}

func (s *sink) has(id trace.SpanID) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.got[id]
}

func run(r *mon.Run) {
	s := &sink{got: map[trace.SpanID]int{}}
	trace.RegisterExporter(s)
	defaultProbability(r)
	consultation(r, s)
	probability(r)
	endToEnd(r)
	concurrent(r)
	r.Require("consulted", 500)
	r.Require("inherited", 500)
	r.Require("probability_decisions", 100000)
}

// logged is a sampler that decides as told and logs what it was asked.
type logged struct {
	decide bool
	asked  []trace.SamplingParameters
}

func (l *logged) sampler() trace.Sampler {
	return func(p trace.SamplingParameters) trace.SamplingDecision {
		l.asked = append(l.asked, p)
		return trace.SamplingDecision{Sample: l.decide}
	}
}

func randID(rng *rand.Rand) (t trace.TraceID, s trace.SpanID) {
	binary.LittleEndian.PutUint64(t[:8], rng.Uint64()|1)
	binary.LittleEndian.PutUint64(t[8:], rng.Uint64())
	binary.LittleEndian.PutUint64(s[:], rng.Uint64()|1)
	return
}

// consultation: who is asked, with what, and what becomes of the answer.
func consultation(r *mon.Run, s *sink) {
	rng := r.Rand("consult")
	type parent struct {
		ctx context.Context
		sp  *trace.Span
	}
	for c := 0; c < r.N(150, 40); c++ {
		r.Case("consultation %d", c)
		internal.LocalSpanStoreEnabled = rng.IntN(2) == 0
		def := &logged{}
		trace.ApplyConfig(trace.Config{DefaultSampler: def.sampler()})
		var ps []parent
		for i := 0; i < 25; i++ {
			def.decide = rng.IntN(2) == 0
			def.asked = nil
			opt := &logged{decide: rng.IntN(2) == 0}
			withOpt := rng.IntN(2) == 0
			var opts []trace.StartOption
			if withOpt {
				opts = append(opts, trace.WithSampler(opt.sampler()))
			}
			name := fmt.Sprint("s", rng.IntN(100))
			var pc trace.SpanContext
			var ctx context.Context
			var sp *trace.Span
			kind := rng.IntN(4)
			if kind >= 2 && len(ps) == 0 {
				kind = 0
			}
			switch kind {
			case 0:
				ctx, sp = trace.StartSpan(context.Background(), name, opts...)
			case 1:
				pc.TraceID, pc.SpanID = randID(rng)
				pc.TraceOptions = trace.TraceOptions(rng.IntN(2))
				if rng.IntN(3) == 0 {
					pc.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: name})
				}
				if rng.IntN(3) == 0 { // a parent given anew takes the place of the one in the context
					r.Count("remote_over_local", 1)
					ctx, _ = trace.StartSpan(context.Background(), "other", trace.WithSampler(trace.AlwaysSample()))
				} else {
					ctx = context.Background()
				}
				ctx, sp = trace.StartSpanWithRemoteParent(ctx, name, pc, opts...)
			default:
				p := ps[rng.IntN(len(ps))]
				pc = p.sp.SpanContext()
				ctx, sp = trace.StartSpan(p.ctx, name, opts...)
			}
			sc := sp.SpanContext()
			var want bool
			var asked, quiet *logged
			switch {
			case withOpt:
				asked, quiet, want = opt, def, opt.decide
			case kind >= 2:
				quiet, want = def, pc.IsSampled()
				r.Count("inherited", 1)
			default:
				asked, quiet, want = def, opt, def.decide
			}
			desc := fmt.Sprintf("kind %d option %v parent %+v", kind, withOpt, pc)
			if len(quiet.asked) != 0 {
				r.Violate("wrong-sampler-asked", "%s: a sampler that has no say was consulted %d times", desc, len(quiet.asked))
			}
			if asked != nil {
				r.Count("consulted", 1)
				if len(asked.asked) != 1 {
					r.Violate("sampler-consultations", "%s: the deciding sampler was consulted %d times", desc, len(asked.asked))
				} else {
					p := asked.asked[0]
					wp := trace.SamplingParameters{ParentContext: pc, TraceID: sc.TraceID, SpanID: sc.SpanID, Name: name, HasRemoteParent: kind == 1}
					pt, wt := p.ParentContext.Tracestate.Entries(), wp.ParentContext.Tracestate.Entries()
					p.ParentContext.Tracestate, wp.ParentContext.Tracestate = nil, nil
					r.Check(p == wp && slices.Equal(pt, wt), "sampler-parameters", "%s: asked with %+v, tracestate %v, want %+v, %v", desc, p, pt, wp, wt)
				}
			}
			r.Check(sc.IsSampled() == want, "decision-not-applied", "%s: sampled=%v want %v", desc, sc.IsSampled(), want)
			r.Check(sp.IsRecordingEvents() == (want || internal.LocalSpanStoreEnabled), "recording", "%s: recording=%v sampled=%v store=%v", desc, sp.IsRecordingEvents(), want, internal.LocalSpanStoreEnabled)
			sp.End()
			r.Check((s.has(sc.SpanID) == 1) == want, "export-vs-decision", "%s: exported %d times, sampled=%v", desc, s.has(sc.SpanID), want)
			if len(ps) < 8 {
				ps = append(ps, parent{ctx, sp})
			}
			r.Eval(fmt.Sprint(c, i, kind, withOpt, want, pc.TraceOptions))
		}
	}
	internal.LocalSpanStoreEnabled = false
}

func decide(s trace.Sampler, id trace.TraceID, parentSampled bool, span trace.SpanID, name string, remote bool) bool {
	p := trace.SamplingParameters{TraceID: id, SpanID: span, Name: name, HasRemoteParent: remote}
	if parentSampled {
		p.ParentContext = trace.SpanContext{TraceID: id, SpanID: trace.SpanID{1}, TraceOptions: 1}
	} else if remote {
		p.ParentContext = trace.SpanContext{TraceID: id, SpanID: trace.SpanID{1}, TraceOptions: 0}
	}
	return s(p).Sample
}

// probability: decisions of the probability sampler as a function of trace ID and fraction.
func probability(r *mon.Run) {
	rng := r.Rand("prob")
	fr := []float64{0, 1e-18, 1e-9, 1e-4, 0.001, 0.25, 1.0 / 3, 0.5, 0.75, 0.999, math.Nextafter(1, 0), 1}
	for i := 0; i < 20; i++ {
		fr = append(fr, rng.Float64())
	}
	// Edge arguments.
	for _, f := range []float64{0, -1, math.Inf(-1), math.NaN(), math.Copysign(0, -1), -1e-300} {
		s := trace.ProbabilitySampler(f)
		for i := 0; i < 200; i++ {
			id, sp := randID(rng)
			r.Check(!decide(s, id, false, sp, "x", false), "fraction-zero-samples", "ProbabilitySampler(%v) samples %v", f, id)
			r.Check(decide(s, id, true, sp, "x", true), "sampled-parent-dropped", "ProbabilitySampler(%v) drops the child of a sampled parent", f)
		}
		r.Check(!decide(s, trace.TraceID{}, false, trace.SpanID{}, "x", false), "fraction-zero-samples", "ProbabilitySampler(%v) samples the lowest trace ID", f)
		r.Eval(fmt.Sprint("edge", f))
	}
	for _, f := range []float64{1, 1.5, math.Inf(1), math.MaxFloat64} {
		s := trace.ProbabilitySampler(f)
		hi := trace.TraceID{}
		for i := range hi {
			hi[i] = 0xff
		}
		for i := 0; i < 200; i++ {
			id, sp := randID(rng)
			r.Check(decide(s, id, false, sp, "x", false), "fraction-one-drops", "ProbabilitySampler(%v) drops %v", f, id)
		}
		r.Check(decide(s, hi, false, trace.SpanID{}, "x", false), "fraction-one-drops", "ProbabilitySampler(%v) drops the highest trace ID", f)
		r.Eval(fmt.Sprint("edge", f))
	}
	const n = 20000
	for _, f := range fr {
		r.Case("fraction %v", f)
		s := trace.ProbabilitySampler(f)
		// Same trace, same decision, whatever else differs.
		for i := 0; i < 300; i++ {
			id, _ := randID(rng)
			_, sp1 := randID(rng)
			_, sp2 := randID(rng)
			a := decide(s, id, false, sp1, "a", false)
			b := decide(s, id, false, sp2, "bbb", true)
			c := decide(trace.ProbabilitySampler(f), id, false, sp2, "a", false)
			r.Check(a == b && a == c, "trace-inconsistent", "fraction %v: one trace %v gets decisions %v %v %v", f, id, a, b, c)
			r.Check(decide(s, id, true, sp1, "a", i%2 == 0), "sampled-parent-dropped", "fraction %v: child of a sampled parent dropped", f)
			r.Count("probability_decisions", 4)
		}
		// Nested: what a smaller fraction samples, a larger one samples.
		g := f + (1-f)*rng.Float64()
		s2 := trace.ProbabilitySampler(g)
		for i := 0; i < 500; i++ {
			id, sp := randID(rng)
			if decide(s, id, false, sp, "a", false) && !decide(s2, id, false, sp, "a", false) {
				r.Violate("not-nested", "trace %v sampled at %v but not at %v", id, f, g)
			}
			r.Count("probability_decisions", 2)
		}
		// Rate, over random trace IDs: at most 7 standard deviations off.
		hit := 0
		for i := 0; i < n; i++ {
			var id trace.TraceID
			binary.LittleEndian.PutUint64(id[:8], rng.Uint64())
			binary.LittleEndian.PutUint64(id[8:], rng.Uint64())
			if decide(s, id, false, trace.SpanID{1}, "a", false) {
				hit++
			}
		}
		r.Count("probability_decisions", n)
		sd := math.Sqrt(n * f * (1 - f))
		if d := math.Abs(float64(hit) - n*f); d > 7*sd+3 {
			r.Violate("rate", "fraction %v: %d of %d random traces sampled (%.1f standard deviations off)", f, hit, n, d/sd)
		}
		r.Eval(fmt.Sprint("fraction", f))
	}
	r.Sample(map[string]any{"fractions": len(fr), "random_ids_per_fraction": n})
}

// defaultProbability: without configuration about one root in 10,000 is sampled.
func defaultProbability(r *mon.Run) {
	r.Case("default sampler")
	n := 60000
	hit := 0
	for i := 0; i < n; i++ {
		_, sp := trace.StartSpan(context.Background(), "d")
		if sp.SpanContext().IsSampled() {
			hit++
		}
	}
	// Poisson(6): 60 has a probability below 1e-35.
	r.Check(hit < 60, "default-rate", "default configuration sampled %d of %d roots", hit, n)
	r.Count("probability_decisions", n)
	r.Eval("default")
}

// endToEnd: the rate for roots started through the API with generated IDs.
func endToEnd(r *mon.Run) {
	r.Case("end to end rate")
	for _, f := range []float64{0.1, 0.5, 0.9} {
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler(f)})
		n, hit := 8000, 0
		for i := 0; i < n; i++ {
			ctx, sp := trace.StartSpan(context.Background(), "e")
			sampled := sp.SpanContext().IsSampled()
			if sampled {
				hit++
			}
			for k := 0; k < 2; k++ {
				var c *trace.Span
				ctx, c = trace.StartSpan(ctx, "child")
				if c.SpanContext().IsSampled() != sampled {
					r.Violate("trace-inconsistent", "a local child differs from its root")
				}
			}
			// A remote hop: the other process decides with the same fraction.
			_, rs := trace.StartSpanWithRemoteParent(context.Background(), "remote", sp.SpanContext())
			if rs.SpanContext().IsSampled() != sampled {
				r.Violate("trace-inconsistent", "with one fraction everywhere a remote child (%v) differs from its parent (%v)", rs.SpanContext().IsSampled(), sampled)
			}
		}
		sd := math.Sqrt(float64(n) * f * (1 - f))
		d := math.Abs(float64(hit) - float64(n)*f)
		r.Check(d < 7*sd, "rate", "fraction %v: %d of %d roots sampled", f, hit, n)
		r.Count("probability_decisions", n)
		r.Eval(fmt.Sprint("e2e", f))
	}
}

// concurrent: samplers keep deciding consistently while used from many
// goroutines and while the default sampler is being replaced.
func concurrent(r *mon.Run) {
	r.Case("concurrent")
	half := trace.ProbabilitySampler(0.5)
	for c := 0; c < r.N(10, 30); c++ {
		ids := make([]trace.TraceID, 200)
		want := make([]bool, len(ids))
		rng := r.Rand(fmt.Sprint("conc", c))
		for i := range ids {
			ids[i], _ = randID(rng)
			want[i] = decide(half, ids[i], false, trace.SpanID{1}, "a", false)
		}
		fs := []func(){}
		for g := 0; g < 4; g++ {
			fs = append(fs, func() {
				for i := range ids {
					if decide(half, ids[i], false, trace.SpanID{byte(g)}, "a", false) != want[i] {
						r.Violate("trace-inconsistent", "concurrent decisions on one trace differ")
					}
					ctx, root := trace.StartSpan(context.Background(), "root")
					_, ch := trace.StartSpan(ctx, "child")
					if root.SpanContext().IsSampled() != ch.SpanContext().IsSampled() {
						r.Violate("trace-inconsistent", "local child differs from its root while the default sampler is replaced")
					}
				}
			})
		}
		fs = append(fs, func() {
			for i := 0; i < 100; i++ {
				trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
				trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
			}
		})
		r.Go(fs...)
		r.Count("probability_decisions", 800)
		r.Eval(fmt.Sprint("conc", c))
	}
}
