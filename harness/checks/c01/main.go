// Monitor for C01: every ended sampled span reaches every registered exporter
// exactly once, complete and immutable; nothing else is exported.
package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	tm "go.opencensus.io/verifmon/tracemodel"

	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C01", run) }

// rec is an exporter that logs what it is given.
type rec struct {
	mu    sync.Mutex
	name  string
	clock *atomic.Int64
	got   []delivery
}

type delivery struct {
	sd   *trace.SpanData
	snap trace.SpanData
	at   int64
}

func (e *rec) ExportSpan(sd *trace.SpanData) {
	var at int64
	if e.clock != nil {
		at = e.clock.Add(1)
	}
	d := delivery{sd: sd, snap: tm.Snapshot(sd), at: at}
	e.mu.Lock()
	e.got = append(e.got, d)
	e.mu.Unlock()
}

func run(r *mon.Run) {
	internal.LocalSpanStoreEnabled = r.Shard%2 == 1
	histories(r)
	concurrent(r)
	nested(r)
	internal.LocalSpanStoreEnabled = false
	r.Require("spans_exported", 500)
	r.Require("spans_not_exported", 100)
	r.Require("concurrent_ends", 500)
	r.Require("post_end_mutations", 100)
	r.Require("ends_in_exports", 100)
	r.Require("registrations_in_exports", 100)
}

// actor is an exporter that uses the API while it is called.
type actor struct {
	rec
	act func(sd *trace.SpanData)
}

func (e *actor) ExportSpan(sd *trace.SpanData) {
	e.rec.ExportSpan(sd)
	e.act(sd)
}

// silent ends a sampled span after the exporters were taken off, each of them
// once, however often it had been registered: none of them may get it.
func silent(r *mon.Run, es ...*rec) bool {
	n := make([]int, len(es))
	for i, e := range es {
		n[i] = len(e.got)
	}
	_, sp := trace.StartSpan(context.Background(), "after", trace.WithSampler(trace.AlwaysSample()))
	sp.End()
	for i, e := range es {
		if !r.Check(len(e.got) == n[i], "export-after-unregister", "exporter %s got a span ended after it was unregistered", e.name) {
			return false
		}
	}
	r.Count("exporters_silent_afterwards", len(es))
	return true
}

// nested ends spans and lets exporters come and go from within ExportSpan.
func nested(r *mon.Run) {
	rng := r.Rand("nested")
	for c := 0; c < r.N(60, 20); c++ {
		r.Case("nested %d", c)
		internal.LocalSpanStoreEnabled = c%4 == 3
		var clock int64
		tick := func() int64 { clock++; return clock }
		others := make([]*rec, 3)
		reg := make([]bool, 3)
		changed := make([]int64, 3) // when it was last registered or taken off
		for i := range others {
			others[i] = &rec{name: fmt.Sprint("b", i)}
		}
		toggle := func(i int) {
			if reg[i] {
				trace.UnregisterExporter(others[i])
			} else {
				trace.RegisterExporter(others[i])
			}
			reg[i] = !reg[i]
			changed[i] = tick()
		}
		times := func(e *rec, id trace.SpanID) (n int) {
			for _, d := range e.got {
				if d.snap.SpanID == id {
					n++
				}
			}
			return n
		}
		depth := 0
		var log []string
		a := &actor{}
		end := func(ctx context.Context) {
			sampled := rng.IntN(4) > 0
			s := trace.NeverSample()
			if sampled {
				s = trace.AlwaysSample()
			}
			_, sp := trace.StartSpan(ctx, "nested", trace.WithSampler(s))
			id := sp.SpanContext().SpanID
			was := append([]bool{}, reg...)
			at := tick()
			log = append(log, fmt.Sprintf("end %d", depth))
			depth++
			sp.End()
			depth--
			want := 0
			if sampled {
				want = 1
			}
			n := times(&a.rec, id)
			r.Check(n == want, "nested", "a span ended %d exports deep is exported %d times, want %d; %v", depth, n, want, log)
			for i, e := range others {
				n := times(e, id)
				if changed[i] > at {
					r.Check(n <= want, "nested", "a span ended %d exports deep is exported %d times to an exporter that came or went meanwhile; %v", depth, n, log)
				} else if !was[i] {
					r.Check(n == 0, "nested", "a span ended %d exports deep is exported %d times to an exporter not registered; %v", depth, n, log)
				} else {
					r.Check(n == want, "nested", "a span ended %d exports deep is exported %d times to a registered exporter, want %d; %v", depth, n, want, log)
				}
			}
			if depth > 0 {
				r.Count("ends_in_exports", 1)
			}
		}
		var within *trace.Span
		over := false
		a.act = func(sd *trace.SpanData) {
			if over {
				return
			}
			for k := rng.IntN(3); k > 0; k-- {
				switch rng.IntN(3) {
				case 0:
					toggle(rng.IntN(3))
					log = append(log, "toggle")
					r.Count("registrations_in_exports", 1)
				case 1:
					if depth < 4 {
						end(trace.NewContext(context.Background(), within))
					}
				case 2:
					within.AddAttributes(trace.BoolAttribute("x", true))
					trace.RegisterExporter(a) // again
				}
			}
		}
		r.Go(func() {
			trace.RegisterExporter(a)
			_, within = trace.StartSpan(context.Background(), "around", trace.WithSampler(trace.AlwaysSample()))
			for i := 0; i < 12; i++ {
				if rng.IntN(2) == 0 {
					toggle(rng.IntN(3))
				}
				end(context.Background())
				r.Progress()
			}
			// The span it all happened in; its exports are nested in nothing.
			within.End()
			within.End()
			r.Check(times(&a.rec, within.SpanContext().SpanID) == 1, "nested", "the span around is exported %d times", times(&a.rec, within.SpanContext().SpanID))
		})
		for _, e := range others {
			trace.UnregisterExporter(e)
		}
		trace.UnregisterExporter(a)
		over = true
		if !silent(r, append(others, &a.rec)...) {
			return
		}
		for _, e := range append(others, &a.rec) {
			for i := range e.got {
				r.Check(tm.Same(e.got[i].sd, &e.got[i].snap), "exported-data-mutated", "nested: exported data changed after export")
			}
		}
		r.Eval(fmt.Sprint("nested", log))
	}
}

// histories drives random sequential histories against the model.
func histories(r *mon.Run) {
	rng := r.Rand("hist")
	for c := 0; c < r.N(250, 40); c++ {
		r.Case("history %d", c)
		internal.LocalSpanStoreEnabled = (r.Shard+c)%2 == 1
		n := 1 + rng.IntN(4)
		if rng.IntN(6) == 0 {
			n = 1 + rng.IntN(30)
		}
		exps := make([]*rec, n)
		reg := map[int]bool{}
		for i := range exps {
			exps[i] = &rec{name: fmt.Sprint("e", i)}
		}
		type live struct {
			sp      *trace.Span
			ctx     context.Context
			m       *tm.Span
			sampled bool
			ended   bool
		}
		type want struct {
			id trace.SpanID
			m  *tm.Span
		}
		wants := make([][]want, len(exps))
		var spans []*live
		var log []string
		ops := 20 + rng.IntN(60)
		for e := rng.IntN(n + 1); n > 4 && e > 0; e-- {
			trace.RegisterExporter(exps[e-1])
			reg[e-1] = true
			log = append(log, fmt.Sprint("reg", e-1))
		}
		for i := 0; i < ops; i++ {
			switch k := rng.IntN(12); {
			case k == 0:
				e := rng.IntN(len(exps))
				trace.RegisterExporter(exps[e])
				reg[e] = true
				log = append(log, fmt.Sprint("reg", e))
			case k == 1 && rng.IntN(2) == 0:
				e := rng.IntN(len(exps))
				trace.UnregisterExporter(exps[e])
				delete(reg, e)
				log = append(log, fmt.Sprint("unreg", e))
			case k <= 3 || len(spans) == 0:
				l := &live{sampled: rng.IntN(3) > 0}
				s := trace.NeverSample()
				if l.sampled {
					s = trace.AlwaysSample()
				}
				kind := rng.IntN(3)
				opts := []trace.StartOption{trace.WithSampler(s), trace.WithSpanKind(kind)}
				name := fmt.Sprintf("span-%d", rng.IntN(5))
				ctx := context.Background()
				var parent *live
				mode := rng.IntN(3)
				if mode == 1 && len(spans) > 0 {
					parent = spans[rng.IntN(len(spans))]
					ctx = parent.ctx
				}
				var remote trace.SpanContext
				if mode == 2 {
					for i := range remote.TraceID {
						remote.TraceID[i] = byte(1 + rng.IntN(255))
					}
					for i := range remote.SpanID {
						remote.SpanID[i] = byte(1 + rng.IntN(255))
					}
					l.ctx, l.sp = trace.StartSpanWithRemoteParent(ctx, name, remote, opts...)
				} else {
					l.ctx, l.sp = trace.StartSpan(ctx, name, opts...)
				}
				recording := l.sampled || internal.LocalSpanStoreEnabled
				r.Check(l.sp.IsRecordingEvents() == recording, "recording", "IsRecordingEvents=%v want %v", l.sp.IsRecordingEvents(), recording)
				l.m = &tm.Span{Caps: tm.DefaultCaps, Name: name, Kind: kind, SC: l.sp.SpanContext()}
				if parent != nil {
					l.m.Parent = parent.sp.SpanContext().SpanID
					if !parent.ended {
						parent.m.Children++
					}
				}
				if mode == 2 {
					l.m.Parent, l.m.Remote = remote.SpanID, true
				}
				spans = append(spans, l)
				log = append(log, fmt.Sprintf("start%d(sampled=%v,mode=%d)", len(spans)-1, l.sampled, mode))
			case k <= 8:
				n := rng.IntN(len(spans))
				l := spans[n]
				m := l.m
				if l.ended {
					m = nil // must change nothing any more
					r.Count("post_end_mutations", 1)
				}
				log = append(log, fmt.Sprintf("%s%d", tm.Mutate(rng, l.sp, m, 12), n))
			default:
				n := rng.IntN(len(spans))
				l := spans[n]
				l.sp.End()
				log = append(log, fmt.Sprint("end", n))
				if l.ended {
					break
				}
				l.ended = true
				if l.sampled && len(reg) > 0 {
					for e := range reg {
						wants[e] = append(wants[e], want{l.sp.SpanContext().SpanID, l.m.Clone()})
					}
					r.Count("spans_exported", 1)
				} else {
					r.Count("spans_not_exported", 1)
				}
			}
		}
		for _, x := range exps {
			trace.UnregisterExporter(x)
		}
		if !silent(r, exps...) {
			return
		}
		for e, x := range exps {
			for i, g := range x.got {
				if i >= len(wants[e]) {
					r.Violate("extra-export", "exporter %d received %d spans, want %d; extra %v; history %v", e, len(x.got), len(wants[e]), g.snap.SpanContext, log)
					break
				}
				w := wants[e][i]
				if g.snap.SpanContext.SpanID != w.id {
					r.Violate("export-order-or-identity", "exporter %d delivery %d: span %v want %v; history %v", e, i, g.snap.SpanContext.SpanID, w.id, log)
					break
				}
				if d := w.m.Diff(&g.snap); d != "" {
					r.Violate("export-content", "exporter %d delivery %d: %s; history %v", e, i, d, log)
				}
				r.Check(!g.snap.EndTime.Before(g.snap.StartTime), "end-before-start", "end %v before start %v", g.snap.EndTime, g.snap.StartTime)
				r.Check(tm.Same(g.sd, &g.snap), "exported-data-mutated", "data changed after export: %+v -> %+v; history %v", g.snap, *g.sd, log)
			}
			if len(x.got) < len(wants[e]) {
				r.Violate("missing-export", "exporter %d received %d spans, want %d; history %v", e, len(x.got), len(wants[e]), log)
			}
		}
		r.Eval(fmt.Sprint(log))
		if c < 1 {
			r.Sample(log)
		}
	}
}

// concurrent ends the same spans from many goroutines while exporters come and
// go and while other goroutines keep mutating the spans.
func concurrent(r *mon.Run) {
	rng := r.Rand("conc")
	for c := 0; c < r.N(25, 30); c++ {
		r.Case("concurrent %d", c)
		internal.LocalSpanStoreEnabled = c%3 == 2
		var clock atomic.Int64
		always := []*rec{{name: "a0", clock: &clock}, {name: "a1", clock: &clock}}
		for _, e := range always {
			trace.RegisterExporter(e)
		}
		churn := []*rec{{name: "c0", clock: &clock}, {name: "c1", clock: &clock}, {name: "c2", clock: &clock}}
		type window struct{ regRet, unregCall, unregRet int64 }
		windows := make([][]window, len(churn))

		nspans := 12 + rng.IntN(20)
		type st struct {
			sp             *trace.Span
			ctx            context.Context
			sampled        bool
			endCall        atomic.Int64 // earliest call of End
			endRet         atomic.Int64 // earliest return of End
			before         [4]atomic.Int64
			children       atomic.Int64
			attempts       [4]atomic.Int64
			allChildStarts atomic.Int64
		}
		sps := make([]*st, nspans)
		for i := range sps {
			s := &st{sampled: i%5 != 0}
			sm := trace.NeverSample()
			if s.sampled {
				sm = trace.AlwaysSample()
			}
			s.ctx, s.sp = trace.StartSpan(context.Background(), fmt.Sprint("conc", i%3), trace.WithSampler(sm))
			sps[i] = s
		}
		enders := 2 + rng.IntN(4)
		var fs []func()
		min := func(a *atomic.Int64, v int64) {
			for {
				o := a.Load()
				if o != 0 && o <= v || a.CompareAndSwap(o, v) {
					return
				}
			}
		}
		for g := 0; g < enders; g++ {
			fs = append(fs, func() {
				for i := range sps {
					s := sps[i]
					t := clock.Add(1)
					min(&s.endCall, t)
					s.sp.End()
					min(&s.endRet, clock.Add(1))
					r.Progress()
				}
			})
		}
		// Mutators: each goroutine adds uniquely numbered annotations; those
		// completed before the first End call must all be exported, in order.
		const perMut = 6
		type mut struct {
			id       string
			call, rt int64
		}
		muts := make([][][]mut, 3)
		for g := range muts {
			muts[g] = make([][]mut, nspans)
			fs = append(fs, func() {
				for k := 0; k < perMut; k++ {
					for i, s := range sps {
						id := fmt.Sprintf("%d/%d/%d", g, i, k)
						call := clock.Add(1)
						s.sp.Annotate(nil, id)
						muts[g][i] = append(muts[g][i], mut{id, call, clock.Add(1)})
						s.sp.AddAttributes(trace.Int64Attribute(fmt.Sprint("g", g), int64(k)))
					}
				}
			})
		}
		for e := range churn {
			fs = append(fs, func() {
				for k := 0; k < 8; k++ {
					var w window
					trace.RegisterExporter(churn[e])
					w.regRet = clock.Add(1)
					for y := 0; y < 20; y++ {
						clock.Add(1)
					}
					w.unregCall = clock.Add(1)
					trace.UnregisterExporter(churn[e])
					w.unregRet = clock.Add(1)
					windows[e] = append(windows[e], w)
				}
			})
		}
		r.Go(fs...)
		for _, e := range always {
			trace.UnregisterExporter(e)
		}
		idx := map[trace.SpanID]int{}
		for i, s := range sps {
			idx[s.sp.SpanContext().SpanID] = i
		}
		for _, e := range append(append([]*rec{}, always...), churn...) {
			seen := make([]int, nspans)
			at := make([]*delivery, nspans)
			for k := range e.got {
				g := &e.got[k]
				i, ok := idx[g.snap.SpanContext.SpanID]
				if !ok {
					r.Violate("unknown-export", "exporter %s got unknown span %v", e.name, g.snap.SpanContext)
					continue
				}
				seen[i]++
				at[i] = g
				r.Check(tm.Same(g.sd, &g.snap), "exported-data-mutated", "concurrent: exporter %s span %d changed after export", e.name, i)
			}
			for i, s := range sps {
				if seen[i] > 1 {
					r.Violate("duplicate-export", "exporter %s received span %d %d times", e.name, i, seen[i])
				}
				if !s.sampled && seen[i] > 0 {
					r.Violate("unsampled-exported", "exporter %s received unsampled span %d", e.name, i)
				}
				if e.name[0] == 'a' && s.sampled && seen[i] != 1 {
					r.Violate("missing-export", "always-registered exporter %s received sampled span %d %d times", e.name, i, seen[i])
				}
			}
			// An exporter that comes and goes: the ended-in-window obligations.
			if e.name[0] == 'c' {
				ws := windows[e.name[1]-'0']
				for i, s := range sps {
					if !s.sampled {
						continue
					}
					ec, er := s.endCall.Load(), s.endRet.Load()
					for _, w := range ws {
						// The first End call to return is not necessarily the one that
						// exported, but End calls block until the export is over.
						if w.regRet < ec && er < w.unregCall && seen[i] != 1 {
							r.Violate("missing-export-in-window", "exporter %s registered during all of End of span %d (window %v, end %d..%d) got it %d times", e.name, i, w, ec, er, seen[i])
						}
					}
					// Ended while certainly not registered.
					out := true
					prev := int64(0)
					for _, w := range ws {
						_ = prev
						if !(er < w.regRet || ec > w.unregRet) {
							out = false
						}
						prev = w.unregRet
					}
					// Registration takes effect somewhere before regRet, so only ends
					// after the last unregistration are certainly outside.
					if out && len(ws) > 0 && ec > ws[len(ws)-1].unregRet && seen[i] > 0 {
						r.Violate("export-after-unregister", "exporter %s received span %d ended after it was unregistered", e.name, i)
					}
				}
			}
			if e.name[0] == 'a' {
				for i, s := range sps {
					if at[i] == nil {
						continue
					}
					pos := map[string]int{}
					for k, a := range at[i].snap.Annotations {
						if _, dup := pos[a.Message]; dup {
							r.Violate("duplicate-annotation", "span %d has annotation %s twice", i, a.Message)
						}
						pos[a.Message] = k
					}
					for g := range muts {
						lastPos, missing := -1, ""
						for _, m := range muts[g][i] {
							p, in := pos[m.id]
							if !in && m.rt < s.endCall.Load() {
								r.Violate("lost-annotation", "span %d: annotation %s returned at %d before End was called at %d but was not exported", i, m.id, m.rt, s.endCall.Load())
							}
							if in && m.call > at[i].at {
								r.Violate("late-annotation", "span %d: annotation %s made after export appears in it", i, m.id)
							}
							if in {
								if p < lastPos || missing != "" {
									r.Violate("annotation-order", "span %d: annotation %s out of order (after missing %q)", i, m.id, missing)
								}
								lastPos = p
							} else {
								missing = m.id
							}
						}
					}
				}
			}
		}
		r.Count("concurrent_ends", nspans*enders)
		r.Count("spans_exported", len(always[0].got))
		r.Eval(fmt.Sprintf("conc %d %d %d %d", nspans, enders, len(churn[0].got), len(churn[1].got)))
	}
}
