// Monitor for C03: span identity and parentage.
package main

import (
	"context"
	"fmt"
	"sync"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C03", run) }

type sink struct {
	mu  sync.Mutex
	got map[trace.SpanID]*trace.SpanData
	dup int
}

func (s *sink) ExportSpan(sd *trace.SpanData) {
	s.mu.Lock()
	if s.got[sd.SpanID] != nil {
		s.dup++
	}
	s.got[sd.SpanID] = sd
	s.mu.Unlock()
}

type node struct {
	ctx      context.Context
	sp       *trace.Span
	parent   trace.SpanContext // zero for a root
	remote   bool
	sampled  bool
	children int
}

func run(r *mon.Run) {
	s := &sink{got: map[trace.SpanID]*trace.SpanData{}}
	trace.RegisterExporter(s)
	forests(r, s)
	unique(r)
	generator(r)
	r.Require("roots", 200)
	r.Require("local_children", 200)
	r.Require("remote_children", 200)
	r.Require("ids_generated", 10000)
}

func forests(r *mon.Run, s *sink) {
	rng := r.Rand("forest")
	var zeroT trace.TraceID
	var zeroS trace.SpanID
	for c := 0; c < r.N(120, 40); c++ {
		r.Case("forest %d", c)
		internal.LocalSpanStoreEnabled = rng.IntN(2) == 0
		s.mu.Lock()
		s.got = map[trace.SpanID]*trace.SpanData{}
		s.mu.Unlock()
		workers := 1 + rng.IntN(4)
		all := make([][]*node, workers)
		seeds := make([]uint64, workers)
		for i := range seeds {
			seeds[i] = rng.Uint64()
		}
		shape := make([]string, workers)
		// Workers build separate forests concurrently but share one root.
		rootCtx, root := trace.StartSpan(context.Background(), "shared", trace.WithSampler(trace.AlwaysSample()))
		shared := make([]int, workers)
		r.Par(workers, func(w int) {
			rng := r.Rand(fmt.Sprintf("forest-%d-%d", c, w))
			var ns []*node
			for i := 0; i < 20; i++ {
				n := &node{sampled: rng.IntN(4) > 0}
				smp := trace.NeverSample()
				if n.sampled {
					smp = trace.AlwaysSample()
				}
				base := context.Background()
				name := fmt.Sprint("n", rng.IntN(4))
				switch mode := rng.IntN(6); {
				case mode == 0: // root
					n.ctx, n.sp = trace.StartSpan(base, name, trace.WithSampler(smp))
					r.Count("roots", 1)
					shape[w] += "r"
				case mode == 1: // empty remote parent: a new trace
					if len(ns) > 0 {
						base = ns[rng.IntN(len(ns))].ctx // must be ignored
					}
					n.remote = true
					n.ctx, n.sp = trace.StartSpanWithRemoteParent(base, name, trace.SpanContext{}, trace.WithSampler(smp))
					r.Count("roots", 1)
					shape[w] += "e"
				case mode == 2: // remote parent
					if len(ns) > 0 {
						base = ns[rng.IntN(len(ns))].ctx // must be ignored
					}
					var p trace.SpanContext
					for i := range p.TraceID {
						p.TraceID[i] = byte(rng.Uint32())
					}
					p.TraceID[3] |= 1
					for i := range p.SpanID {
						p.SpanID[i] = byte(rng.Uint32())
					}
					p.SpanID[2] |= 1
					p.TraceOptions = trace.TraceOptions(rng.Uint32())
					if rng.IntN(2) == 0 {
						p.Tracestate, _ = tracestate.New(nil, tracestate.Entry{Key: "k", Value: fmt.Sprint(rng.IntN(9))})
					}
					n.parent, n.remote = p, true
					n.ctx, n.sp = trace.StartSpanWithRemoteParent(base, name, p, trace.WithSampler(smp))
					r.Count("remote_children", 1)
					shape[w] += "R"
				case mode == 3 || len(ns) == 0: // child of the shared root
					n.parent = root.SpanContext()
					n.ctx, n.sp = trace.StartSpan(rootCtx, name, trace.WithSampler(smp))
					shared[w]++
					r.Count("local_children", 1)
					shape[w] += "s"
				default:
					p := ns[rng.IntN(len(ns))]
					n.parent = p.sp.SpanContext()
					if rng.IntN(3) == 0 { // inherit the decision
						n.sampled = p.sampled
						n.ctx, n.sp = trace.StartSpan(p.ctx, name)
					} else {
						n.ctx, n.sp = trace.StartSpan(p.ctx, name, trace.WithSampler(smp))
					}
					p.children++
					r.Count("local_children", 1)
					shape[w] += fmt.Sprintf("c%d", p.children)
				}
				if trace.FromContext(n.ctx) != n.sp {
					r.Violate("context-span", "the returned context does not carry the returned span")
				}
				ns = append(ns, n)
			}
			for _, n := range ns {
				n.sp.End()
			}
			all[w] = ns
		})
		root.End()
		seen := map[trace.SpanID]bool{root.SpanContext().SpanID: true}
		traces := map[trace.TraceID]bool{root.SpanContext().TraceID: true}
		sum := 0
		for _, k := range shared {
			sum += k
		}
		s.mu.Lock()
		if d := s.got[root.SpanContext().SpanID]; d == nil || d.ChildSpanCount != sum {
			r.Violate("child-count", "shared root: want %d children, got %+v", sum, d)
		}
		for _, ns := range all {
			for _, n := range ns {
				sc := n.sp.SpanContext()
				r.Check(sc.SpanID != zeroS, "zero-span-id", "zero span ID")
				r.Check(!seen[sc.SpanID], "duplicate-span-id", "span ID %v used twice", sc.SpanID)
				seen[sc.SpanID] = true
				r.Check(sc.TraceID != zeroT, "zero-trace-id", "zero trace ID")
				if n.parent == (trace.SpanContext{}) {
					r.Check(!traces[sc.TraceID], "duplicate-trace-id", "new root reuses trace ID %v", sc.TraceID)
					traces[sc.TraceID] = true
					r.Check(sc.Tracestate == nil, "root-tracestate", "new root has tracestate %v", sc.Tracestate)
				} else {
					r.Check(sc.TraceID == n.parent.TraceID, "trace-id-not-inherited", "trace ID %v, parent has %v", sc.TraceID, n.parent.TraceID)
					r.Check(sc.Tracestate == n.parent.Tracestate, "tracestate-not-inherited", "tracestate %v, parent has %v", sc.Tracestate, n.parent.Tracestate)
					r.Check(sc.TraceOptions|1 == n.parent.TraceOptions|1, "options-not-inherited", "options %x, parent has %x", sc.TraceOptions, n.parent.TraceOptions)
				}
				r.Check(sc.IsSampled() == n.sampled, "sampled-bit", "sampled bit %v want %v", sc.IsSampled(), n.sampled)
				d := s.got[sc.SpanID]
				if (d != nil) != n.sampled {
					r.Violate("export-vs-sampled", "exported=%v sampled=%v", d != nil, n.sampled)
				}
				if d != nil {
					r.Check(d.SpanContext == sc, "exported-context", "exported context %v, span has %v", d.SpanContext, sc)
					r.Check(d.ParentSpanID == n.parent.SpanID, "exported-parent", "exported parent %v want %v", d.ParentSpanID, n.parent.SpanID)
					r.Check(d.HasRemoteParent == n.remote, "exported-remote", "HasRemoteParent %v want %v", d.HasRemoteParent, n.remote)
					r.Check(d.ChildSpanCount == n.children, "child-count", "child count %d want %d", d.ChildSpanCount, n.children)
				}
				if trace.FromContext(n.ctx) != n.sp {
					r.Violate("context-span", "a context's span changed")
				}
			}
		}
		s.mu.Unlock()
		r.Eval(fmt.Sprint(shape))
		if c == 0 {
			r.Sample(shape)
		}
	}
}

// unique hammers the default generator from many goroutines.
func unique(r *mon.Run) {
	internal.LocalSpanStoreEnabled = false
	for c := 0; c < r.N(3, 20); c++ {
		r.Case("unique %d", c)
		const g = 8
		n := r.N(3000, 4)
		type id struct {
			t trace.TraceID
			s trace.SpanID
		}
		out := make([][]id, g)
		r.Par(g, func(w int) {
			ids := make([]id, 0, n)
			for i := 0; i < n; i++ {
				_, sp := trace.StartSpan(context.Background(), "u", trace.WithSampler(trace.NeverSample()))
				sc := sp.SpanContext()
				ids = append(ids, id{sc.TraceID, sc.SpanID})
			}
			out[w] = ids
		})
		ts, ss := map[trace.TraceID]bool{}, map[trace.SpanID]bool{}
		halves := map[[8]byte]bool{}
		for _, ids := range out {
			for _, x := range ids {
				r.Check(x.t != trace.TraceID{} && x.s != trace.SpanID{}, "zero-id", "zero ID generated")
				r.Check(!ts[x.t], "duplicate-trace-id", "trace ID %v generated twice", x.t)
				r.Check(!ss[x.s], "duplicate-span-id", "span ID %v generated twice", x.s)
				ts[x.t], ss[x.s] = true, true
				halves[[8]byte(x.t[:8])] = true
			}
		}
		r.Check(len(halves) > len(ts)-4, "trace-id-entropy", "the high half of %d trace IDs takes only %d values", len(ts), len(halves))
		r.Count("ids_generated", g*n)
		r.Eval(fmt.Sprint("unique", c))
	}
}

type gen struct {
	mu            sync.Mutex
	traces, spans int
	lastT, lastS  uint64
	issuedT       map[trace.TraceID]bool
	issuedS       map[trace.SpanID]bool
}

func (g *gen) NewTraceID() [16]byte {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.traces++
	id := [16]byte{0xaa, byte(g.traces >> 16), byte(g.traces >> 8), byte(g.traces)}
	g.issuedT[id] = true
	return id
}

func (g *gen) NewSpanID() [8]byte {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.spans++
	id := [8]byte{0xbb, byte(g.spans >> 16), byte(g.spans >> 8), byte(g.spans)}
	g.issuedS[id] = true
	return id
}

// generator: a configured generator is asked for every ID, and only for new ones.
func generator(r *mon.Run) {
	r.Case("custom generator")
	g := &gen{issuedT: map[trace.TraceID]bool{}, issuedS: map[trace.SpanID]bool{}}
	trace.ApplyConfig(trace.Config{IDGenerator: g})
	rng := r.Rand("gen")
	roots, spans := 0, 0
	ctxs := []context.Context{context.Background()}
	for i := 0; i < 500; i++ {
		k := rng.IntN(len(ctxs))
		ctx, sp := trace.StartSpan(ctxs[k], "g", trace.WithSampler(trace.NeverSample()))
		if k == 0 {
			roots++
		}
		spans++
		sc := sp.SpanContext()
		if !g.issuedT[sc.TraceID] || !g.issuedS[sc.SpanID] {
			r.Violate("foreign-id", "span has IDs %v %v the configured generator did not issue", sc.TraceID, sc.SpanID)
		}
		if len(ctxs) < 20 {
			ctxs = append(ctxs, ctx)
		}
	}
	r.Check(g.traces == roots, "trace-ids-requested", "%d trace IDs requested for %d roots", g.traces, roots)
	r.Check(g.spans == spans, "span-ids-requested", "%d span IDs requested for %d spans", g.spans, spans)
	r.Eval("generator")
}
