// Monitor for C14: concurrent recording loses and duplicates nothing, and
// every reader sees a consistent, growing state.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C14", run) }

var bounds = []float64{10, 100, 1000}

type set struct {
	mA, mB, mC            *stats.Int64Measure
	key                   tag.Key
	count, sum, dist      *view.View // over mA
	countB, last          *view.View // over mB
	all                   []*view.View
	names                 map[string]*view.View
	started, done         atomic.Int64 // recordings
	sumStarted, sumDone   atomic.Int64
	perTagStart, perTagOK [4]atomic.Int64
}

func newSet() *set {
	s := &set{names: map[string]*view.View{}}
	s.mA = stats.Int64(vm.Unique("a"), "", "1")
	s.mB = stats.Int64(vm.Unique("b"), "", "1")
	s.mC = stats.Int64(vm.Unique("c"), "", "1")
	s.key = tag.MustNewKey(vm.Unique("k"))
	mk := func(m stats.Measure, a *view.Aggregation, keys ...tag.Key) *view.View {
		v := &view.View{Name: vm.Unique("v"), Measure: m, Aggregation: a, TagKeys: keys}
		s.all = append(s.all, v)
		s.names[v.Name] = v
		return v
	}
	s.count = mk(s.mA, view.Count(), s.key)
	s.sum = mk(s.mA, view.Sum())
	s.dist = mk(s.mA, view.Distribution(bounds...))
	s.countB = mk(s.mB, view.Count())
	s.last = mk(s.mB, view.LastValue(), s.key)
	return s
}

var tagVals = []string{"x", "y", "z", ""} // "" being no tag

// snap is one reading of a view.
type snap struct {
	n   int64
	sum float64
	per map[string]float64
}

func read(r *mon.Run, s *set, v *view.View, rows []*view.Row) snap {
	out := snap{per: map[string]float64{}}
	for _, row := range rows {
		name := ""
		if len(row.Tags) > 0 {
			name = row.Tags[0].Value
		}
		if _, dup := out.per[name]; dup {
			r.Violate("duplicate-row", "two rows for tag value %q", name)
		}
		switch d := row.Data.(type) {
		case *view.CountData:
			out.n += d.Value
			out.per[name] = float64(d.Value)
		case *view.SumData:
			out.sum += d.Value
			out.per[name] = d.Value
		case *view.LastValueData:
			out.per[name] = d.Value
		case *view.DistributionData:
			var b int64
			for _, c := range d.CountPerBucket {
				b += c
			}
			r.Check(b == d.Count, "inconsistent-distribution", "buckets hold %d of %d values", b, d.Count)
			r.Check(d.Count == 0 || d.Min <= d.Mean && d.Mean <= d.Max, "inconsistent-distribution", "min %v mean %v max %v", d.Min, d.Mean, d.Max)
			out.n += d.Count
			out.sum += d.Sum()
			out.per[name] = float64(d.Count)
		}
	}
	return out
}

// lost tells whether n is outside what may be visible.
func window(r *mon.Run, sig string, what string, n, lo, hi int64) {
	r.Check(n >= lo && n <= hi, sig, "%s shows %d recordings; %d were complete before it was read, %d were started when it returned", what, n, lo, hi)
}

func round(r *mon.Run, rng *rand.Rand, own bool, c int) {
	s := newSet()
	var m view.Meter
	register, unregister, retrieve := view.Register, view.Unregister, view.RetrieveData
	regExp, unregExp, period := view.RegisterExporter, view.UnregisterExporter, view.SetReportingPeriod
	if own {
		m = view.NewMeter()
		m.Start()
		register, unregister, retrieve = m.Register, m.Unregister, m.RetrieveData
		regExp, unregExp, period = m.RegisterExporter, m.UnregisterExporter, m.SetReportingPeriod
	}
	if err := register(s.all...); err != nil {
		r.Broken("register: %v", err)
		return
	}
	writers := 2 + rng.IntN(5)
	per := 50 + rng.IntN(250)
	if c%4 == 3 {
		per = 1500 // beyond the queue
	}
	seeds := make([]uint64, writers+4)
	for i := range seeds {
		seeds[i] = rng.Uint64()
	}
	var running atomic.Int32
	running.Store(int32(writers))
	lastByTag := make([]map[string]float64, writers) // each writer's last value per tag
	var fs []func()
	var total, totalSum atomic.Int64
	var tot [4]atomic.Int64
	var inBucket [4]atomic.Int64
	for w := 0; w < writers; w++ {
		lastByTag[w] = map[string]float64{}
		fs = append(fs, func() {
			defer running.Add(-1)
			rng := rand.New(rand.NewPCG(seeds[w], 1))
			att := metricdata.Attachments{}
			for i := 0; i < per; i++ {
				k := rng.IntN(len(tagVals))
				x := int64(rng.IntN(2000))
				y := int64(w*1_000_000 + i)
				s.started.Add(1)
				s.sumStarted.Add(x)
				s.perTagStart[k].Add(1)
				ms := []stats.Measurement{s.mA.M(x), s.mB.M(y)}
				for n := rng.IntN(8) * rng.IntN(2) * (1 + 9*(i%16/15)); n > 0; n-- { // of a measure no view is over
					ms = append(ms, s.mC.M(x))
				}
				p, q := rng.IntN(len(ms)), rng.IntN(len(ms))
				ms[p], ms[q] = ms[q], ms[p]
				var err error
				// The tag comes with the context or with the call, or there is none.
				ctx, muts := context.Background(), []tag.Mutator(nil)
				if k < 3 {
					muts = []tag.Mutator{tag.Upsert(s.key, tagVals[k])}
				}
				if rng.IntN(2) == 0 {
					ctx, _ = tag.New(ctx, muts...)
					muts = nil
				}
				opts := []stats.Options{stats.WithMeasurements(ms...)}
				if len(muts) > 0 {
					opts = append(opts, stats.WithTags(muts...))
				}
				attached := rng.IntN(3) == 0
				if attached {
					att["i"] = i
					opts = append(opts, stats.WithAttachments(att))
				}
				switch {
				case own:
					err = stats.RecordWithOptions(ctx, append(opts, stats.WithRecorder(m))...)
				case attached || rng.IntN(3) == 0:
					err = stats.RecordWithOptions(ctx, opts...)
				case len(muts) > 0 || rng.IntN(2) == 0:
					err = stats.RecordWithTags(ctx, muts, ms...)
				default:
					stats.Record(ctx, ms...)
				}
				if attached { // ours again
					att["i"] = -1
				}
				if attached {
					r.Count("recordings_with_attachments", 1)
				}
				for j := range ms { // ours again
					ms[j] = s.mA.M(-5)
				}
				if err != nil {
					r.Violate("record-error", "%v", err)
				}
				s.done.Add(1)
				s.sumDone.Add(x)
				s.perTagOK[k].Add(1)
				total.Add(1)
				totalSum.Add(x)
				tot[k].Add(1)
				b := 3
				for j, u := range bounds {
					if float64(x) < u {
						b = j
						break
					}
				}
				inBucket[b].Add(1)
				lastByTag[w][tagVals[k]] = float64(y)
				if i%50 == 0 {
					r.Progress()
				}
				if rng.IntN(8) == 0 { // let the readers get a turn
					time.Sleep(time.Duration(rng.IntN(100)) * time.Microsecond)
				}
			}
		})
	}
	// Retrieval follows in the order of requests: it sees all that is complete.
	fs = append(fs, func() {
		rng := rand.New(rand.NewPCG(seeds[writers], 2))
		last := map[string]snap{}
		for running.Load() > 0 {
			v := s.all[rng.IntN(len(s.all))]
			lo, loSum := s.done.Load(), s.sumDone.Load()
			rows, err := retrieve(v.Name)
			hi, hiSum := s.started.Load(), s.sumStarted.Load()
			if err != nil {
				r.Violate("retrieve", "%v", err)
				return
			}
			g := read(r, s, v, rows)
			switch v {
			case s.count, s.dist, s.countB:
				window(r, "lost-or-duplicated", "retrieval", g.n, lo, hi)
			}
			if v == s.sum || v == s.dist {
				r.Check(g.sum >= float64(loSum)-0.5 && g.sum <= float64(hiSum)+0.5, "lost-or-duplicated", "retrieved sum %v not within [%d,%d]", g.sum, loSum, hiSum)
			}
			p := last[v.Name]
			r.Check(g.n >= p.n && g.sum >= p.sum-0.5, "went-back", "%v: %+v after %+v", v.Aggregation.Type, g, p)
			last[v.Name] = g
			r.Count("retrievals", 1)
		}
	})
	// Metric reads may lag behind, but never mix or go back.
	var prods []metricproducer.Producer
	for _, p := range metricproducer.GlobalManager().GetAll() {
		prods = append(prods, p)
	}
	fs = append(fs, func() {
		last := map[string]int64{}
		for running.Load() > 0 {
			for _, p := range prods {
				got := map[string]int64{}
				sums := map[string]float64{}
				for _, mt := range p.Read() {
					v := s.names[mt.Descriptor.Name]
					if v == nil {
						continue
					}
					for _, ts := range mt.TimeSeries {
						switch x := ts.Points[0].Value.(type) {
						case int64:
							if v == s.sum {
								sums[v.Name] += float64(x)
							} else {
								got[v.Name] += x
							}
						case *metricdata.Distribution:
							got[v.Name] += x.Count
							sums[v.Name] += x.Sum
							var b int64
							for _, k := range x.Buckets {
								b += k.Count
							}
							r.Check(b == x.Count, "inconsistent-distribution", "metric: buckets hold %d of %d values", b, x.Count)
						}
					}
				}
				if len(got) == 0 {
					continue
				}
				n := got[s.count.Name]
				r.Check(n == got[s.dist.Name] && n == got[s.countB.Name] && math.Abs(sums[s.sum.Name]-sums[s.dist.Name]) < 0.5, "torn-read",
					"one metric read shows %d, %d, %d of the values recorded together, sums %v, %v", n, got[s.dist.Name], got[s.countB.Name], sums[s.sum.Name], sums[s.dist.Name])
				r.Check(n <= s.started.Load(), "lost-or-duplicated", "metric read shows %d of %d", n, s.started.Load())
				r.Check(n >= last[s.count.Name], "went-back", "metric read shows %d after %d", n, last[s.count.Name])
				last[s.count.Name] = n
				r.Count("metric_reads", 1)
			}
		}
	})
	// Exports.
	e := &exporter{r: r, s: s, last: map[string]snap{}}
	regExp(e)
	period([]time.Duration{time.Millisecond, 3 * time.Millisecond, 200 * time.Microsecond}[rng.IntN(3)])
	// Someone churns an unrelated view on the same measures.
	fs = append(fs, func() {
		for running.Load() > 0 {
			v := &view.View{Name: vm.Unique("churn"), Measure: s.mA, Aggregation: view.Distribution(5, 1), TagKeys: []tag.Key{s.key}}
			if err := register(v, s.count); err != nil {
				r.Violate("register", "%v", err)
			}
			rows, err := retrieve(v.Name)
			if err == nil {
				read(r, s, v, rows)
			}
			unregister(v)
			r.Count("churned_views", 1)
			time.Sleep(200 * time.Microsecond)
		}
	})
	r.Go(fs...)
	// Everything recorded is there, once.
	for _, v := range s.all {
		rows, err := retrieve(v.Name)
		if err != nil {
			r.Violate("retrieve", "%v", err)
			return
		}
		g := read(r, s, v, rows)
		switch v {
		case s.count:
			for k, name := range tagVals {
				r.Check(int64(g.per[name]) == tot[k].Load(), "lost-or-duplicated", "%d of %d recordings with tag %s counted", int64(g.per[name]), tot[k].Load(), name)
			}
		case s.countB, s.dist:
			r.Check(g.n == total.Load(), "lost-or-duplicated", "%d of %d recordings aggregated", g.n, total.Load())
			if v == s.dist {
				r.Check(math.Abs(g.sum-float64(totalSum.Load())) < 1e-6*float64(totalSum.Load()), "lost-or-duplicated", "distribution sums to %v, recorded %d", g.sum, totalSum.Load())
				d := rows[0].Data.(*view.DistributionData)
				for b := range inBucket {
					r.Check(d.CountPerBucket[b] == inBucket[b].Load(), "lost-or-duplicated", "bucket %d holds %d of %d", b, d.CountPerBucket[b], inBucket[b].Load())
				}
			}
		case s.sum:
			r.Check(g.sum == float64(totalSum.Load()), "lost-or-duplicated", "sum %v, recorded %d", g.sum, totalSum.Load())
		case s.last:
			for _, name := range tagVals {
				ok, any := false, false
				for w := range lastByTag {
					x, there := lastByTag[w][name]
					any = any || there
					ok = ok || there && x == g.per[name]
				}
				r.Check(ok || !any, "stale-last-value", "last value %v for tag %s is no goroutine's last one", g.per[name], name)
			}
		}
	}
	r.Count("recorded", int(total.Load()))
	unregExp(e)
	if own {
		m.Stop()
	} else {
		unregister(s.all...)
	}
	r.Count("exports", int(e.n.Load()))
	r.Eval(fmt.Sprint(c, own, writers, per, e.n.Load(), seeds[0]))
	if c < 2 {
		r.Sample(map[string]any{"writers": writers, "recordings_each": per, "own_meter": own, "exports_seen": e.n.Load()})
	}
}

type exporter struct {
	r    *mon.Run
	s    *set
	mu   sync.Mutex
	last map[string]snap
	busy atomic.Int32
	n    atomic.Int64
}

func (e *exporter) ExportView(d *view.Data) {
	if e.busy.Add(1) != 1 {
		e.r.Violate("concurrent-export", "the exporter is called concurrently")
	}
	defer e.busy.Add(-1)
	v := e.s.names[d.View.Name]
	if v == nil {
		return
	}
	e.n.Add(1)
	g := read(e.r, e.s, v, d.Rows)
	e.mu.Lock()
	defer e.mu.Unlock()
	p := e.last[v.Name]
	e.r.Check(g.n >= p.n && g.sum >= p.sum-0.5, "went-back", "export of %v: %+v after %+v", v.Aggregation.Type, g, p)
	e.r.Check(g.n <= e.s.started.Load(), "lost-or-duplicated", "export shows %d of %d", g.n, e.s.started.Load())
	e.last[v.Name] = g
}

// final keeps the last count exported of each view.
type final struct {
	mu sync.Mutex
	n  map[string]int64
}

func (f *final) ExportView(d *view.Data) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(d.Rows) > 0 {
		f.n[d.View.Name] = d.Rows[0].Data.(*view.CountData).Value
	}
}

// flood records from many goroutines faster than so many views take it in,
// and asks for the counts at once.
func flood(r *mon.Run, rng *rand.Rand, own bool) {
	register, unregister, retrieve := view.Register, view.Unregister, view.RetrieveData
	regExp, unregExp := view.RegisterExporter, view.UnregisterExporter
	var opts []stats.Options
	if own {
		m := view.NewMeter()
		m.Start()
		defer m.Stop()
		register, unregister, retrieve = m.Register, m.Unregister, m.RetrieveData
		regExp, unregExp = m.RegisterExporter, m.UnregisterExporter
		opts = append(opts, stats.WithRecorder(m))
	}
	m := stats.Int64(vm.Unique("flood"), "", "1")
	var vs []*view.View
	for i := 0; i < 20; i++ {
		vs = append(vs, &view.View{Name: vm.Unique("flood"), Measure: m, Aggregation: view.Count()})
	}
	if err := register(vs...); err != nil {
		r.Violate("register", "%v", err)
		return
	}
	var n int64
	for c := 0; c < 3; c++ {
		k := 300 + rng.IntN(900)
		fs := make([]func(), 8)
		for g := range fs {
			form := rng.IntN(3)
			fs[g] = func() {
				for i := 0; i < k; i++ {
					switch {
					case own:
						stats.RecordWithOptions(context.Background(), append(append([]stats.Options{}, opts...), stats.WithMeasurements(m.M(1)))...)
					case form == 0:
						stats.Record(context.Background(), m.M(1))
					case form == 1:
						stats.RecordWithTags(context.Background(), nil, m.M(1))
					default:
						stats.RecordWithOptions(context.Background(), stats.WithMeasurements(m.M(1)))
					}
				}
			}
		}
		r.Go(fs...)
		n += int64(k * len(fs))
		for _, i := range rng.Perm(len(vs))[:5] {
			rows, err := retrieve(vs[i].Name)
			r.Check(err == nil && len(rows) == 1 && rows[0].Data.(*view.CountData).Value == n, "lost", "own meter %v: after %d recordings from %d goroutines, retrieved %v %v", own, n, len(fs), rows, err)
		}
		r.Count("flood_recordings", k*len(fs))
		r.Progress()
	}
	f := &final{n: map[string]int64{}}
	regExp(f)
	fs := make([]func(), 8)
	for g := range fs {
		fs[g] = func() {
			for i := 0; i < 300; i++ {
				stats.RecordWithOptions(context.Background(), append(append([]stats.Options{}, opts...), stats.WithMeasurements(m.M(1)))...)
			}
		}
	}
	r.Go(fs...)
	n += int64(300 * len(fs))
	unregister(vs...)
	unregExp(f)
	for _, v := range vs {
		r.Check(f.n[v.Name] == n, "lost", "own meter %v: after %d recordings, the last export of a view says %d", own, n, f.n[v.Name])
	}
}

func run(r *mon.Run) {
	rng := r.Rand("rounds")
	for _, k := range []string{"recorded", "retrievals", "metric_reads", "exports", "churned_views", "flood_recordings"} {
		r.Require(k, 1)
	}
	for c := 0; c < r.N(24, 25); c++ {
		r.Case("round %d", c)
		round(r, rng, c%2 == 1, c)
	}
	for c := 0; c < r.N(4, 25); c++ {
		r.Case("flood %d", c)
		flood(r, rng, c%2 == 1)
	}
}
