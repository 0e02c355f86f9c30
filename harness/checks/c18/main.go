// Monitor for C18: metric producers, readers and interval readers.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C18", run) }

// producer gives some metrics that tell which reading they are from.
type producer struct {
	id    int
	n     int
	reads atomic.Int64
	state atomic.Int64 // %4: 0 unregistered, 1 being added, 2 registered, 3 being deleted
}

func (p *producer) Read() []*metricdata.Metric {
	k := p.reads.Add(1)
	var out []*metricdata.Metric
	for i := 0; i < p.n; i++ {
		out = append(out, &metricdata.Metric{
			Descriptor: metricdata.Descriptor{Name: fmt.Sprintf("p%d/%d", p.id, i), Type: metricdata.TypeCumulativeInt64},
			TimeSeries: []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(time.Time{}, k)}}},
		})
	}
	return out
}

var ids atomic.Int64

func newProducer(rng *rand.Rand) *producer {
	return &producer{id: int(ids.Add(1)), n: rng.IntN(4)}
}

// sink keeps what it is given.
type sink struct {
	calls int
	data  []*metricdata.Metric
	ctx   context.Context
}

func (s *sink) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	s.calls++
	s.data, s.ctx = data, ctx
	if s.calls%2 == 0 {
		return fmt.Errorf("an error the reader does not mind")
	}
	return nil
}

func set(pm *metricproducer.Manager) map[metricproducer.Producer]int {
	out := map[metricproducer.Producer]int{}
	for _, p := range pm.GetAll() {
		out[p]++
	}
	return out
}

// checkData verifies that data holds exactly the metrics of these producers, each from one reading.
func checkData(r *mon.Run, data []*metricdata.Metric, must, may map[int]*producer) {
	got := map[int]map[int]int64{}
	for _, m := range data {
		var id, i int
		if n, _ := fmt.Sscanf(m.Descriptor.Name, "p%d/%d", &id, &i); n != 2 {
			continue // of another producer, such as the default meter
		}
		if got[id] == nil {
			got[id] = map[int]int64{}
		}
		if _, dup := got[id][i]; dup {
			r.Violate("exported-twice", "a metric of a producer is exported twice in one call")
		}
		got[id][i] = m.TimeSeries[0].Points[0].Value.(int64)
	}
	for id, g := range got {
		p := must[id]
		if p == nil {
			p = may[id]
		}
		if p == nil {
			r.Violate("unregistered-exported", "metrics of producer %d, which is not registered, are exported", id)
			continue
		}
		if len(g) != p.n {
			r.Violate("partial-export", "%d of %d metrics of a producer exported", len(g), p.n)
		}
		for _, k := range g {
			if k != g[0] {
				r.Violate("mixed-export", "one export mixes readings %v", g)
			}
		}
	}
	for id, p := range must {
		r.Check(p.n == 0 || got[id] != nil, "not-exported", "metrics of a registered producer are not exported")
	}
	r.Count("exports_checked", 1)
}

// history drives the manager and a reader from one goroutine.
func history(r *mon.Run, rng *rand.Rand, c int) {
	pm := metricproducer.GlobalManager()
	if metricproducer.GlobalManager() != pm {
		r.Violate("manager", "there are two global managers")
	}
	var ps []*producer
	for i := 6 + rng.IntN(40)*(rng.IntN(6)/5); i > 0; i-- {
		ps = append(ps, newProducer(rng))
	}
	on := map[int]*producer{}
	base := set(pm)
	log := ""
	rd := metricexport.NewReader()
	s := &sink{}
	var kept keeper
	for i := 20 + rng.IntN(60) + 3*(len(ps)-6); i > 0; i-- {
		p := ps[rng.IntN(len(ps))]
		switch rng.IntN(6) {
		case 0, 1:
			pm.AddProducer(p)
			on[p.id] = p
			log += fmt.Sprintf("+%d ", p.id-ps[0].id)
		case 2:
			pm.DeleteProducer(p)
			delete(on, p.id)
			log += fmt.Sprintf("-%d ", p.id-ps[0].id)
		case 3:
			pm.AddProducer(nil)
			pm.DeleteProducer(nil)
		case 4:
			l := pm.GetAll()
			g := set(pm)
			if len(g) != len(on)+len(base) {
				r.Violate("manager", "%d producers, %d registered; %s", len(g), len(on)+len(base), log)
			}
			for p, k := range g {
				q, own := p.(*producer)
				r.Check(k == 1 && (base[p] == 1 || own && on[q.id] == q), "manager", "GetAll lists an unregistered producer or one twice; %s", log)
			}
			if len(l) > 0 { // the slice is the caller's
				l[rng.IntN(len(l))] = nil
			}
		case 5:
			before := map[int]int64{}
			for _, p := range ps {
				before[p.id] = p.reads.Load()
			}
			k := s.calls
			rd.ReadAndExport(s)
			r.Check(s.calls == k+1, "export-calls", "one ReadAndExport calls the exporter %d times", s.calls-k)
			checkData(r, s.data, on, nil)
			kept.keep(s.data)
			for _, p := range ps {
				want := int64(0)
				if on[p.id] != nil {
					want = 1
				}
				r.Check(p.reads.Load()-before[p.id] == want, "reads", "producer read %d times by one export, not %d", p.reads.Load()-before[p.id], want)
			}
			r.Check(trace.FromContext(s.ctx) != nil, "span", "the exporter's context carries no span")
			log += "e "
		}
	}
	for _, p := range ps {
		pm.DeleteProducer(p)
	}
	kept.check(r)
	r.Eval(log)
	if c == 1 {
		r.Sample(log)
	}
}

// churn reads while several goroutines add and delete their own producers.
func churn(r *mon.Run, rng *rand.Rand, c int) {
	pm := metricproducer.GlobalManager()
	workers := 2 + rng.IntN(3)
	var ps []*producer
	owner := make([][]*producer, workers)
	for w := range owner {
		for i := 0; i < 3; i++ {
			p := newProducer(rng)
			p.n = 1 + rng.IntN(3)
			ps = append(ps, p)
			owner[w] = append(owner[w], p)
		}
	}
	seed := rng.Uint64()
	var running atomic.Int32
	running.Store(int32(workers))
	var fs []func()
	for w := range owner {
		fs = append(fs, func() {
			defer running.Add(-1)
			rng := rand.New(rand.NewPCG(seed, uint64(w)))
			for i := 0; i < 150; i++ {
				p := owner[w][rng.IntN(3)]
				p.state.Add(1)
				if p.state.Load()%4 == 1 {
					pm.AddProducer(p)
				} else {
					pm.DeleteProducer(p)
				}
				p.state.Add(1)
				if rng.IntN(4) == 0 {
					time.Sleep(time.Duration(rng.IntN(300)) * time.Microsecond)
				}
			}
			for _, p := range owner[w] {
				if p.state.Load()%4 == 2 {
					p.state.Add(1)
					pm.DeleteProducer(p)
					p.state.Add(1)
				}
			}
			r.Progress()
		})
	}
	var stable atomic.Int64
	shared := metricexport.NewReader() // by both, in half of the cases
	kept := make([]keeper, 2)
	for g := 0; g < 2; g++ {
		fs = append(fs, func() {
			rd, s := shared, &sink{}
			if c%2 == 1 {
				rd = metricexport.NewReader()
			}
			for running.Load() > 0 {
				var before []int64
				for _, p := range ps {
					before = append(before, p.state.Load())
				}
				rd.ReadAndExport(s)
				must, may := map[int]*producer{}, map[int]*producer{}
				for i, p := range ps {
					if now := p.state.Load(); now != before[i] || now%2 == 1 {
						may[p.id] = p
					} else if now%4 == 2 {
						must[p.id] = p
						stable.Add(1)
					}
				}
				checkData(r, s.data, must, may)
				kept[g].keep(s.data)
				runtime.Gosched()
			}
		})
	}
	r.Go(fs...)
	for g := range kept {
		kept[g].check(r)
	}
	for p := range set(pm) {
		if _, own := p.(*producer); own {
			r.Violate("manager", "a deleted producer is still registered")
		}
	}
	r.Count("stable_producers_seen", int(stable.Load()))
	r.Eval(fmt.Sprint("churn", c, seed))
}

// keeper keeps exported data, with copies of the slices.
type keeper struct{ data, copies [][]*metricdata.Metric }

func (k *keeper) keep(data []*metricdata.Metric) {
	if len(k.data) < 500 {
		k.data = append(k.data, data)
		k.copies = append(k.copies, append([]*metricdata.Metric{}, data...))
	}
}

// check verifies that no kept export has changed since.
func (k *keeper) check(r *mon.Run) {
	for i, d := range k.data {
		for j, m := range d {
			if m != k.copies[i][j] {
				r.Violate("exported-data-changes", "the data of an export is overwritten by a later one")
			}
		}
	}
	r.Count("exports_kept", len(k.data))
}

// spanSink watches the spans of exports.
type spanSink struct {
	mu    sync.Mutex
	ended map[trace.SpanID]*trace.SpanData
	live  map[trace.SpanID]bool
	r     *mon.Run
	calls int
}

func (s *spanSink) ExportSpan(d *trace.SpanData) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ended[d.SpanContext.SpanID] = d
}

func (s *spanSink) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	sp := trace.FromContext(ctx)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	if sp == nil {
		s.r.Violate("span", "the exporter's context carries no span")
		return nil
	}
	sc := sp.SpanContext()
	if sc.IsSampled() {
		s.live[sc.SpanID] = true
		s.r.Check(s.ended[sc.SpanID] == nil, "span", "the span ended before the export")
	}
	return nil
}

// spans exports often enough to see the rarely sampled spans.
func spans(r *mon.Run, rng *rand.Rand) {
	for _, name := range []string{"", "own name"} {
		s := &spanSink{r: r, ended: map[trace.SpanID]*trace.SpanData{}, live: map[trace.SpanID]bool{}}
		trace.RegisterExporter(s)
		var os []metricexport.ReaderOption
		want := "ExportMetrics"
		if name != "" {
			os = append(os, metricexport.WithSpanName("replaced"), metricexport.WithSpanName(name))
			want = name
		}
		rd := metricexport.NewReader(os...)
		n := 200_000
		for i := 0; i < n; i++ {
			rd.ReadAndExport(s)
			if i%1000 == 0 {
				r.Progress()
			}
		}
		trace.UnregisterExporter(s)
		// 20 are expected; none at all, or over a hundred, have probabilities below 1e-8.
		if k := len(s.ended); k == 0 || k > 100 || s.calls != n {
			r.Violate("span", "%d of %d exports were traced, at a fraction of 1/10000", k, s.calls)
		}
		for id, d := range s.ended {
			r.Check(s.live[id] && d.Name == want, "span", "span %q, want %q", d.Name, want)
			delete(s.live, id)
		}
		r.Check(len(s.live) == 0, "span", "%d spans of exports never ended", len(s.live))
		r.Count("export_spans", len(s.ended))
	}
}

// timed is an exporter that knows when it may be called.
type timed struct {
	r       *mon.Run
	allowed atomic.Bool
	busy    atomic.Int32
	n       atomic.Int64
	times   []time.Time
	nap     time.Duration
	p       *producer
}

func (e *timed) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	if e.busy.Add(1) != 1 {
		e.r.Violate("concurrent-export", "an interval reader exports concurrently")
	}
	defer e.busy.Add(-1)
	if !e.allowed.Load() {
		e.r.Violate("export-when-stopped", "an interval reader exports while it is stopped")
	}
	found := false
	for _, m := range data {
		found = found || m.Descriptor.Name == fmt.Sprintf("p%d/0", e.p.id)
	}
	e.r.Check(found, "not-exported", "an interval reader's export lacks a registered producer's metrics")
	e.times = append(e.times, time.Now())
	time.Sleep(e.nap)
	e.n.Add(1)
	return nil
}

// interval runs one interval reader through its life.
func interval(r *mon.Run, rng *rand.Rand, i int, p *producer) {
	e := &timed{r: r, p: p, nap: []time.Duration{0, time.Millisecond, 100 * time.Millisecond, 1300 * time.Millisecond}[i%4]}
	ir, err := metricexport.NewIntervalReader(metricexport.NewReader(), e)
	if err != nil {
		r.Violate("new", "%v", err)
		return
	}
	flush := func() {
		e.allowed.Store(true)
		n := e.n.Load()
		ir.Flush()
		e.allowed.Store(false)
		r.Check(e.n.Load() == n+1, "flush", "Flush of a stopped reader exports %d times", e.n.Load()-n)
		r.Count("flushes", 1)
	}
	ir.Stop()
	flush()
	for _, d := range []time.Duration{1, time.Second - 1, -time.Second, 999 * time.Millisecond} {
		ir.ReportingInterval = d
		if ir.Start() == nil {
			r.Violate("interval-too-low", "a reader starts at an interval of %v", d)
			ir.Stop()
		}
	}
	flush()
	for life := 0; life < 2; life++ {
		d := time.Second + time.Duration(rng.IntN(400))*time.Millisecond
		if i%8 == 7 {
			d = 0 // a minute
		}
		ir.ReportingInterval = d
		e.allowed.Store(true)
		n := e.n.Load()
		t0 := time.Now()
		if err := ir.Start(); err != nil {
			r.Violate("start", "%v", err)
			return
		}
		r.Check(ir.Start() != nil, "start-twice", "a running reader starts again")
		ir.Flush() // does nothing
		if time.Since(t0) < 900*time.Millisecond {
			r.Check(e.n.Load() == n, "flush", "Flush of a running reader exports")
		}
		if d == 0 {
			time.Sleep(1500 * time.Millisecond)
			r.Check(e.n.Load() == n, "interval", "a reader with the default interval exports within 1.5 s")
		} else {
			for e.n.Load() < n+2 && time.Since(t0) < 40*time.Second {
				time.Sleep(20 * time.Millisecond)
			}
			r.Check(e.n.Load() >= n+2, "interval", "%d exports in 40 s at an interval of %v", e.n.Load()-n, d)
		}
		if rng.IntN(2) == 0 { // so that it falls into an export, perhaps
			time.Sleep(time.Until(t0.Add(3*d + 50*time.Millisecond)))
		}
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() { defer wg.Done(); ir.Stop() }()
		}
		wg.Wait()
		e.allowed.Store(false)
		el := time.Since(t0)
		k := e.n.Load()
		if d > 0 {
			r.Check(k-n <= int64(el/d), "interval", "%d exports in %v at an interval of %v", k-n, el, d)
		}
		r.Check(e.busy.Load() == 0, "stop-returns-early", "Stop returns during an export")
		if life == 0 {
			time.Sleep(1200 * time.Millisecond)
		}
		r.Check(e.n.Load() == k, "export-when-stopped", "a stopped reader exports")
		ir.Stop()
		flush()
		r.Count("interval_exports", int(k-n))
	}
	r.Eval(fmt.Sprint("interval", i, e.n.Load()))
}

// storm starts, stops and flushes one reader from everywhere.
func storm(r *mon.Run, rng *rand.Rand, p *producer) {
	e := &timed{r: r, p: p}
	e.allowed.Store(true)
	ir, _ := metricexport.NewIntervalReader(metricexport.NewReader(), e)
	ir.ReportingInterval = time.Second
	var starts, stops atomic.Int64
	r.Par(6, func(i int) {
		rng := rand.New(rand.NewPCG(uint64(i), 7))
		for k := 0; k < 300; k++ {
			switch rng.IntN(3) {
			case 0:
				if ir.Start() == nil {
					starts.Add(1)
				}
			case 1:
				ir.Stop()
				stops.Add(1)
			case 2:
				ir.Flush()
			}
			if k%50 == 0 {
				r.Progress()
			}
		}
	})
	ir.Stop()
	e.allowed.Store(false)
	time.Sleep(1100 * time.Millisecond)
	r.Check(starts.Load() > 0, "start", "no start succeeds")
	r.Count("storm_starts", int(starts.Load()))
	r.Eval("storm")
}

func run(r *mon.Run) {
	rng := r.Rand("history")
	for _, k := range []string{"exports_checked", "stable_producers_seen", "export_spans", "flushes", "interval_exports", "storm_starts", "exports_kept"} {
		r.Require(k, 1)
	}
	if _, err := metricexport.NewIntervalReader(nil, &sink{}); err == nil {
		r.Violate("new", "an interval reader without reader")
	}
	if _, err := metricexport.NewIntervalReader(metricexport.NewReader(), nil); err == nil {
		r.Violate("new", "an interval reader without exporter")
	}
	r.Do("nil reader", func() {
		var none *metricexport.IntervalReader
		r.Check(none.Start() != nil, "nil", "a nil reader starts")
		none.Stop()
		none.Flush()
	})
	// The waiting ones run beside each other.
	p := newProducer(rng)
	p.n = 2
	metricproducer.GlobalManager().AddProducer(p)
	var fs []func()
	for i := 0; i < r.N(16, 4); i++ {
		rr := r.Rand(fmt.Sprint("interval", i))
		fs = append(fs, func() { interval(r, rr, i, p) })
	}
	for i := 0; i < 2; i++ {
		fs = append(fs, func() { storm(r, rng, p) })
	}
	r.Case("interval readers")
	r.Go(fs...)
	metricproducer.GlobalManager().DeleteProducer(p)
	for c := 0; c < r.N(300, 20); c++ {
		r.Case("history %d", c)
		history(r, rng, c)
	}
	for c := 0; c < r.N(25, 20); c++ {
		r.Case("churn %d", c)
		churn(r, rng, c)
	}
	r.Case("spans")
	spans(r, rng)
}
