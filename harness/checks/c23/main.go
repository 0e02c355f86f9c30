// Monitor for C23: the metrics of the Go runtime.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C23", run) }

// A source is what one metric must show, and how it may move.
type source struct {
	name       string
	unit       metricdata.Unit
	cumulative bool // in derived-cumulative mode
	rising     bool // never falls while the process lives
	get        func(m *runtime.MemStats) float64
}

const by, one, ms = metricdata.UnitBytes, metricdata.UnitDimensionless, metricdata.UnitMilliseconds

var memory = []source{
	{"memory_alloc", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.Alloc) }},
	{"total_memory_alloc", by, true, true, func(m *runtime.MemStats) float64 { return float64(m.TotalAlloc) }},
	{"sys_memory_alloc", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.Sys) }},
	{"memory_lookups", one, true, true, func(m *runtime.MemStats) float64 { return float64(m.Lookups) }},
	{"memory_malloc", one, true, true, func(m *runtime.MemStats) float64 { return float64(m.Mallocs) }},
	{"memory_frees", one, true, true, func(m *runtime.MemStats) float64 { return float64(m.Frees) }},
	{"heap_alloc", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.HeapAlloc) }},
	{"sys_heap", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.HeapSys) }},
	{"heap_idle", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.HeapIdle) }},
	{"heap_inuse", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.HeapInuse) }},
	{"heap_objects", one, false, false, func(m *runtime.MemStats) float64 { return float64(m.HeapObjects) }},
	{"heap_release", by, true, false, func(m *runtime.MemStats) float64 { return float64(m.HeapReleased) }},
	{"stack_inuse", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.StackInuse) }},
	{"sys_stack", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.StackSys) }},
	{"stack_mspan_inuse", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.MSpanInuse) }},
	{"sys_stack_mspan", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.MSpanSys) }},
	{"stack_mcache_inuse", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.MCacheInuse) }},
	{"sys_stack_mcache", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.MCacheSys) }},
	{"gc_sys", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.GCSys) }},
	{"other_sys", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.OtherSys) }},
	{"num_gc", one, true, true, func(m *runtime.MemStats) float64 { return float64(m.NumGC) }},
	{"num_forced_gc", one, true, true, func(m *runtime.MemStats) float64 { return float64(m.NumForcedGC) }},
	{"next_gc_heap_size", by, false, false, func(m *runtime.MemStats) float64 { return float64(m.NextGC) }},
	{"last_gc_finished_timestamp", ms, false, true, func(m *runtime.MemStats) float64 { return float64(m.LastGC / 1e6) }},
	{"pause_total", ms, true, true, func(m *runtime.MemStats) float64 { return float64(m.PauseTotalNs / 1e6) }},
	{"gc_cpu_fraction", one, false, false, func(m *runtime.MemStats) float64 { return m.GCCPUFraction }},
}

// state is the process as seen from outside: what the metrics must show.
type state struct {
	mem        runtime.MemStats
	goroutines int
	cgo        int64
}

func observe() *state {
	s := &state{}
	runtime.ReadMemStats(&s.mem)
	s.goroutines, s.cgo = runtime.NumGoroutine(), runtime.NumCgoCall()
	return s
}

// own is a producer of somebody else, which must be left alone.
type own struct{}

func (own) Read() []*metricdata.Metric {
	return []*metricdata.Metric{{Descriptor: metricdata.Descriptor{Name: "somebody_else"}}}
}

type capture struct{ data []*metricdata.Metric }

func (c *capture) ExportMetrics(_ context.Context, data []*metricdata.Metric) error {
	c.data = data
	return nil
}

// A reading is one metric read of the process: the runtime's metrics only.
type reading struct {
	metrics map[string]*metricdata.Metric
	list    []*metricdata.Metric
	dup     string
	others  int
}

func read() *reading {
	c := &capture{}
	metricexport.NewReader().ReadAndExport(c)
	g := &reading{metrics: map[string]*metricdata.Metric{}}
	for _, m := range c.data {
		if m.Descriptor.Name == "somebody_else" {
			g.others++
			continue
		}
		if g.metrics[m.Descriptor.Name] != nil {
			g.dup = m.Descriptor.Name
		}
		g.metrics[m.Descriptor.Name] = m
		g.list = append(g.list, m)
	}
	return g
}

func (g *reading) value(name string) float64 {
	m := g.metrics[name]
	if m == nil || len(m.TimeSeries) != 1 || len(m.TimeSeries[0].Points) != 1 {
		return math.NaN()
	}
	switch v := m.TimeSeries[0].Points[0].Value.(type) {
	case int64:
		return float64(v)
	case float64:
		return v
	}
	return math.NaN()
}

// shape checks names, units, types and the single unlabelled point of every
// metric that the options ask for, and that there is no other.
func shape(r *mon.Run, o runmetrics.RunMetricOptions, g *reading, from, to time.Time) {
	r.Check(g.dup == "", "metric-twice", "%+v: metric %s read twice", o, g.dup)
	want := 0
	expect := func(name string, unit metricdata.Unit, typ metricdata.Type) {
		want++
		name = o.Prefix + "process/" + name
		m := g.metrics[name]
		if !r.Check(m != nil, "metric-missing", "%+v: no metric %s", o, name) {
			return
		}
		r.Check(m.Descriptor.Unit == unit && m.Descriptor.Type == typ && len(m.Descriptor.LabelKeys) == 0, "descriptor", "%+v: %+v, want unit %v and type %v", o, m.Descriptor, unit, typ)
		if !r.Check(len(m.TimeSeries) == 1 && len(m.TimeSeries[0].LabelValues) == 0 && len(m.TimeSeries[0].Points) == 1, "series", "%+v: %s has %+v", o, name, m.TimeSeries) {
			return
		}
		if typ == metricdata.TypeCumulativeInt64 {
			st := m.TimeSeries[0].StartTime
			r.Check(!st.Before(from) && !st.After(to), "start-time", "%+v: %s starts at %v, enabled between %v and %v", o, name, st, from, to)
		}
	}
	if o.EnableMemory {
		for _, s := range memory {
			typ := metricdata.TypeGaugeInt64
			if s.name == "gc_cpu_fraction" {
				typ = metricdata.TypeGaugeFloat64
			} else if s.cumulative && o.UseDerivedCumulative {
				typ = metricdata.TypeCumulativeInt64
			}
			expect(s.name, s.unit, typ)
		}
	}
	if o.EnableCPU {
		expect("cpu_goroutines", one, metricdata.TypeGaugeInt64)
		expect("cpu_cgo_calls", one, metricdata.TypeGaugeInt64)
	}
	r.Check(len(g.metrics) == want, "metric-set", "%+v: %d metrics, want %d", o, len(g.metrics), want)
}

// rising checks what can be said at any time: a value that only rises lies
// between those observed before and after.
func rising(r *mon.Run, o runmetrics.RunMetricOptions, g *reading, a, b *state) {
	if o.EnableMemory {
		for _, s := range memory {
			if v := g.value(o.Prefix + "process/" + s.name); s.rising {
				r.Check(v >= s.get(&a.mem) && v <= s.get(&b.mem), "value:"+s.name, "%+v: %s = %v, observed %v before and %v after", o, s.name, v, s.get(&a.mem), s.get(&b.mem))
				r.Count("rising_values", 1)
			}
		}
		oneSnapshot(r, o, g)
	}
	if o.EnableCPU {
		v := g.value(o.Prefix + "process/cpu_cgo_calls")
		r.Check(v >= float64(a.cgo) && v <= float64(b.cgo), "value:cpu_cgo_calls", "%+v: cgo calls %v, observed %v and %v", o, v, a.cgo, b.cgo)
	}
}

// oneSnapshot checks the identities that hold within one state of the memory.
func oneSnapshot(r *mon.Run, o runmetrics.RunMetricOptions, g *reading) {
	v := func(n string) float64 { return g.value(o.Prefix + "process/" + n) }
	r.Check(v("memory_alloc") == v("heap_alloc"), "snapshot", "%+v: memory_alloc %v, heap_alloc %v", o, v("memory_alloc"), v("heap_alloc"))
	r.Check(v("memory_malloc")-v("memory_frees") == v("heap_objects"), "snapshot", "%+v: %v allocated, %v freed, %v live objects", o, v("memory_malloc"), v("memory_frees"), v("heap_objects"))
	r.Check(v("heap_idle")+v("heap_inuse") == v("sys_heap"), "snapshot", "%+v: heap %v idle and %v in use of %v", o, v("heap_idle"), v("heap_inuse"), v("sys_heap"))
	r.Check(v("heap_release") <= v("heap_idle"), "snapshot", "%+v: heap %v released, %v idle", o, v("heap_release"), v("heap_idle"))
	r.Count("snapshots", 1)
}

// exact checks every value while nothing else runs: some of a few readings
// must show a value lying between those before and after.
func exact(r *mon.Run, o runmetrics.RunMetricOptions) {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	seen := map[string]bool{}
	last := map[string]string{}
	note := func(n string, a, v, b float64) {
		if v >= math.Min(a, b) && v <= math.Max(a, b) {
			seen[n] = true
		}
		last[n] = fmt.Sprintf("%v, observed %v and %v", v, a, b)
	}
	for try := 0; try < 40; try++ {
		a := observe()
		g := read()
		b := observe()
		if o.EnableMemory {
			for _, s := range memory {
				note(s.name, s.get(&a.mem), g.value(o.Prefix+"process/"+s.name), s.get(&b.mem))
			}
		}
		if o.EnableCPU {
			note("cpu_goroutines", float64(a.goroutines), g.value(o.Prefix+"process/cpu_goroutines"), float64(b.goroutines))
		}
		if len(seen) == len(last) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	for n, l := range last {
		r.Check(seen[n], "value:"+n, "%+v: 40 times %s was off, last %s", o, n, l)
		r.Count("exact_values", 1)
	}
}

var sink [][]byte

// churn makes the process use memory, run goroutines and collect garbage.
func churn(rng *rand.Rand) (undo func()) {
	for i := rng.IntN(300); i > 0; i-- {
		b := make([]byte, 1+rng.IntN(20000))
		if rng.IntN(4) == 0 {
			sink = append(sink, b)
		}
	}
	if rng.IntN(3) == 0 {
		sink = nil
	}
	switch rng.IntN(4) {
	case 0:
		runtime.GC()
	case 1:
		debug.FreeOSMemory()
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := rng.IntN(20); i > 0; i-- {
		wg.Add(1)
		go func() { <-stop; wg.Done() }()
	}
	return func() { close(stop); wg.Wait() }
}

func sequential(r *mon.Run, rng *rand.Rand) {
	var o runmetrics.RunMetricOptions
	on := false
	var from, to time.Time
	log := ""
	type kept struct {
		g    *reading
		copy []metricdata.Metric
	}
	var keep []kept
	for i := 0; i < r.N(120, 20); i++ {
		r.Case("step %d", i)
		undo := churn(rng)
		switch k := rng.IntN(8); {
		case k < 5:
			o = runmetrics.RunMetricOptions{EnableCPU: rng.IntN(4) > 0, EnableMemory: rng.IntN(5) > 0, UseDerivedCumulative: rng.IntN(2) == 0,
				Prefix: [...]string{"", "", "p_", "a/b/", strings.Repeat("x", 300)}[rng.IntN(5)]}
			from = time.Now()
			err := runmetrics.Enable(o)
			to = time.Now()
			r.Check(err == nil, "enable", "Enable(%+v): %v", o, err)
			on = true
			log += fmt.Sprintf("%+v;", o)
		case k == 5:
			runmetrics.Disable()
			if rng.IntN(2) == 0 {
				runmetrics.Disable()
			}
			on = false
			log += "off;"
		}
		for n := 1 + rng.IntN(3); n > 0; n-- {
			a := observe()
			g := read()
			b := observe()
			r.Check(g.others == 1, "other-producer", "another producer was read %d times", g.others)
			if !on {
				r.Check(len(g.metrics) == 0, "disabled", "%d metrics while disabled", len(g.metrics))
				r.Count("disabled_reads", 1)
				continue
			}
			shape(r, o, g, from, to)
			rising(r, o, g, a, b)
			r.Count("reads", 1)
			if len(g.list) > 0 && len(keep) < 40 {
				k := kept{g: g}
				for _, m := range g.list {
					k.copy = append(k.copy, clone(m))
				}
				keep = append(keep, k)
			}
			if rng.IntN(2) == 0 {
				undo2 := churn(rng)
				defer undo2()
			}
		}
		if on && i%2 == 0 {
			exact(r, o)
		}
		undo()
		r.Eval(log)
		if len(log) > 2000 {
			log = log[1000:]
		}
	}
	for _, k := range keep {
		for i, m := range k.g.list {
			r.Check(reflect.DeepEqual(clone(m), k.copy[i]), "read-changed", "metric %s changed after it was read", m.Descriptor.Name)
		}
		r.Count("kept_reads", 1)
	}
	runmetrics.Disable()
}

func clone(m *metricdata.Metric) metricdata.Metric {
	c := *m
	c.TimeSeries = nil
	for _, ts := range m.TimeSeries {
		t := *ts
		t.Points = append([]metricdata.Point(nil), ts.Points...)
		c.TimeSeries = append(c.TimeSeries, &t)
	}
	return c
}

// identify tells which of the round's options (known by prefix) was read.
func identify(r *mon.Run, opts []runmetrics.RunMetricOptions, g *reading) *runmetrics.RunMetricOptions {
	var found *runmetrics.RunMetricOptions
	for i := range opts {
		for name := range g.metrics {
			if strings.HasPrefix(name, opts[i].Prefix+"process/") {
				r.Check(found == nil, "two-enabled", "metrics of both %+v and %+v in one read", found, opts[i])
				found = &opts[i]
				break
			}
		}
	}
	return found
}

func concurrent(r *mon.Run, rng *rand.Rand) {
	for round := 0; round < r.N(12, 12); round++ {
		r.Case("concurrent %d", round)
		var opts []runmetrics.RunMetricOptions
		for i := 0; i < 4; i++ {
			opts = append(opts, runmetrics.RunMetricOptions{EnableCPU: i%2 == 0, EnableMemory: true, UseDerivedCumulative: i > 1, Prefix: fmt.Sprintf("r%d_", i)})
		}
		churns := round%3 > 0
		start := time.Now()
		runmetrics.Enable(opts[0])
		var stop atomic.Bool
		var wg sync.WaitGroup
		if churns {
			for w := 0; w < 2; w++ {
				wr := rand.New(rand.NewPCG(rng.Uint64(), 1))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for !stop.Load() {
						if wr.IntN(4) == 0 {
							runmetrics.Disable()
						} else if err := runmetrics.Enable(opts[wr.IntN(4)]); err != nil {
							r.Violate("enable", "concurrent Enable: %v", err)
						}
						time.Sleep(time.Duration(wr.IntN(300)) * time.Microsecond)
						r.Progress()
					}
				}()
			}
		}
		r.Par(4, func(n int) {
			last := map[string]float64{}
			for i := 0; i < 60; i++ {
				a := observe()
				g := read()
				b := observe()
				to := time.Now()
				r.Check(g.others == 1, "other-producer", "another producer was read %d times", g.others)
				o := identify(r, opts, g)
				if o == nil {
					r.Check(churns && len(g.metrics) == 0, "enabled-unread", "%d metrics, none of them expected", len(g.metrics))
					r.Count("concurrent_off", 1)
					continue
				}
				shape(r, *o, g, start, to)
				rising(r, *o, g, a, b)
				for _, s := range memory {
					if v := g.value(o.Prefix + "process/" + s.name); s.rising {
						r.Check(v >= last[s.name], "fell", "%+v: %s fell from %v to %v", o, s.name, last[s.name], v)
						last[s.name] = v
					}
				}
				sink2 := make([]byte, 100+i)
				_ = sink2
				r.Count("concurrent_reads", 1)
				r.Progress()
			}
		})
		stop.Store(true)
		wg.Wait()
		runmetrics.Disable()
		g := read()
		r.Check(len(g.metrics) == 0, "disabled", "%d metrics after Disable", len(g.metrics))
		r.Check(len(metricproducer.GlobalManager().GetAll()) == 1, "producer-left", "%d producers left after Disable", len(metricproducer.GlobalManager().GetAll()))
		r.Eval(fmt.Sprint("round", r.Shard, round))
	}
}

func run(r *mon.Run) {
	rng := r.Rand("c23")
	metricproducer.GlobalManager().AddProducer(own{})
	sequential(r, rng)
	concurrent(r, rng)
	r.Require("reads", 100)
	r.Require("exact_values", 200)
	r.Require("snapshots", 300)
	r.Require("concurrent_reads", 500)
	r.Require("disabled_reads", 5)
}
