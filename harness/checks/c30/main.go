// Monitor for C30: the in-memory exporter of metric/test gives exactly the
// newest point of the time series asked for.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/metric/test"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C30", run) }

// The exporter runs keys and values together (see labelsRunTogether): the ones
// used throughout can be told apart all the same.
var (
	keys   = ends("<", "a", "ab", "b", "abc", "k", "k=", "a\"", "{", "}")
	values = ends(">", "", "b", "c", "bc", "a", "abc", "}", "{a", "\"", "é", "1,b=2", "=b", strings.Repeat("v", 300))
	tkeys  = ends("<", "a", "ab", "b", "abc", "k=")
	tvals  = ends(">", "b", "c", "bc", "a", "abc", "}", "{a", "\"", "1,b=2")
)

func ends(end string, of ...string) []string {
	for i := range of {
		of[i] += end
	}
	return of
}

// labelsRunTogether asks for labels whose keys and values, put together, are
// those of other labels.
func labelsRunTogether(r *mon.Run) {
	r.Case("labels run together")
	g := metric.NewRegistry()
	in, err := g.AddInt64Gauge("run-together", metric.WithLabelKeys("ab"))
	if err != nil {
		r.Violate("instrument", "%v", err)
		return
	}
	e, err := in.GetEntry(metricdata.NewLabelValue("c"))
	if err != nil {
		r.Violate("instrument", "%v", err)
		return
	}
	e.Set(1)
	x := test.NewExporter(metricexport.NewReader())
	x.ExportMetrics(context.Background(), g.Read())
	_, ok := x.GetPoint("run-together", map[string]string{"ab": "c"})
	r.Check(ok, "presence", "GetPoint of an exported series reports false")
	_, ok = x.GetPoint("run-together", map[string]string{"a": "bc"})
	r.Check(!ok, "labels-run-together:ab=c,a=bc", "GetPoint gives the point of {ab: c} for {a: bc}")
}

// series identifies a time series by its name and present labels.
func series(name string, labels map[string]string) string {
	var ks []string
	for k := range labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := fmt.Sprintf("%q", name)
	for _, k := range ks {
		s += fmt.Sprintf(" %q=%q", k, labels[k])
	}
	return s
}

// point is a point as the model has it.
type point struct {
	v    any // int64, float64, or the values of a distribution
	from time.Time
	to   time.Time
}

type dist struct {
	n   int64
	sum float64
}

// world is everything there is to be read.
type world struct {
	r      *mon.Run
	rng    *rand.Rand
	now    map[string]any // values of the series there are, by owner
	labels map[string]map[string]string
	names  map[string]string // by series
	owner  map[string]int
	regs   []*registry
	views  []*viewed
	raw    *raw
	pool   []string
	log    []string
}

func (w *world) set(owner int, name string, labels map[string]string, v any) string {
	s := series(name, labels)
	w.now[s], w.labels[s], w.names[s], w.owner[s] = v, labels, name, owner
	return s
}

type inst struct {
	name string
	kind int
	keys []string
	i    *metric.Int64Gauge
	f    *metric.Float64Gauge
	ic   *metric.Int64Cumulative
	fc   *metric.Float64Cumulative
	id   *metric.Int64DerivedGauge
	held map[string]*atomic.Int64
}

type registry struct {
	id    int
	reg   *metric.Registry
	insts []*inst
	on    bool
}

func (w *world) name() string {
	n := w.pool[0]
	w.pool = w.pool[1:]
	return n
}

func (w *world) some(from []string, n int) []string {
	var out []string
	for _, i := range w.rng.Perm(len(from))[:n] {
		out = append(out, from[i])
	}
	return out
}

func (w *world) newRegistry(id int) {
	g := &registry{id: id, reg: metric.NewRegistry()}
	for k := 1 + w.rng.IntN(3); k > 0; k-- {
		in := &inst{name: w.name(), kind: w.rng.IntN(5), keys: w.some(keys, w.rng.IntN(4)), held: map[string]*atomic.Int64{}}
		o := metric.WithLabelKeys(in.keys...)
		var err error
		switch in.kind {
		case 0:
			in.i, err = g.reg.AddInt64Gauge(in.name, o)
		case 1:
			in.f, err = g.reg.AddFloat64Gauge(in.name, o)
		case 2:
			in.ic, err = g.reg.AddInt64Cumulative(in.name, o)
		case 3:
			in.fc, err = g.reg.AddFloat64Cumulative(in.name, o)
		case 4:
			in.id, err = g.reg.AddInt64DerivedGauge(in.name, o)
		}
		if err != nil {
			w.r.Violate("instrument", "%v", err)
		}
		g.insts = append(g.insts, in)
	}
	metricproducer.GlobalManager().AddProducer(g.reg)
	g.on = true
	w.regs = append(w.regs, g)
}

// change sets or increments one entry of one instrument.
func (w *world) change() {
	g := w.regs[w.rng.IntN(len(w.regs))]
	in := g.insts[w.rng.IntN(len(g.insts))]
	labels := map[string]string{}
	var lv []metricdata.LabelValue
	for _, k := range in.keys {
		if w.rng.IntN(4) == 0 {
			lv = append(lv, metricdata.LabelValue{})
			continue
		}
		v := values[w.rng.IntN(len(values))]
		labels[k] = v
		lv = append(lv, metricdata.NewLabelValue(v))
	}
	n := 1 + w.rng.Int64N(1000)
	s := series(in.name, labels)
	old := w.now[s]
	switch in.kind {
	case 0:
		e, err := in.i.GetEntry(lv...)
		if err != nil {
			w.r.Violate("instrument", "%v", err)
			return
		}
		e.Set(n)
		w.set(g.id, in.name, labels, n)
	case 1:
		e, err := in.f.GetEntry(lv...)
		if err != nil {
			w.r.Violate("instrument", "%v", err)
			return
		}
		e.Set(float64(n))
		w.set(g.id, in.name, labels, float64(n))
	case 2:
		e, err := in.ic.GetEntry(lv...)
		if err != nil {
			w.r.Violate("instrument", "%v", err)
			return
		}
		e.Inc(n)
		o, _ := old.(int64)
		w.set(g.id, in.name, labels, o+n)
	case 3:
		e, err := in.fc.GetEntry(lv...)
		if err != nil {
			w.r.Violate("instrument", "%v", err)
			return
		}
		e.Inc(float64(n))
		o, _ := old.(float64)
		w.set(g.id, in.name, labels, o+float64(n))
	case 4:
		h := in.held[s]
		if h == nil {
			h = &atomic.Int64{}
			in.held[s] = h
			if err := in.id.UpsertEntry(h.Load, lv...); err != nil {
				w.r.Violate("instrument", "%v", err)
				return
			}
		}
		h.Store(n)
		w.set(g.id, in.name, labels, n)
	}
	w.log = append(w.log, fmt.Sprintf("%s=%d", s[:min(len(s), 40)], n))
}

// viewed is a view of the default meter with its measure.
type viewed struct {
	id   int
	v    *view.View
	m    *stats.Int64Measure
	kind int
}

func (w *world) newView(id int) {
	x := &viewed{id: id, kind: w.rng.IntN(4), m: stats.Int64(vm.Unique("c30"), "", "1")}
	x.v = &view.View{Name: w.name(), Measure: x.m, Aggregation: []*view.Aggregation{view.Count(), view.Sum(), view.LastValue(), view.Distribution(10, 100)}[x.kind]}
	for _, k := range w.some(tkeys, w.rng.IntN(4)) {
		x.v.TagKeys = append(x.v.TagKeys, tag.MustNewKey(k))
	}
	if err := view.Register(x.v); err != nil {
		w.r.Violate("register", "%v", err)
	}
	w.views = append(w.views, x)
}

// record makes recordings from several goroutines at once.
func (w *world) record() {
	x := w.views[w.rng.IntN(len(w.views))]
	labels := map[string]string{}
	var mut []tag.Mutator
	for _, k := range x.v.TagKeys {
		if w.rng.IntN(4) > 0 {
			v := tvals[w.rng.IntN(len(tvals))]
			labels[k.Name()] = v
			mut = append(mut, tag.Upsert(k, v))
		}
	}
	ctx, err := tag.New(context.Background(), mut...)
	if err != nil {
		w.r.Violate("tags", "%v", err)
		return
	}
	g, per := 1+w.rng.IntN(4), 1+w.rng.IntN(20)
	val := w.rng.Int64N(200)
	w.r.Par(g, func(int) {
		for i := 0; i < per; i++ {
			stats.Record(ctx, x.m.M(val))
		}
	})
	n := int64(g * per)
	s := series(x.v.Name, labels)
	switch x.kind {
	case 0:
		o, _ := w.now[s].(int64)
		w.set(x.id, x.v.Name, labels, o+n)
	case 1:
		o, _ := w.now[s].(int64)
		w.set(x.id, x.v.Name, labels, o+n*val)
	case 2:
		w.set(x.id, x.v.Name, labels, val)
	case 3:
		o, _ := w.now[s].(dist)
		w.set(x.id, x.v.Name, labels, dist{o.n + n, o.sum + float64(n*val)})
	}
	w.r.Count("recordings", int(n))
	w.log = append(w.log, fmt.Sprintf("record %d %s", n, s[:min(len(s), 40)]))
}

// raw is a producer of made-up metrics: several points per series, label keys
// in any order, metrics without series.
type raw struct {
	id    int
	names []string
	w     *world
	data  []*metricdata.Metric
}

func (p *raw) Read() []*metricdata.Metric { return p.data }

func (w *world) remake() {
	p := w.raw
	for s, o := range w.owner {
		if o == p.id {
			delete(w.now, s)
			delete(w.owner, s)
		}
	}
	p.data = nil
	for _, name := range p.names {
		m := &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: name, Type: metricdata.TypeGaugeFloat64}}
		ks := w.some(keys, w.rng.IntN(4))
		for _, k := range ks {
			m.Descriptor.LabelKeys = append(m.Descriptor.LabelKeys, metricdata.LabelKey{Key: k})
		}
		seen := map[string]bool{}
		for n := w.rng.IntN(4); n > 0; n-- {
			ts := &metricdata.TimeSeries{}
			labels := map[string]string{}
			for _, k := range ks {
				lv := metricdata.LabelValue{}
				if w.rng.IntN(4) > 0 {
					lv = metricdata.NewLabelValue(values[w.rng.IntN(len(values))])
					labels[k] = lv.Value
				}
				ts.LabelValues = append(ts.LabelValues, lv)
			}
			s := series(name, labels)
			if seen[s] {
				continue
			}
			seen[s] = true
			var v float64
			for k := 1 + w.rng.IntN(3); k > 0; k-- {
				v = w.rng.Float64()
				ts.Points = append(ts.Points, metricdata.NewFloat64Point(time.Now(), v))
			}
			m.TimeSeries = append(m.TimeSeries, ts)
			w.set(p.id, name, labels, v)
		}
		p.data = append(p.data, m)
	}
	w.log = append(w.log, "remake")
}

type subject struct {
	e    *test.Exporter
	want map[string]point
	held []heldPoint
}

type heldPoint struct {
	p metricdata.Point
	v any
}

func plain(p metricdata.Point) any {
	switch v := p.Value.(type) {
	case *metricdata.Distribution:
		return dist{v.Count, v.Sum}
	default:
		return v
	}
}

// take brings the model up to date with a read of the given owners.
func (w *world) take(x *subject, t0, t1 time.Time, read func(owner int) bool) {
	for s, v := range w.now {
		if read(w.owner[s]) {
			x.want[s] = point{v, t0, t1}
		}
	}
}

func (w *world) on(owner int) bool {
	for _, g := range w.regs {
		if g.id == owner {
			return g.on
		}
	}
	return true
}

func (w *world) verify(x *subject) {
	ask := func(name string, labels map[string]string) {
		s := series(name, labels)
		p, ok := x.e.GetPoint(name, labels)
		want, in := x.want[s]
		if ok != in {
			w.r.Violate("presence", "GetPoint(%s) reports %v with %v, want %v; operations %v", s, ok, p.Value, in, w.log)
			return
		}
		if !in {
			w.r.Count("absent_asked", 1)
			return
		}
		got := plain(p)
		if d, ok := want.v.(dist); ok {
			g, _ := got.(dist)
			w.r.Check(g.n == d.n && vm.Close(g.sum, d.sum, d.sum), "value", "GetPoint(%s) gives %v, want %v", s, got, d)
		} else {
			w.r.Check(got == want.v, "value", "GetPoint(%s) gives %v (%T), want %v (%T); operations %v", s, got, got, want.v, want.v, w.log)
		}
		w.r.Count("points_asked", 1)
		if len(x.held) < 40 {
			x.held = append(x.held, heldPoint{p, got})
		}
	}
	for s, l := range w.labels {
		ask(w.names[s], l)
	}
	for i := 0; i < 40; i++ {
		l := map[string]string{}
		for _, k := range w.some(keys, w.rng.IntN(4)) {
			l[k] = values[w.rng.IntN(len(values))]
		}
		name := "never"
		for _, n := range w.names {
			name = n
			break
		}
		ask(name, l)
	}
	for _, h := range x.held {
		w.r.Check(plain(h.p) == h.v, "changed", "a point given earlier changed from %v to %v", h.v, plain(h.p))
	}
}

func history(r *mon.Run, rng *rand.Rand, c int) {
	r.Case("history %d", c)
	w := &world{r: r, rng: rng, now: map[string]any{}, labels: map[string]map[string]string{}, names: map[string]string{}, owner: map[string]int{}}
	base := vm.Unique("m")
	for _, s := range []string{"", "a", "ab", "abc", "{", "{a", "{ab", "}", "{}", "\"", "b", "bc", "k", "k=", "{k", "{b", "{bc"} {
		w.pool = append(w.pool, base+s)
	}
	rng.Shuffle(len(w.pool), func(i, j int) { w.pool[i], w.pool[j] = w.pool[j], w.pool[i] })
	id := 0
	for n := 1 + rng.IntN(3); n > 0; n-- {
		w.newRegistry(id)
		id++
	}
	for n := 1 + rng.IntN(3); n > 0; n-- {
		w.newView(id)
		id++
	}
	w.raw = &raw{id: id, names: []string{w.name(), w.name()}, w: w}
	metricproducer.GlobalManager().AddProducer(w.raw)
	xs := []*subject{}
	for i := 0; i < 2; i++ {
		xs = append(xs, &subject{e: test.NewExporter(metricexport.NewReader()), want: map[string]point{}})
	}
	for i := 15 + rng.IntN(25); i > 0; i-- {
		r.Progress()
		switch rng.IntN(10) {
		case 0, 1, 2, 3:
			for k := rng.IntN(5); k >= 0; k-- {
				w.change()
			}
		case 4, 5:
			w.record()
		case 6:
			w.remake()
		case 7:
			g := w.regs[rng.IntN(len(w.regs))]
			if g.on {
				metricproducer.GlobalManager().DeleteProducer(g.reg)
			} else {
				metricproducer.GlobalManager().AddProducer(g.reg)
			}
			g.on = !g.on
			w.log = append(w.log, "toggle")
		case 8:
			x, g := xs[rng.IntN(2)], w.regs[rng.IntN(len(w.regs))]
			t0 := time.Now()
			if err := x.e.ExportMetrics(context.Background(), g.reg.Read()); err != nil {
				r.Violate("export", "%v", err)
			}
			w.take(x, t0, time.Now(), func(o int) bool { return o == g.id })
			w.log = append(w.log, "export one")
			w.verify(x)
		case 9:
			x := xs[rng.IntN(2)]
			t0 := time.Now()
			x.e.ReadAndExport()
			w.take(x, t0, time.Now(), w.on)
			w.log = append(w.log, "read")
			r.Count("reads", 1)
			w.verify(xs[0])
			w.verify(xs[1])
			_ = x.e.String()
		}
	}
	for _, x := range xs {
		x.e.ReadAndExport()
		w.take(x, time.Time{}, time.Now(), w.on)
		w.verify(x)
	}
	for _, g := range w.regs {
		metricproducer.GlobalManager().DeleteProducer(g.reg)
	}
	metricproducer.GlobalManager().DeleteProducer(w.raw)
	for _, x := range w.views {
		view.Unregister(x.v)
	}
	r.Eval(fmt.Sprint(w.log))
	if c == 0 {
		r.Sample(w.log)
	}
}

// flood records from many goroutines faster than the views take it in.
func flood(r *mon.Run, rng *rand.Rand) {
	m := stats.Int64(vm.Unique("flood"), "", "1")
	var vs []*view.View
	for i := 0; i < 20; i++ {
		vs = append(vs, &view.View{Name: vm.Unique("flood"), Measure: m, Aggregation: []*view.Aggregation{view.Sum(), view.Count()}[i%2]})
	}
	if err := view.Register(vs...); err != nil {
		r.Broken("register: %v", err)
		return
	}
	defer view.Unregister(vs...)
	e := test.NewExporter(metricexport.NewReader())
	var n int64
	for c := 0; c < r.N(6, 20); c++ {
		r.Case("flood %d", c)
		k := 300 + rng.IntN(900)
		fs := make([]func(), 8)
		for g := range fs {
			fs[g] = func() {
				for i := 0; i < k; i++ {
					stats.Record(context.Background(), m.M(1))
				}
			}
		}
		r.Go(fs...)
		n += int64(k * len(fs))
		e.ReadAndExport()
		for _, v := range vs {
			p, ok := e.GetPoint(v.Name, nil)
			r.Check(ok && p.Value == any(n), "point-stale", "after %d recordings of 1 from %d goroutines, view %s says %v (%v)", n, len(fs), v.Name, p.Value, ok)
		}
		r.Count("flood_recordings", k*len(fs))
		r.Progress()
	}
}

func run(r *mon.Run) {
	rng := r.Rand("c30")
	for c := 0; c < r.N(60, 25); c++ {
		history(r, rng, c)
	}
	flood(r, r.Rand("flood"))
	labelsRunTogether(r)
	r.Require("flood_recordings", 1000)
	r.Require("reads", 50)
	r.Require("recordings", 500)
	r.Require("points_asked", 1000)
	r.Require("absent_asked", 1000)
}
