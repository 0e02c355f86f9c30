// Monitor for C16: views read as metrics say what the views' rows say.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C16", run) }

func wantType(v *vm.View) metricdata.Type {
	i := v.M.I != nil
	switch v.Type {
	case view.AggTypeCount:
		return metricdata.TypeCumulativeInt64
	case view.AggTypeSum:
		if i {
			return metricdata.TypeCumulativeInt64
		}
		return metricdata.TypeCumulativeFloat64
	case view.AggTypeLastValue:
		if i {
			return metricdata.TypeGaugeInt64
		}
		return metricdata.TypeGaugeFloat64
	}
	return metricdata.TypeCumulativeDistribution
}

func wantUnit(v *vm.View) metricdata.Unit {
	if v.Type != view.AggTypeCount {
		switch v.M.Unit {
		case "ms":
			return metricdata.UnitMilliseconds
		case "By":
			return metricdata.UnitBytes
		}
	}
	return metricdata.UnitDimensionless
}

// visitor tells which kind of value a point has.
type visitor struct {
	i *int64
	f *float64
	d *metricdata.Distribution
	s *metricdata.Summary
}

func (v *visitor) VisitFloat64Value(x float64)                       { v.f = &x }
func (v *visitor) VisitInt64Value(x int64)                           { v.i = &x }
func (v *visitor) VisitDistributionValue(x *metricdata.Distribution) { v.d = x }
func (v *visitor) VisitSummaryValue(x *metricdata.Summary)           { v.s = x }

// diff compares a metric, read within [t0,t1], with the model of its view.
func diff(v *vm.View, m *metricdata.Metric, res *resource.Resource, t0, t1 time.Time) string {
	d := m.Descriptor
	if d.Name != v.V.Name || d.Description != v.V.Description || d.Unit != wantUnit(v) || d.Type != wantType(v) {
		return fmt.Sprintf("descriptor %+v of %s over %s, unit %q", d, v.Type, v.M.Name, v.M.Unit)
	}
	var keys []string
	for _, k := range d.LabelKeys {
		keys = append(keys, k.Key)
	}
	if fmt.Sprint(keys) != fmt.Sprint(v.Keys) {
		return fmt.Sprintf("label keys %v want %v", keys, v.Keys)
	}
	if !reflect.DeepEqual(m.Resource, res) {
		return fmt.Sprintf("resource %v want %v", m.Resource, res)
	}
	if len(m.TimeSeries) != len(v.Rows) {
		return fmt.Sprintf("%d time series for %d rows", len(m.TimeSeries), len(v.Rows))
	}
	seen := map[string]bool{}
	for _, ts := range m.TimeSeries {
		if len(ts.LabelValues) != len(keys) || len(ts.Points) != 1 {
			return fmt.Sprintf("%d labels, %d points", len(ts.LabelValues), len(ts.Points))
		}
		tags := map[string]string{}
		for i, l := range ts.LabelValues {
			if l.Present {
				tags[keys[i]] = l.Value
				if l.Value == "" {
					return fmt.Sprintf("label %s present but empty", keys[i])
				}
			} else if l.Value != "" {
				return fmt.Sprintf("absent label %s has value %q", keys[i], l.Value)
			}
		}
		var row *vm.Row
		id := fmt.Sprint(tags)
		for _, x := range v.Rows {
			if fmt.Sprint(x.Tags) == id {
				row = x
			}
		}
		if row == nil || seen[id] {
			return fmt.Sprintf("time series with labels %v: no such row, or twice", tags)
		}
		seen[id] = true
		p := ts.Points[0]
		if p.Time.Before(t0) || p.Time.After(t1) || !p.Time.Equal(m.TimeSeries[0].Points[0].Time) {
			return fmt.Sprintf("point time %v, read within [%v,%v]", p.Time, t0, t1)
		}
		if v.Type == view.AggTypeLastValue {
			if !ts.StartTime.IsZero() {
				return "a gauge has a start time"
			}
		} else if ts.StartTime.Before(row.T0) || ts.StartTime.After(row.T1) {
			return fmt.Sprintf("start time %v, first recorded within [%v,%v]", ts.StartTime, row.T0, row.T1)
		}
		n, sum, _, ssd, _, _, ma := row.Summary()
		var got visitor
		p.ReadValue(&got)
		switch t := wantType(v); t {
		case metricdata.TypeCumulativeInt64, metricdata.TypeGaugeInt64:
			want := n
			if v.Type == view.AggTypeSum {
				want = int64(sum)
			} else if v.Type == view.AggTypeLastValue {
				want = int64(row.Vals[n-1])
			}
			if got.i == nil || *got.i != want {
				return fmt.Sprintf("%s point %v want int64 %d", v.Type, p.Value, want)
			}
		case metricdata.TypeCumulativeFloat64, metricdata.TypeGaugeFloat64:
			want := sum
			if v.Type == view.AggTypeLastValue {
				want, ma = row.Vals[n-1], 0
			}
			if got.f == nil || !vm.Close(*got.f, want, float64(n)*ma) {
				return fmt.Sprintf("%s point %v want float64 %v", v.Type, p.Value, want)
			}
		default:
			g := got.d
			if g == nil || g.Count != n || !vm.Close(g.Sum, sum, float64(n)*ma) || !vm.Close(g.SumOfSquaredDeviation, ssd, float64(n)*ma*ma) {
				return fmt.Sprintf("distribution point %+v want count %d sum %v ssd %v", g, n, sum, ssd)
			}
			if g.BucketOptions == nil || fmt.Sprint(g.BucketOptions.Bounds) != fmt.Sprint(v.Bounds) {
				return fmt.Sprintf("bounds %v want %v", g.BucketOptions, v.Bounds)
			}
			want := v.Buckets(row)
			if len(g.Buckets) != len(want) {
				return fmt.Sprintf("%d buckets for %d bounds", len(g.Buckets), len(v.Bounds))
			}
			for i, b := range g.Buckets {
				w := row.Ex[i]
				if b.Count != want[i] || (b.Exemplar == nil) != (w == nil) {
					return fmt.Sprintf("bucket %d: %+v want count %d exemplar %v", i, b, want[i], w)
				}
				if e := b.Exemplar; e != nil && (e.Value != w.Value || fmt.Sprint(map[string]any(e.Attachments)) != fmt.Sprint(w.Att) || e.Timestamp.Before(w.T0) || e.Timestamp.After(w.T1)) {
					return fmt.Sprintf("bucket %d: exemplar %+v want %+v", i, e, w)
				}
			}
		}
	}
	return ""
}

type frozen struct {
	v      *vm.View
	m      *metricdata.Metric
	res    *resource.Resource
	t0, t1 time.Time
}

func cloneView(v *vm.View) *vm.View {
	c := *v
	c.Rows = map[string]*vm.Row{}
	for k, r := range v.Rows {
		rc := *r
		rc.Vals = append([]float64{}, r.Vals...)
		rc.Ex = map[int]*vm.Exemplar{}
		for i, e := range r.Ex {
			rc.Ex[i] = e
		}
		c.Rows[k] = &rc
	}
	return &c
}

func history(r *mon.Run, rng *rand.Rand, c int) {
	var m view.Meter
	register, unregister := view.Register, view.Unregister
	retrieve := view.RetrieveData
	var res *resource.Resource
	if c%4 != 0 {
		m = view.NewMeter()
		m.Start()
		defer m.Stop()
		register, unregister, retrieve = m.Register, m.Unregister, m.RetrieveData
	}
	keys := vm.Keys(1 + rng.IntN(4))
	ms := []*vm.Measure{vm.NewMeasure(rng), vm.NewMeasure(rng)}
	var reg []*vm.View
	var log []string
	var old []frozen
	logf := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	add := func() {
		v := vm.NewView(rng, ms[rng.IntN(2)], keys)
		if rng.IntN(3) == 0 {
			v.V.Description = ""
		}
		if err := register(v.V); err != nil {
			r.Violate("register", "%v", err)
			return
		}
		if v.V.Description == "" {
			r.Violate("descriptor", "the description does not default to the measure's")
		}
		logf("register %s %s(%s) unit %q bounds %v keys %v", v.V.Name, v.Type, v.M.Name, v.M.Unit, v.Bounds, v.Keys)
		reg = append(reg, v)
	}
	for k := 1 + rng.IntN(4); k > 0; k-- {
		add()
	}
	check := func() {
		// Retrieval waits for what was recorded.
		if len(reg) > 0 {
			retrieve(reg[0].V.Name)
		}
		var got []*metricdata.Metric
		t0 := time.Now()
		if m != nil {
			got = m.(metricproducer.Producer).Read()
		} else {
			for _, p := range metricproducer.GlobalManager().GetAll() {
				got = append(got, p.Read()...)
			}
		}
		t1 := time.Now()
		byName := map[string]*metricdata.Metric{}
		for _, x := range got {
			if byName[x.Descriptor.Name] != nil {
				r.Violate("metrics", "metric %s is read twice", x.Descriptor.Name)
			}
			byName[x.Descriptor.Name] = x
		}
		n := 0
		for _, v := range reg {
			x := byName[v.V.Name]
			if len(v.Rows) == 0 {
				r.Check(x == nil, "metrics", "a view without rows is read as %+v", x)
				continue
			}
			n++
			if x == nil {
				r.Violate("metrics", "view %s with %d rows is not read; ops %s", v.V.Name, len(v.Rows), strings.Join(log, "; "))
				continue
			}
			if d := diff(v, x, res, t0, t1); d != "" {
				r.Violate("metric", "view %s %s(%s) keys %v: %s; ops %s", v.V.Name, v.Type, v.M.Name, v.Keys, d, strings.Join(log, "; "))
			}
			r.Count("series_compared", len(x.TimeSeries))
			if rng.IntN(3) == 0 {
				old = append(old, frozen{cloneView(v), x, res, t0, t1})
			}
		}
		if m != nil && len(got) != n {
			r.Violate("metrics", "%d metrics read for %d views with rows", len(got), n)
		}
	}
	for i := 15 + rng.IntN(80); i > 0; i-- {
		switch rng.IntN(14) {
		case 0:
			add()
		case 1:
			if len(reg) > 1 {
				j := rng.IntN(len(reg))
				unregister(reg[j].V)
				logf("unregister %s", reg[j].V.Name)
				if rng.IntN(2) == 0 { // and back
					reg[j].Rows = map[string]*vm.Row{}
					if err := register(reg[j].V); err != nil {
						r.Violate("register", "%v", err)
					}
				} else {
					name := reg[j].V.Name
					reg = append(reg[:j:j], reg[j+1:]...)
					if m != nil {
						for _, x := range m.(metricproducer.Producer).Read() {
							r.Check(x.Descriptor.Name != name, "metrics", "an unregistered view is read")
						}
					}
				}
			}
		case 2:
			if m != nil {
				res = nil
				if rng.IntN(4) > 0 {
					res = &resource.Resource{Type: fmt.Sprint("t", rng.IntN(100))}
				}
				m.SetResource(res)
				logf("resource %v", res)
			}
		case 3, 4:
			check()
		default:
			_, muts, tags := vm.Tags(rng, keys)
			me := ms[rng.IntN(2)]
			x := vm.Value(rng)
			var att map[string]any
			opts := []stats.Options{stats.WithTags(muts...), stats.WithMeasurements(me.M(x))}
			if rng.IntN(3) == 0 {
				att = map[string]any{"id": rng.Uint32()}
				opts = append(opts, stats.WithAttachments(metricdata.Attachments{"id": att["id"]}))
			}
			if m != nil {
				opts = append(opts, stats.WithRecorder(m))
			}
			t0 := time.Now()
			if err := stats.RecordWithOptions(context.Background(), opts...); err != nil {
				r.Violate("record", "%v", err)
			}
			t1 := time.Now()
			for _, v := range reg {
				if v.M == me {
					v.Add(tags, me.Value(x), att, t0, t1)
				}
			}
			logf("record %s %v %d tags att %v", me.Name, me.Value(x), len(tags), att != nil)
			r.Count("recorded", 1)
		}
	}
	check()
	for _, f := range old {
		if d := diff(f.v, f.m, f.res, f.t0, f.t1); d != "" {
			r.Violate("metric-changed", "a metric read earlier changed: %s", d)
		}
		r.Count("snapshots_rechecked", 1)
	}
	if m == nil {
		for _, v := range reg {
			unregister(v.V)
		}
	}
	r.Eval(strings.Join(log, ";"))
	if c == 5 {
		r.Sample(log[:min(len(log), 25)])
	}
}

// concurrent reads while views, resources and recordings change.
func concurrent(r *mon.Run, rng *rand.Rand, c int) {
	m := view.NewMeter()
	m.Start()
	defer m.Stop()
	me := stats.Int64(vm.Unique("conc"), "d", "ms")
	key := tag.MustNewKey(vm.Unique("k"))
	agg := view.Distribution(1, 5)
	rs := []*resource.Resource{{Type: "a", Labels: map[string]string{"n": "a"}}, {Type: "b", Labels: map[string]string{"n": "b"}}}
	m.SetResource(rs[0])
	seed := rng.Uint64()
	stop := make(chan struct{})
	name := vm.Unique("cv")
	views := make([]*view.View, 4)
	for i := range views {
		views[i] = &view.View{Name: fmt.Sprint(name, i), Measure: me, Aggregation: agg, TagKeys: []tag.Key{key}}
	}
	r.Go(func() {
		defer close(stop)
		rng := rand.New(rand.NewPCG(seed, 1))
		for i := 0; i < 400; i++ {
			v := views[rng.IntN(4)]
			switch rng.IntN(4) {
			case 0:
				m.Register(v)
			case 1:
				m.Unregister(v)
			case 2:
				m.SetResource(rs[rng.IntN(2)])
			default:
				stats.RecordWithOptions(context.Background(), stats.WithRecorder(m), stats.WithTags(tag.Upsert(key, fmt.Sprint(rng.IntN(3)))),
					stats.WithMeasurements(me.M(int64(rng.IntN(10)))), stats.WithAttachments(map[string]any{"i": i}))
			}
			if i%50 == 0 {
				r.Progress()
			}
		}
	}, func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			got := m.(metricproducer.Producer).Read()
			for _, x := range got {
				r.Check(reflect.DeepEqual(x.Resource, got[0].Resource) && (reflect.DeepEqual(x.Resource, rs[0]) || reflect.DeepEqual(x.Resource, rs[1])), "metric", "resource %v", x.Resource)
				r.Check(x.Descriptor.Unit == metricdata.UnitMilliseconds && len(x.TimeSeries) > 0, "metric", "metric %+v", x)
				for _, ts := range x.TimeSeries {
					d := ts.Points[0].Value.(*metricdata.Distribution)
					var n int64
					for _, b := range d.Buckets {
						n += b.Count
						if b.Exemplar != nil && b.Count == 0 {
							r.Violate("metric", "an empty bucket has an exemplar")
						}
					}
					r.Check(n == d.Count && d.Count > 0, "metric", "buckets hold %d of %d", n, d.Count)
				}
			}
			r.Count("concurrent_reads", 1)
		}
	})
	r.Eval(fmt.Sprint(c, seed))
}

func run(r *mon.Run) {
	rng := r.Rand("history")
	for _, k := range []string{"series_compared", "recorded", "snapshots_rechecked", "concurrent_reads"} {
		r.Require(k, 1)
	}
	for c := 0; c < r.N(300, 40); c++ {
		r.Case("history %d", c)
		history(r, rng, c)
	}
	for c := 0; c < r.N(15, 30); c++ {
		r.Case("concurrent %d", c)
		concurrent(r, rng, c)
	}
}
