// Monitor for C15: the life cycle of views, exporters and meters.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C15", run) }

// api is the default meter's functions or an own meter.
type api struct {
	m view.Meter // nil: the default one
}

func (a api) register(vs ...*view.View) error {
	if a.m == nil {
		return view.Register(vs...)
	}
	return a.m.Register(vs...)
}
func (a api) unregister(vs ...*view.View) {
	if a.m == nil {
		view.Unregister(vs...)
	} else {
		a.m.Unregister(vs...)
	}
}
func (a api) find(n string) *view.View {
	if a.m == nil {
		return view.Find(n)
	}
	return a.m.Find(n)
}
func (a api) period(d time.Duration) {
	if a.m == nil {
		view.SetReportingPeriod(d)
	} else {
		a.m.SetReportingPeriod(d)
	}
}
func (a api) stop() {
	if a.m == nil {
		view.Stop()
	} else {
		a.m.Stop()
	}
}
func (a api) regExp(e view.Exporter) {
	if a.m == nil {
		view.RegisterExporter(e)
	} else {
		a.m.RegisterExporter(e)
	}
}
func (a api) unregExp(e view.Exporter) {
	if a.m == nil {
		view.UnregisterExporter(e)
	} else {
		a.m.UnregisterExporter(e)
	}
}
func (a api) rows(n string) ([]*view.Row, error) {
	if a.m == nil {
		return view.RetrieveData(n)
	}
	return a.m.RetrieveData(n)
}
func (a api) record(ctx context.Context, ms ...stats.Measurement) error {
	if a.m == nil {
		stats.Record(ctx, ms...)
		return nil
	}
	return stats.RecordWithOptions(ctx, stats.WithRecorder(a.m), stats.WithMeasurements(ms...))
}

// got is one delivery.
type got struct {
	d    *view.Data
	t    time.Time
	text string // the rows as they were
}

// exporter records its deliveries, and complains by itself about calls when
// it is not registered, for views that are not, or at the same time.
type exporter struct {
	r      *mon.Run
	w      *world
	name   string
	active atomic.Bool
	busy   atomic.Int32
	mu     sync.Mutex
	got    []got
	ends   map[string]time.Time
	n      atomic.Int64
	nap    time.Duration
}

// world is what the monitor knows to be registered.
type world struct {
	mu   sync.Mutex
	gone map[*view.View]bool         // not registered: Unregister has returned
	at   map[*view.View][2]time.Time // registered within
}

func (e *exporter) ExportView(d *view.Data) {
	t := time.Now()
	if e.busy.Add(1) != 1 {
		e.r.Violate("concurrent-export", "ExportView is called concurrently")
	}
	defer e.busy.Add(-1)
	if !e.active.Load() {
		e.r.Violate("export-after-unregister", "export to %s, which is not registered", e.name)
	}
	if e.nap > 0 {
		time.Sleep(e.nap)
	}
	e.w.mu.Lock()
	gone := e.w.gone[d.View]
	at, known := e.w.at[d.View]
	e.w.mu.Unlock()
	if gone {
		e.r.Violate("export-after-unregister", "export of view %s, which is unregistered", d.View.Name)
	}
	if known {
		e.r.Check(!d.Start.Before(at[0]) && (at[1].IsZero() || !d.Start.After(at[1])), "export-start", "start %v, registered within %v", d.Start, at)
	}
	e.r.Check(!d.End.Before(d.Start), "export-times", "end %v before start %v", d.End, d.Start)
	e.r.Check(!d.End.After(t), "export-times", "end %v in the future", d.End)
	e.n.Add(1)
	e.mu.Lock()
	defer e.mu.Unlock()
	p := e.ends[d.View.Name]
	e.r.Check(!d.End.Before(p), "export-times", "end %v before the previous export's %v", d.End, p)
	e.ends[d.View.Name] = d.End
	e.got = append(e.got, got{d, t, text(d.Rows)})
}

func (e *exporter) take() []got {
	e.mu.Lock()
	defer e.mu.Unlock()
	g := e.got
	e.got = nil
	return g
}

func text(rows []*view.Row) string {
	var sb strings.Builder
	for _, r := range rows {
		fmt.Fprintf(&sb, "%v ", r.Tags)
		switch d := r.Data.(type) {
		case *view.DistributionData:
			fmt.Fprintf(&sb, "%d %v %v %v %v %v", d.Count, d.Min, d.Max, d.Mean, d.SumOfSquaredDev, d.CountPerBucket)
			for _, x := range d.ExemplarsPerBucket {
				if x != nil {
					fmt.Fprintf(&sb, " %v", *x)
				}
			}
		case *view.CountData:
			fmt.Fprintf(&sb, "%d", d.Value)
		case *view.SumData:
			fmt.Fprintf(&sb, "%v", d.Value)
		case *view.LastValueData:
			fmt.Fprintf(&sb, "%v", d.Value)
		}
	}
	return sb.String()
}

const forever = 24 * time.Hour

// history runs random operations from one goroutine, with a model.
func history(r *mon.Run, rng *rand.Rand, c int) {
	var a api
	if c%3 != 0 {
		a.m = view.NewMeter()
		a.m.Start()
		defer a.m.Stop()
	}
	w := &world{gone: map[*view.View]bool{}, at: map[*view.View][2]time.Time{}}
	a.period(forever)
	keys := vm.Keys(2)
	ms := []*vm.Measure{vm.NewMeasure(rng), vm.NewMeasure(rng)}
	var log []string
	logf := func(f string, x ...any) { log = append(log, fmt.Sprintf(f, x...)) }
	bad := func(sig, f string, x ...any) {
		r.Violate(sig, "%s; ops %s", fmt.Sprintf(f, x...), strings.Join(log, "; "))
	}
	var all, reg []*vm.View
	var exps, on []*exporter
	for i := 3 + rng.IntN(12)*(rng.IntN(6)/5); i > 0; i-- {
		exps = append(exps, &exporter{r: r, w: w, name: fmt.Sprint("e", i), ends: map[string]time.Time{}})
	}
	var kept []got
	isReg := func(v *vm.View) bool {
		for _, x := range reg {
			if x == v {
				return true
			}
		}
		return false
	}
	// doReg registers views believed valid, none of them conflicting.
	doReg := func(vs ...*vm.View) {
		var raw []*view.View
		w.mu.Lock()
		now := time.Now()
		for _, v := range vs {
			raw = append(raw, v.V)
			if !isReg(v) {
				w.at[v.V] = [2]time.Time{now}
				delete(w.gone, v.V)
			}
		}
		w.mu.Unlock()
		if err := a.register(raw...); err != nil {
			bad("register", "valid views rejected: %v", err)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, v := range vs {
			if !isReg(v) {
				w.at[v.V] = [2]time.Time{now, time.Now()}
				v.Rows = map[string]*vm.Row{}
				reg = append(reg, v)
			}
			logf("register %s", v.V.Name)
		}
	}
	fresh := func() *vm.View {
		v := vm.NewView(rng, ms[rng.IntN(2)], keys)
		if rng.IntN(3) == 0 { // a view under another's definition, which may be registered
			if len(all) > 0 && rng.IntN(2) == 0 {
				c := *all[rng.IntN(len(all))]
				c.Rows = map[string]*vm.Row{}
				v = &c
			}
			old, was := v.V, *v.V
			was.TagKeys = append(was.TagKeys[:0:0], was.TagKeys...)
			v.V = old.WithName(vm.Unique("renamed"))
			if !reflect.DeepEqual(*old, was) {
				bad("renamed", "WithName changed the view it copies from %+v to %+v", was, *old)
			}
			was.Name = v.V.Name
			if old == v.V || !reflect.DeepEqual(*v.V, was) || !strings.HasPrefix(v.V.Name, "renamed") {
				bad("renamed", "the copy is %+v, want %+v", *v.V, was)
			}
			r.Count("renamed_views", 1)
		}
		all = append(all, v)
		return v
	}
	// drain checks that deliveries since the last drain are of these views, with current rows.
	drain := func(what string, want map[*vm.View]bool, final bool) {
		for _, e := range exps {
			g := e.take()
			isOn := false
			for _, x := range on {
				isOn = isOn || x == e
			}
			seen := map[*vm.View]int{}
			for _, x := range g {
				var v *vm.View
				for _, y := range all {
					if x.d.View == y.V {
						v = y
					}
				}
				if v == nil || !want[v] {
					bad("unexpected-export", "%s: export of %q", what, x.d.View.Name)
					continue
				}
				seen[v]++
				kept = append(kept, x)
				if d := v.DiffRows(x.d.Rows); d != "" {
					bad("export-rows", "%s: view %s: %s", what, v.V.Name, d)
				}
			}
			if isOn {
				for v := range want {
					if final && seen[v] != 1 {
						bad("pending-data", "%s: view %s exported %d times to a registered exporter, not once", what, v.V.Name, seen[v])
					}
				}
			}
			r.Count("exports", len(g))
		}
	}
	doReg(fresh(), fresh())
	for i := 20 + rng.IntN(60); i > 0; i-- {
		switch rng.IntN(14) {
		case 0:
			doReg(fresh())
		case 1: // unregister: pending data goes out first
			if len(reg) == 0 {
				continue
			}
			drain("while nothing was due", nil, false)
			n := 1 + rng.IntN(min(3, len(reg)))
			want := map[*vm.View]bool{}
			var raw []*view.View
			rng.Shuffle(len(reg), func(i, j int) { reg[i], reg[j] = reg[j], reg[i] })
			for _, v := range reg[:n] {
				want[v] = true
				raw = append(raw, v.V)
				logf("unregister %s", v.V.Name)
			}
			reg = append([]*vm.View{}, reg[n:]...)
			if rng.IntN(4) == 0 { // also one that is not registered
				raw = append(raw, &view.View{Name: vm.Unique("none"), Measure: ms[0].S(), Aggregation: view.Count()})
			}
			a.unregister(raw...)
			drain("unregister", want, true)
			w.mu.Lock()
			for v := range want {
				w.gone[v.V] = true
			}
			w.mu.Unlock()
			for v := range want {
				if a.find(v.V.Name) != nil {
					bad("find", "an unregistered view is found")
				}
				if _, err := a.rows(v.V.Name); err == nil {
					bad("find", "rows of an unregistered view")
				}
			}
			r.Count("unregistered", n)
		case 2: // a view comes back, or is registered again
			v := all[rng.IntN(len(all))]
			doReg(v)
			if a.find(v.V.Name) != v.V {
				bad("find", "registered view not found")
			}
		case 3: // conflicts
			if len(reg) == 0 {
				continue
			}
			v := reg[rng.IntN(len(reg))]
			x := &view.View{Name: v.V.Name, Measure: ms[0].S(), Aggregation: v.V.Aggregation, TagKeys: v.V.TagKeys}
			if v.M == ms[0] {
				x.Measure = ms[1].S()
			}
			if rng.IntN(2) == 0 {
				x.Measure, x.Aggregation = v.M.S(), view.Count()
				if v.Type == view.AggTypeCount {
					x.Aggregation = view.Sum()
				}
			}
			extra := fresh()
			w.mu.Lock()
			w.at[extra.V] = [2]time.Time{time.Now()}
			w.mu.Unlock()
			err := a.register(x, extra.V)
			logf("conflict on %s, with %s", v.V.Name, extra.V.Name)
			if err == nil || !strings.Contains(err.Error(), v.V.Name) {
				bad("conflict", "registering a different view named %q gives %v", v.V.Name, err)
			}
			if a.find(v.V.Name) != v.V {
				bad("conflict", "a conflicting registration replaced the view")
			}
			if a.find(extra.V.Name) != extra.V {
				bad("conflict", "a view listed beside a conflicting one is not registered")
			} else {
				w.mu.Lock()
				w.at[extra.V] = [2]time.Time{w.at[extra.V][0], time.Now()}
				w.mu.Unlock()
				reg = append(reg, extra)
			}
			r.Count("conflicts", 1)
		case 4: // invalid views
			good := fresh()
			all = all[:len(all)-1]
			x := &view.View{Name: vm.Unique("bad"), Measure: ms[0].S(), Aggregation: view.Count()}
			kind := rng.IntN(6)
			switch kind {
			case 0:
				x.Measure = nil
			case 1:
				x.Aggregation = nil
			case 2:
				x.Name = strings.Repeat("n", 256)
			case 3:
				x.Name += []string{"\x00", "\n", "é", "\x7f"}[rng.IntN(4)]
			case 4:
				x.Aggregation = view.Distribution([]float64{1, -1, 5, -0.5}[:2+rng.IntN(3)]...)
			case 5: // made by hand: nothing that would hold its data
				x.Aggregation = []*view.Aggregation{{}, {Type: view.AggTypeCount}, {Type: view.AggTypeSum}, {Type: view.AggTypeLastValue}, {Type: view.AggTypeDistribution, Buckets: []float64{1, 2}}}[rng.IntN(5)]
			}
			vs := []*view.View{x, good.V}
			if rng.IntN(2) == 0 {
				vs[0], vs[1] = vs[1], vs[0]
			}
			if a.register(vs...) == nil {
				bad("invalid", "invalid view (kind %d) accepted", kind)
			}
			if a.find(x.Name) != nil || a.find(good.V.Name) != nil {
				bad("invalid", "registration with an invalid view (kind %d) registers something", kind)
			}
			logf("invalid %d", kind)
			r.Count("invalid_views", 1)
		case 5: // names and descriptions default to the measure's
			m := vm.NewMeasure(rng)
			v := &view.View{Measure: m.S(), Aggregation: view.Count()}
			if err := a.register(v); err != nil {
				bad("register", "view without name: %v", err)
			}
			if f := a.find(m.Name); f != v || f.Name != m.Name || f.Description != m.Desc {
				bad("defaults", "view without name or description: %+v", f)
			}
			drain("while nothing was due", nil, false)
			a.unregister(v)
			for _, e := range exps {
				e.take()
			}
		case 6: // exporters come and go
			e := exps[rng.IntN(len(exps))]
			if e.active.Load() && rng.IntN(3) > 0 {
				a.unregExp(e)
				e.active.Store(false)
				for j, x := range on {
					if x == e {
						on = append(on[:j:j], on[j+1:]...)
						break
					}
				}
				if rng.IntN(4) == 0 {
					a.unregExp(e)
				}
				logf("unregister %s", e.name)
			} else {
				if !e.active.Load() {
					on = append(on, e)
				}
				e.active.Store(true)
				a.regExp(e)
				logf("register %s", e.name)
				if rng.IntN(3) == 0 { // twice is once
					a.regExp(e)
				}
			}
		case 7: // periodic reports
			drain("while nothing was due", nil, false)
			if len(on) == 0 || len(reg) == 0 {
				continue
			}
			p := time.Duration(1+rng.IntN(3)) * time.Millisecond
			t0 := time.Now()
			a.period(p)
			want := map[*vm.View]bool{}
			for _, v := range reg {
				want[v] = true
			}
			missing := func() string {
				for _, e := range on {
					e.mu.Lock()
					have := map[*view.View]int{}
					for _, g := range e.got {
						have[g.d.View]++
					}
					e.mu.Unlock()
					for _, v := range reg {
						if have[v.V] < 2 {
							return e.name + " lacks " + v.V.Name
						}
					}
				}
				return ""
			}
			for missing() != "" && time.Since(t0) < 20*time.Second {
				time.Sleep(p / 2)
			}
			if m := missing(); m != "" {
				bad("period", "not exported within 20 s at a period of %v: %s", p, m)
			}
			a.period([]time.Duration{forever, 0, -1}[rng.IntN(3)])
			el := time.Since(t0)
			for _, e := range on {
				have := map[*view.View]int{}
				e.mu.Lock()
				for _, g := range e.got {
					have[g.d.View]++
				}
				e.mu.Unlock()
				for _, v := range reg {
					if have[v.V] > int(el/p)+1 {
						bad("period", "%d exports of a view in %v at a period of %v", have[v.V], el, p)
					}
				}
			}
			logf("reports at %v", p)
			drain("periodic report", want, false)
			r.Count("periodic_reports", 1)
		case 8:
			if len(reg) == 0 {
				continue
			}
			v := reg[rng.IntN(len(reg))]
			rows, err := a.rows(v.V.Name)
			if err != nil {
				bad("find", "rows of a registered view: %v", err)
			} else if d := v.DiffRows(rows); d != "" {
				bad("export-rows", "retrieved rows of %s: %s", v.V.Name, d)
			}
		default:
			ctx, _, tags := vm.Tags(rng, keys)
			m := ms[rng.IntN(2)]
			x := vm.Value(rng)
			t0 := time.Now()
			if err := a.record(ctx, m.M(x)); err != nil {
				bad("record", "%v", err)
			}
			a.find("sync") // the recording is processed
			t1 := time.Now()
			for _, v := range reg {
				if v.M == m {
					v.Add(tags, m.Value(x), nil, t0, t1)
				}
			}
			logf("record %s %v", m.Name, m.Value(x))
		}
	}
	drain("while nothing was due", nil, false)
	a.period(forever)
	want := map[*vm.View]bool{}
	var raw []*view.View
	for _, v := range reg {
		want[v] = true
		raw = append(raw, v.V)
	}
	a.unregister(raw...)
	drain("unregister", want, true)
	for _, e := range exps {
		a.unregExp(e)
		e.active.Store(false)
	}
	for _, g := range kept {
		r.Check(text(g.d.Rows) == g.text, "export-changed", "exported rows changed after the export: %s, then %s", g.text, text(g.d.Rows))
		r.Count("snapshots_rechecked", 1)
	}
	r.Eval(strings.Join(log, ";"))
	if c == 4 {
		r.Sample(log[:min(len(log), 25)])
	}
}

// churn registers and unregisters from several goroutines.
func churn(r *mon.Run, rng *rand.Rand, c int) {
	var a api
	if c%2 == 0 {
		a.m = view.NewMeter()
		a.m.Start()
	}
	w := &world{gone: map[*view.View]bool{}, at: map[*view.View][2]time.Time{}}
	m := stats.Int64(vm.Unique("churned"), "", "1")
	key := tag.MustNewKey(vm.Unique("k"))
	a.period(time.Duration(50+rng.IntN(2000)) * time.Microsecond)
	agg := view.Distribution(0, 1, 5, 10)
	steady := &exporter{r: r, w: w, name: "steady", ends: map[string]time.Time{}, nap: time.Duration(rng.IntN(2)*100) * time.Microsecond}
	steady.active.Store(true)
	a.regExp(steady)
	seed := rng.Uint64()
	var fs []func()
	var finals atomic.Int64
	for g := 0; g < 3; g++ { // each owns some views
		fs = append(fs, func() {
			rng := rand.New(rand.NewPCG(seed, uint64(g)))
			for i := 0; i < 20; i++ {
				v := &view.View{Name: vm.Unique("churn"), Measure: m, Aggregation: []*view.Aggregation{view.Count(), agg, view.Sum()}[rng.IntN(3)], TagKeys: []tag.Key{key}}
				w.mu.Lock()
				w.at[v] = [2]time.Time{time.Now()}
				w.mu.Unlock()
				if err := a.register(v); err != nil {
					r.Violate("register", "%v", err)
				}
				n := rng.IntN(20)
				for j := 0; j < n; j++ {
					ctx, _ := tag.New(context.Background(), tag.Upsert(key, fmt.Sprint(g)))
					a.record(ctx, m.M(int64(j)))
				}
				if a.find(v.Name) != v {
					r.Violate("find", "registered view not found")
				}
				if rng.IntN(2) == 0 {
					time.Sleep(time.Duration(rng.IntN(1000)) * time.Microsecond)
				}
				a.unregister(v)
				w.mu.Lock()
				w.gone[v] = true
				w.mu.Unlock()
				// The last delivery holds at least this goroutine's recordings.
				steady.mu.Lock()
				var last *view.Data
				for _, x := range steady.got {
					if x.d.View == v {
						last = x.d
					}
				}
				steady.mu.Unlock()
				if last == nil {
					r.Violate("pending-data", "unregistering exports nothing")
					continue
				}
				finals.Add(1)
				for _, row := range last.Rows {
					if row.Tags[0].Value != fmt.Sprint(g) {
						continue
					}
					switch d := row.Data.(type) {
					case *view.CountData:
						r.Check(d.Value == int64(n), "pending-data", "the last export counts %d of %d", d.Value, n)
					case *view.DistributionData:
						r.Check(d.Count == int64(n), "pending-data", "the last export counts %d of %d", d.Count, n)
					case *view.SumData:
						r.Check(d.Value == float64(n*(n-1)/2), "pending-data", "the last export sums to %v, not %v", d.Value, n*(n-1)/2)
					}
					n = 0
				}
				r.Check(n == 0, "pending-data", "the last export lacks the row of %d recordings", n)
				if i%4 == 0 {
					r.Progress()
				}
			}
		})
	}
	var churned atomic.Int64
	for g := 0; g < 2; g++ { // each owns an exporter
		fs = append(fs, func() {
			rng := rand.New(rand.NewPCG(seed, uint64(10+g)))
			e := &exporter{r: r, w: w, name: "churned", ends: map[string]time.Time{}}
			for i := 0; i < 20; i++ {
				e.active.Store(true)
				a.regExp(e)
				time.Sleep(time.Duration(rng.IntN(3000)) * time.Microsecond)
				a.unregExp(e)
				e.active.Store(false)
				churned.Add(int64(len(e.take())))
			}
		})
	}
	fs = append(fs, func() {
		rng := rand.New(rand.NewPCG(seed, 20))
		for i := 0; i < 30; i++ {
			a.period(time.Duration(50+rng.IntN(2000)) * time.Microsecond)
			time.Sleep(time.Duration(rng.IntN(1000)) * time.Microsecond)
		}
	})
	// Another meter shares the definitions under its own registration.
	fs = append(fs, func() {
		for i := 0; i < 10; i++ {
			o := view.NewMeter()
			o.Start()
			v := &view.View{Name: "shared", Measure: m, Aggregation: agg, TagKeys: []tag.Key{key}}
			if err := o.Register(v); err != nil {
				r.Violate("register", "%v", err)
			}
			stats.RecordWithOptions(context.Background(), stats.WithRecorder(o), stats.WithMeasurements(m.M(7)))
			rows, err := o.RetrieveData("shared")
			if err != nil || len(rows) != 1 || rows[0].Data.(*view.DistributionData).Count != 1 {
				r.Violate("meters-mixed", "own meter's rows: %v %v", rows, err)
			}
			o.Stop()
		}
	})
	r.Go(fs...)
	a.unregExp(steady)
	steady.active.Store(false)
	if a.m != nil {
		stop(r, rng, a)
	} else {
		a.period(forever)
	}
	for _, g := range steady.take() {
		r.Check(text(g.d.Rows) == g.text, "export-changed", "exported rows changed after the export")
		r.Count("snapshots_rechecked", 1)
	}
	r.Count("final_exports", int(finals.Load()))
	r.Count("churned_exports", int(churned.Load()))
	r.Eval(fmt.Sprint(c, seed, steady.n.Load(), churned.Load()))
}

// isProducer says whether the API's metrics are to be had from a producer.
func isProducer(a api, v *view.View) bool {
	for _, p := range metricproducer.GlobalManager().GetAll() {
		if a.m != nil && any(p) == any(a.m) {
			return true
		}
		if a.m == nil {
			for _, m := range p.Read() {
				if m.Descriptor.Name == v.Name {
					return true
				}
			}
		}
	}
	return false
}

// stop stops the meter while it is in use.
func stop(r *mon.Run, rng *rand.Rand, a api) {
	w := &world{gone: map[*view.View]bool{}, at: map[*view.View][2]time.Time{}}
	e := &exporter{r: r, w: w, name: "stopped", ends: map[string]time.Time{}}
	e.active.Store(true)
	a.regExp(e)
	m := stats.Int64(vm.Unique("stopped"), "", "1")
	v := &view.View{Name: vm.Unique("stop"), Measure: m, Aggregation: view.Count()}
	if err := a.register(v); err != nil {
		r.Violate("register", "%v", err)
	}
	a.record(context.Background(), m.M(1))
	a.rows(v.Name)
	if !isProducer(a, v) {
		r.Violate("producer", "a started meter that answers is no metric producer")
	}
	a.period(100 * time.Microsecond)
	var fs []func()
	for g := 0; g < 2; g++ {
		fs = append(fs, a.stop)
	}
	for g := 0; g < 2; g++ {
		fs = append(fs, func() {
			for i := 0; i < 2000; i++ {
				a.record(context.Background(), m.M(1))
				if i%100 == 0 {
					a.find(v.Name)
					a.period(100 * time.Microsecond)
					a.rows(v.Name)
				}
			}
		})
	}
	if rng.IntN(2) == 0 {
		time.Sleep(time.Duration(rng.IntN(1000)) * time.Microsecond)
	}
	r.Go(fs...)
	e.active.Store(false) // nothing more comes, though still registered
	if isProducer(a, v) {
		r.Violate("producer", "a stopped meter is still a metric producer")
	}
	// All calls return.
	a.record(context.Background(), m.M(1))
	r.Check(a.register(&view.View{Name: vm.Unique("late"), Measure: m, Aggregation: view.Count()}) != nil, "stopped", "a stopped meter registers views")
	_, err := a.rows(v.Name)
	r.Check(err != nil, "stopped", "a stopped meter retrieves rows")
	r.Check(a.find(v.Name) == nil, "stopped", "a stopped meter finds views")
	a.unregister(v)
	a.period(time.Microsecond)
	a.stop()
	if isProducer(a, v) {
		r.Violate("producer", "a stopped meter is a metric producer again")
	}
	r.Count("stops", 1)
}

// defaultPeriod: a non-positive period means ten seconds.
func defaultPeriod(r *mon.Run) func() {
	m := view.NewMeter()
	m.Start()
	w := &world{gone: map[*view.View]bool{}, at: map[*view.View][2]time.Time{}}
	e := &exporter{r: r, w: w, name: "slow", ends: map[string]time.Time{}}
	e.active.Store(true)
	m.RegisterExporter(e)
	x := stats.Int64(vm.Unique("slow"), "", "1")
	v := &view.View{Name: vm.Unique("slow"), Measure: x, Aggregation: view.Count()}
	if err := m.Register(v); err != nil {
		r.Violate("register", "%v", err)
	}
	m.SetReportingPeriod(time.Millisecond)
	m.SetReportingPeriod(0)
	e.take()
	t0 := time.Now()
	return func() {
		for time.Since(t0) < 30*time.Second {
			time.Sleep(100 * time.Millisecond)
			r.Progress()
			g := e.take()
			if len(g) == 0 {
				continue
			}
			// t0 is after the ticker was made, by an unknown pause.
			r.Check(g[0].t.Sub(t0) > 5*time.Second, "period", "reported after %v at the default period of 10 s", g[0].t.Sub(t0))
			r.Count("default_periods", 1)
			m.Stop()
			return
		}
		r.Violate("period", "nothing reported within 30 s at the default period of 10 s")
	}
}

func run(r *mon.Run) {
	rng := r.Rand("history")
	for _, k := range []string{"exports", "unregistered", "conflicts", "renamed_views", "invalid_views", "periodic_reports", "snapshots_rechecked", "final_exports", "churned_exports", "stops", "default_periods"} {
		r.Require(k, 1)
	}
	wait := defaultPeriod(r)
	for c := 0; c < r.N(80, 20); c++ {
		r.Case("history %d", c)
		history(r, rng, c)
	}
	for c := 0; c < r.N(12, 20); c++ {
		r.Case("churn %d", c)
		churn(r, rng, c)
	}
	wait()
	r.Case("the default meter's stop")
	stop(r, rng, api{})
}
