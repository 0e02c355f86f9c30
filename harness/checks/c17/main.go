// Monitor for C17: gauges and cumulatives of a metric registry.
package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C17", run) }

// The kinds of instruments.
const (
	gaugeI = iota
	gaugeF
	cumI
	cumF
	dGaugeI
	dGaugeF
	dCumI
	dCumF
	kinds
)

var types = [kinds]metricdata.Type{metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64,
	metricdata.TypeGaugeInt64, metricdata.TypeGaugeFloat64, metricdata.TypeCumulativeInt64, metricdata.TypeCumulativeFloat64}

func isCum(k int) bool { return k == cumI || k == cumF || k == dCumI || k == dCumF }
func isInt(k int) bool { return k%2 == 0 }

// inst is an instrument of any kind.
type inst struct {
	kind int
	x    any
}

// entry sets or changes one value.
type entry struct {
	i *metric.Int64GaugeEntry
	f *metric.Float64Entry
	c *metric.Int64CumulativeEntry
	d *metric.Float64CumulativeEntry
}

func (e entry) same(o entry) bool { return e == o }

func (e entry) add(x float64) {
	switch {
	case e.i != nil:
		e.i.Add(int64(x))
	case e.f != nil:
		e.f.Add(x)
	case e.c != nil:
		e.c.Inc(int64(x))
	default:
		e.d.Inc(x)
	}
}

func (e entry) set(x float64) {
	if e.i != nil {
		e.i.Set(int64(x))
	} else {
		e.f.Set(x)
	}
}

// scratch holds slices to pass label values in: callers use theirs again.
var scratch = sync.Pool{New: func() any { return &[]metricdata.LabelValue{} }}

func reused(ls []metricdata.LabelValue) (*[]metricdata.LabelValue, func()) {
	b := scratch.Get().(*[]metricdata.LabelValue)
	*b = append((*b)[:0], ls...)
	return b, func() { scratch.Put(b) }
}

func (n inst) entry(ls []metricdata.LabelValue) (e entry, err error) {
	b, done := reused(ls)
	defer done()
	ls = *b
	switch x := n.x.(type) {
	case *metric.Int64Gauge:
		e.i, err = x.GetEntry(ls...)
	case *metric.Float64Gauge:
		e.f, err = x.GetEntry(ls...)
	case *metric.Int64Cumulative:
		e.c, err = x.GetEntry(ls...)
	case *metric.Float64Cumulative:
		e.d, err = x.GetEntry(ls...)
	}
	return
}

func (n inst) upsert(f func() float64, ls []metricdata.LabelValue) error {
	b, done := reused(ls)
	defer done()
	ls = *b
	var fi func() int64
	if f != nil {
		fi = func() int64 { return int64(f()) }
	}
	switch x := n.x.(type) {
	case *metric.Int64DerivedGauge:
		return x.UpsertEntry(fi, ls...)
	case *metric.Float64DerivedGauge:
		return x.UpsertEntry(f, ls...)
	case *metric.Int64DerivedCumulative:
		return x.UpsertEntry(fi, ls...)
	default:
		return x.(*metric.Float64DerivedCumulative).UpsertEntry(f, ls...)
	}
}

func add(reg *metric.Registry, kind int, name string, mos ...metric.Options) (n inst, err error) {
	n.kind = kind
	switch kind {
	case gaugeI:
		n.x, err = reg.AddInt64Gauge(name, mos...)
	case gaugeF:
		n.x, err = reg.AddFloat64Gauge(name, mos...)
	case cumI:
		n.x, err = reg.AddInt64Cumulative(name, mos...)
	case cumF:
		n.x, err = reg.AddFloat64Cumulative(name, mos...)
	case dGaugeI:
		n.x, err = reg.AddInt64DerivedGauge(name, mos...)
	case dGaugeF:
		n.x, err = reg.AddFloat64DerivedGauge(name, mos...)
	case dCumI:
		n.x, err = reg.AddInt64DerivedCumulative(name, mos...)
	default:
		n.x, err = reg.AddFloat64DerivedCumulative(name, mos...)
	}
	return
}

// cell is the model of one time series.
type cell struct {
	labels []metricdata.LabelValue
	val    float64
	calls  *int // of a derived function
}

// instModel is the model of one instrument.
type instModel struct {
	inst
	name   string
	desc   metricdata.Descriptor
	consts []metricdata.LabelValue
	nkeys  int
	cells  map[string]*cell
	t0, t1 time.Time
}

func norm(ls []metricdata.LabelValue) []metricdata.LabelValue {
	out := []metricdata.LabelValue{}
	for _, l := range ls {
		if !l.Present {
			l.Value = ""
		}
		out = append(out, l)
	}
	return out
}

func id(ls []metricdata.LabelValue) string {
	return fmt.Sprintf("%q", fmt.Sprint(len(ls))+short(ls, false))
}

func short(ls []metricdata.LabelValue, cut bool) string {
	var sb strings.Builder
	for _, l := range ls {
		if !l.Present {
			sb.WriteString(" -")
		} else if cut && len(l.Value) > 20 {
			fmt.Fprintf(&sb, " %q..(%d)", l.Value[:2], len(l.Value))
		} else {
			fmt.Fprintf(&sb, " %q", l.Value)
		}
	}
	return sb.String()
}

func randLabel(rng *rand.Rand) metricdata.LabelValue {
	switch rng.IntN(12) {
	case 0:
		return metricdata.LabelValue{}
	case 1:
		return metricdata.NewLabelValue("")
	case 2:
		return metricdata.LabelValue{Value: "ignored"}
	case 3: // around sizes that matter to encodings
		n := []int{126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 16383, 16384, 70000}[rng.IntN(14)]
		return metricdata.NewLabelValue(strings.Repeat(string(rune('a'+rng.IntN(2))), n))
	case 4:
		b := make([]byte, rng.IntN(5))
		for i := range b {
			b[i] = []byte{0, 1, 2, 'a', 0xff}[rng.IntN(5)]
		}
		return metricdata.NewLabelValue(string(b))
	case 5:
		return metricdata.NewLabelValue("\x01a")
	default:
		return metricdata.NewLabelValue(string(rune('a' + rng.IntN(3))))
	}
}

func (m *instModel) labels(rng *rand.Rand) []metricdata.LabelValue {
	ls := []metricdata.LabelValue{}
	for i := 0; i < m.nkeys; i++ {
		ls = append(ls, randLabel(rng))
	}
	return ls
}

func (m *instModel) cell(ls []metricdata.LabelValue) *cell {
	full := norm(append(append([]metricdata.LabelValue{}, m.consts...), ls...))
	k := id(full)
	if m.cells[k] == nil {
		m.cells[k] = &cell{labels: full}
	}
	return m.cells[k]
}

// diff compares a metric read within [t0,t1] with the model.
func (m *instModel) diff(g *metricdata.Metric, t0, t1 time.Time) string {
	if !reflect.DeepEqual(norm2(g.Descriptor), norm2(m.desc)) {
		return fmt.Sprintf("descriptor %+v want %+v", g.Descriptor, m.desc)
	}
	if len(g.TimeSeries) != len(m.cells) {
		return fmt.Sprintf("%d time series for %d label combinations", len(g.TimeSeries), len(m.cells))
	}
	seen := map[string]bool{}
	for _, ts := range g.TimeSeries {
		k := id(norm(ts.LabelValues))
		c := m.cells[k]
		if c == nil || seen[k] {
			return fmt.Sprintf("unknown or repeated time series %s", short(ts.LabelValues, true))
		}
		seen[k] = true
		if len(ts.Points) != 1 {
			return fmt.Sprintf("%d points", len(ts.Points))
		}
		p := ts.Points[0]
		if p.Time.Before(t0) || p.Time.After(t1) {
			return "point time outside the read"
		}
		if isCum(m.kind) {
			if ts.StartTime.Before(m.t0) || ts.StartTime.After(m.t1) {
				return fmt.Sprintf("start time %v, created within [%v,%v]", ts.StartTime, m.t0, m.t1)
			}
		} else if !ts.StartTime.Equal(p.Time) {
			return "the start time of a gauge is not the time of its point"
		}
		want := c.val
		if m.kind < dGaugeI && want < 0 {
			want = 0
		}
		switch v := p.Value.(type) {
		case int64:
			if !isInt(m.kind) || v != int64(want) {
				return fmt.Sprintf("%s: value int64 %d want %v", short(ts.LabelValues, true), v, want)
			}
		case float64:
			if isInt(m.kind) || v != want && !(math.IsNaN(v) && math.IsNaN(want)) {
				return fmt.Sprintf("%s: value float64 %v want %v", short(ts.LabelValues, true), v, want)
			}
		default:
			return fmt.Sprintf("value %T", v)
		}
	}
	return ""
}

func norm2(d metricdata.Descriptor) metricdata.Descriptor {
	d.LabelKeys = append([]metricdata.LabelKey{}, d.LabelKeys...)
	return d
}

func history(r *mon.Run, rng *rand.Rand, c int) {
	reg := metric.NewRegistry()
	models := map[string]*instModel{}
	var names []string
	var log []string
	logf := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	type frozen struct {
		text string
		ms   []*metricdata.Metric
	}
	var old []frozen
	bad := func(sig, f string, a ...any) {
		r.Violate(sig, "%s; ops %s", fmt.Sprintf(f, a...), strings.Join(log, "; "))
	}
	newInst := func() {
		m := &instModel{name: fmt.Sprint("n", rng.IntN(6)), cells: map[string]*cell{}}
		m.kind = rng.IntN(kinds)
		old := models[m.name]
		if old != nil && rng.IntN(2) == 0 {
			m.kind = old.kind
		}
		var mos []metric.Options
		m.desc = metricdata.Descriptor{Name: m.name, Type: types[m.kind]}
		if rng.IntN(2) == 0 {
			m.desc.Description = "about " + fmt.Sprint(rng.IntN(10))
			mos = append(mos, metric.WithDescription(m.desc.Description))
		}
		if rng.IntN(2) == 0 {
			m.desc.Unit = []metricdata.Unit{"1", "By", "ms"}[rng.IntN(3)]
			mos = append(mos, metric.WithUnit(m.desc.Unit))
		}
		if n := rng.IntN(7); n > 0 && rng.IntN(2) == 0 {
			cl := map[metricdata.LabelKey]metricdata.LabelValue{}
			var ks []metricdata.LabelKey
			for i := 0; i < n; i++ {
				k := metricdata.LabelKey{Key: fmt.Sprint("c", rng.IntN(1000)*10+i), Description: []string{"", "const"}[rng.IntN(2)]}
				cl[k] = randLabel(rng)
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Key < ks[j].Key })
			for _, k := range ks {
				m.desc.LabelKeys = append(m.desc.LabelKeys, k)
				m.consts = append(m.consts, cl[k])
			}
			mos = append(mos, metric.WithConstLabel(cl))
		}
		m.nkeys = rng.IntN(4) + rng.IntN(12)*(rng.IntN(8)/7)
		var own []metricdata.LabelKey
		var plain []string
		for i := 0; i < m.nkeys; i++ {
			own = append(own, metricdata.LabelKey{Key: fmt.Sprint("k", i), Description: "d"})
			plain = append(plain, own[i].Key)
		}
		if rng.IntN(2) == 0 {
			mos = append(mos, metric.WithLabelKeysAndDescription(own...))
		} else {
			for i := range own {
				own[i].Description = ""
			}
			mos = append(mos, metric.WithLabelKeys(plain...))
		}
		m.desc.LabelKeys = append(m.desc.LabelKeys, own...)
		rng.Shuffle(len(mos), func(i, j int) { mos[i], mos[j] = mos[j], mos[i] })
		m.t0 = time.Now()
		n, err := add(reg, m.kind, m.name, mos...)
		m.t1 = time.Now()
		logf("add %s kind %d consts %s keys %d", m.name, m.kind, short(m.consts, true), m.nkeys)
		if old != nil && old.kind != m.kind {
			if err == nil {
				bad("type-conflict", "%s of kind %d added over one of kind %d", m.name, m.kind, old.kind)
			}
			r.Count("type_conflicts", 1)
			return
		}
		if err != nil {
			bad("add", "adding %s: %v", m.name, err)
			return
		}
		m.x = n.x
		if old == nil {
			names = append(names, m.name)
		}
		models[m.name] = m
	}
	read := func() {
		for _, m := range models {
			for _, c := range m.cells {
				if c.calls != nil {
					*c.calls = 0
				}
			}
		}
		t0 := time.Now()
		ms := reg.Read()
		t1 := time.Now()
		if len(ms) != len(models) {
			bad("read", "%d metrics read of %d", len(ms), len(models))
		}
		seen := map[string]bool{}
		for _, g := range ms {
			m := models[g.Descriptor.Name]
			if m == nil || seen[m.name] {
				bad("read", "unknown or repeated metric %q", g.Descriptor.Name)
				continue
			}
			seen[m.name] = true
			if d := m.diff(g, t0, t1); d != "" {
				bad("read", "%s of kind %d: %s", m.name, m.kind, d)
			}
			for _, c := range m.cells {
				if c.calls != nil && *c.calls != 1 {
					bad("derived-calls", "one read calls the function of %s %d times", m.name, *c.calls)
				}
			}
			r.Count("series_compared", len(g.TimeSeries))
		}
		if rng.IntN(3) == 0 {
			old = append(old, frozen{render(ms), ms})
		}
	}
	newInst()
	for i := 10 + rng.IntN(80); i > 0; i-- {
		switch k := rng.IntN(10); {
		case k == 0:
			newInst()
		case k == 1:
			read()
		default:
			m := models[names[rng.IntN(len(names))]]
			ls := m.labels(rng)
			if rng.IntN(10) == 0 { // wrong number of labels
				if m.nkeys > 0 && rng.IntN(2) == 0 {
					ls = ls[:rng.IntN(m.nkeys)]
				} else {
					ls = append(ls, m.labels(rng)...)
					ls = append(ls, randLabel(rng))
				}
				var err error
				if m.kind < dGaugeI {
					_, err = m.entry(ls)
				} else {
					err = m.upsert(func() float64 { return 1 }, ls)
				}
				if err == nil {
					bad("label-count", "%d labels accepted for %d keys", len(ls), m.nkeys)
				}
				r.Count("bad_labels", 1)
				continue
			}
			x := float64(rng.IntN(2000)-500) / []float64{1, 4}[rng.IntN(2)]
			given := append([]metricdata.LabelValue{}, ls...)
			if m.kind >= dGaugeI {
				if rng.IntN(12) == 0 {
					if m.upsert(nil, ls) == nil {
						bad("nil-function", "nil function accepted")
					}
					continue
				}
				c := m.cell(ls)
				c.val, c.calls = x, new(int)
				if isInt(m.kind) {
					c.val = float64(int64(x))
				}
				calls := c.calls
				if err := m.upsert(func() float64 { *calls++; return x }, given); err != nil {
					bad("upsert", "%v", err)
				}
				logf("upsert %s%s %v", m.name, short(ls, true), x)
			} else {
				e, err := m.entry(given)
				if err != nil {
					bad("get-entry", "%v", err)
					continue
				}
				e2, _ := m.entry(ls)
				if !e.same(e2) {
					bad("get-entry", "two entries for the same labels %s", short(ls, true))
				}
				c := m.cell(ls)
				if isInt(m.kind) {
					x = float64(int64(x))
				}
				switch {
				case isCum(m.kind):
					e.add(x)
					if x > 0 {
						c.val += x
					}
				case rng.IntN(2) == 0:
					e.set(x)
					c.val = x
				default:
					e.add(x)
					c.val += x
				}
				logf("change %s%s %v", m.name, short(ls, true), x)
			}
			for i := range given {
				given[i] = metricdata.NewLabelValue("reused")
			}
		}
	}
	read()
	for _, f := range old {
		r.Check(render(f.ms) == f.text, "read-changed", "metrics read earlier changed")
		r.Count("snapshots_rechecked", 1)
	}
	r.Eval(strings.Join(log, ";"))
	if c == 3 {
		r.Sample(log[:min(len(log), 25)])
	}
}

func render(ms []*metricdata.Metric) string {
	var out []string
	for _, m := range ms {
		for _, ts := range m.TimeSeries {
			out = append(out, fmt.Sprint(m.Descriptor, ts.LabelValues, ts.Points, ts.StartTime))
		}
	}
	return strings.Join(out, "\n")
}

// concurrent changes of and reads from one registry.
func concurrent(r *mon.Run, rng *rand.Rand, c int) {
	reg := metric.NewRegistry()
	nconst := rng.IntN(7)
	cl := map[metricdata.LabelKey]metricdata.LabelValue{}
	for i := 0; i < nconst; i++ {
		cl[metricdata.LabelKey{Key: fmt.Sprint("c", i)}] = metricdata.NewLabelValue(fmt.Sprint("v", i))
	}
	nkeys := 1 + rng.IntN(2)
	mk := func(kind int, name string) inst {
		n, err := add(reg, kind, name, metric.WithLabelKeys([]string{"a", "b"}[:nkeys]...), metric.WithConstLabel(cl))
		if err != nil {
			r.Violate("add", "%v", err)
		}
		return n
	}
	var ins [kinds]inst
	for k := range ins {
		ins[k] = mk(k, fmt.Sprint("m", k))
	}
	const labels = 4
	lv := func(i int) []metricdata.LabelValue {
		return []metricdata.LabelValue{metricdata.NewLabelValue(fmt.Sprint("l", i)), metricdata.NewLabelValue("x")}[:nkeys]
	}
	workers := 2 + rng.IntN(4)
	var started, done [dGaugeI][labels]atomic.Int64
	// Derived functions: each worker keeps replacing the function of each label by one giving its next number.
	for k := dGaugeI; k < kinds; k++ {
		for l := 0; l < labels; l++ {
			if err := ins[k].upsert(func() float64 { return 0 }, lv(l)); err != nil {
				r.Violate("upsert", "%v", err)
			}
		}
	}
	var running atomic.Int32
	running.Store(int32(workers))
	seed := rng.Uint64()
	var fs []func()
	ents := make([][dGaugeI][labels]entry, workers)
	lastFn := [kinds][labels]atomic.Int64{}
	for w := 0; w < workers; w++ {
		fs = append(fs, func() {
			defer running.Add(-1)
			rng := rand.New(rand.NewPCG(seed, uint64(w)))
			for i := 0; i < 400; i++ {
				l := rng.IntN(labels)
				if rng.IntN(6) == 0 {
					k := dGaugeI + rng.IntN(4)
					if l%workers == w { // only one worker replaces the functions of a label
						v := lastFn[k][l].Add(1)
						if err := ins[k].upsert(func() float64 {
							e, _ := ins[cumI].entry(lv(l)) // functions may use the registry
							e.add(0)
							return float64(v)
						}, lv(l)); err != nil {
							r.Violate("upsert", "%v", err)
						}
					}
					continue
				}
				k := rng.IntN(dGaugeI)
				x := int64(rng.IntN(5))
				e, err := ins[k].entry(lv(l))
				if err != nil {
					r.Violate("get-entry", "%v", err)
					continue
				}
				started[k][l].Add(x)
				e.add(float64(x))
				done[k][l].Add(x)
				if isCum(k) && rng.IntN(10) == 0 {
					e.add(-3)
				}
				if i%100 == 0 {
					r.Progress()
				}
			}
			for k := 0; k < dGaugeI; k++ {
				for l := 0; l < labels; l++ {
					ents[w][k][l], _ = ins[k].entry(lv(l))
				}
			}
		})
	}
	for g := 0; g < 2; g++ {
		fs = append(fs, func() {
			var last [kinds][labels]float64
			var created [kinds][labels]bool
			for more := true; more; {
				more = running.Load() > 0
				var lo [kinds][labels]int64
				for k := range lo {
					for l := range lo[k] {
						if k < dGaugeI {
							lo[k][l] = done[k][l].Load()
						}
					}
				}
				ms := reg.Read()
				if len(ms) != kinds {
					r.Violate("read", "%d metrics of %d", len(ms), kinds)
				}
				for _, m := range ms {
					var k int
					fmt.Sscanf(m.Descriptor.Name, "m%d", &k)
					var seen [labels]bool
					for _, ts := range m.TimeSeries {
						if len(ts.LabelValues) != nconst+nkeys {
							r.Violate("read", "%d labels", len(ts.LabelValues))
							continue
						}
						for i := 0; i < nconst; i++ {
							r.Check(ts.LabelValues[i].Value == fmt.Sprint("v", i), "mixed-labels", "constant label %d reads %q", i, ts.LabelValues[i].Value)
						}
						l := -1
						fmt.Sscanf(ts.LabelValues[nconst].Value, "l%d", &l)
						if l < 0 || l >= labels || seen[l] {
							r.Violate("mixed-labels", "labels %v", ts.LabelValues)
							continue
						}
						seen[l] = true
						var v float64
						switch x := ts.Points[0].Value.(type) {
						case int64:
							v = float64(x)
						case float64:
							v = x
						}
						if k < dGaugeI {
							hi := started[k][l].Load()
							r.Check(v >= float64(lo[k][l]) && v <= float64(hi), "lost-update", "kind %d reads %v; added %d before, %d after the read", k, v, lo[k][l], hi)
						} else {
							hi := float64(lastFn[k][l].Load())
							r.Check(v <= hi, "read", "derived value %v of %v", v, hi)
						}
						r.Check(v >= last[k][l], "went-back", "kind %d goes from %v to %v", k, last[k][l], v)
						last[k][l] = v
					}
					for l := range seen {
						r.Check(seen[l] || !created[k][l] && k < dGaugeI, "transient-loss", "the entry of kind %d, label %d is missing from a read", k, l)
						created[k][l] = created[k][l] || seen[l]
					}
				}
				r.Count("concurrent_reads", 1)
			}
		})
	}
	r.Go(fs...)
	for w := 1; w < workers; w++ {
		r.Check(ents[w] == ents[0], "get-entry", "different entries for the same labels")
	}
	for _, m := range reg.Read() {
		var k int
		fmt.Sscanf(m.Descriptor.Name, "m%d", &k)
		for _, ts := range m.TimeSeries {
			l := -1
			if len(ts.LabelValues) > nconst {
				fmt.Sscanf(ts.LabelValues[nconst].Value, "l%d", &l)
			}
			if l < 0 || l >= labels {
				r.Violate("mixed-labels", "labels %v", ts.LabelValues)
				continue
			}
			want := float64(lastFn[k][l].Load())
			if k < dGaugeI {
				want = float64(done[k][l].Load())
			}
			got := fmt.Sprint(ts.Points[0].Value)
			r.Check(got == fmt.Sprint(want), "lost-update", "kind %d ends at %s, not %v", k, got, want)
		}
		r.Check(len(m.TimeSeries) <= labels, "read", "%d time series", len(m.TimeSeries))
	}
	r.Eval(fmt.Sprint(c, seed))
}

func run(r *mon.Run) {
	rng := r.Rand("history")
	for _, k := range []string{"series_compared", "type_conflicts", "bad_labels", "snapshots_rechecked", "concurrent_reads"} {
		r.Require(k, 1)
	}
	for c := 0; c < r.N(400, 40); c++ {
		r.Case("history %d", c)
		r.Do("history", func() { history(r, rng, c) })
	}
	for c := 0; c < r.N(40, 30); c++ {
		r.Case("concurrent %d", c)
		concurrent(r, rng, c)
	}
}
