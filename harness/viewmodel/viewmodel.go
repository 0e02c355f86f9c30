// Package viewmodel is an executable model of views: what each registered
// view's rows must be after a history of recordings.
package viewmodel

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// Measure is a measure of either kind.
type Measure struct {
	Name, Desc, Unit string
	I                *stats.Int64Measure
	F                *stats.Float64Measure
}

// M makes a measurement; an int64 measure gets the truncated value.
func (m *Measure) M(v float64) stats.Measurement {
	if m.I != nil {
		return m.I.M(int64(v))
	}
	return m.F.M(v)
}

// Value is the value that M records.
func (m *Measure) Value(v float64) float64 {
	if m.I != nil {
		return float64(int64(v))
	}
	return v
}

// S gives the measure itself.
func (m *Measure) S() stats.Measure {
	if m.I != nil {
		return m.I
	}
	return m.F
}

var seq atomic.Int64

// Unique gives names not used before in this process.
func Unique(prefix string) string { return fmt.Sprintf("%s-%d", prefix, seq.Add(1)) }

// NewMeasure registers a fresh measure.
func NewMeasure(rng *rand.Rand) *Measure {
	m := &Measure{Name: Unique("m"), Desc: "a measure", Unit: []string{"1", "ms", "By", "", "s", "By"}[rng.IntN(6)]}
	if rng.IntN(2) == 0 {
		m.I = stats.Int64(m.Name, m.Desc, m.Unit)
	} else {
		m.F = stats.Float64(m.Name, m.Desc, m.Unit)
	}
	return m
}

// Exemplar is the model of a bucket's exemplar.
type Exemplar struct {
	Value  float64
	Att    map[string]any
	T0, T1 time.Time // the recording happened within
}

// Row is the model of one row.
type Row struct {
	Tags   map[string]string
	Vals   []float64
	Ex     map[int]*Exemplar
	T0, T1 time.Time // the first recording happened within
}

// View is a view with its model rows.
type View struct {
	V      *view.View
	M      *Measure
	Type   view.AggType
	Bounds []float64 // canonical
	Keys   []string  // sorted
	Rows   map[string]*Row
}

// NewView makes a random view over the measure.
func NewView(rng *rand.Rand, m *Measure, keys []tag.Key) *View {
	v := &View{M: m, Rows: map[string]*Row{}}
	v.V = &view.View{Name: Unique("v"), Description: "a view", Measure: m.S()}
	for _, i := range rng.Perm(len(keys))[:rng.IntN(len(keys)+1)] {
		v.V.TagKeys = append(v.V.TagKeys, keys[i])
		v.Keys = append(v.Keys, keys[i].Name())
	}
	sort.Strings(v.Keys)
	switch rng.IntN(6) {
	case 0:
		v.Type, v.V.Aggregation = view.AggTypeCount, view.Count()
	case 1:
		v.Type, v.V.Aggregation = view.AggTypeSum, view.Sum()
	case 2:
		v.Type, v.V.Aggregation = view.AggTypeLastValue, view.LastValue()
	default:
		var b []float64
		for k := rng.IntN(6); k > 0; k-- {
			b = append(b, Bound(rng))
		}
		if rng.IntN(3) == 0 {
			for n := 1 + rng.IntN(3); n > 0; n-- {
				b = append(b, 0)
			}
		}
		v.Type, v.V.Aggregation = view.AggTypeDistribution, view.Distribution(b...)
		// Registering may sort the caller's slice; the model keeps its own.
		for _, x := range b {
			if x > 0 {
				v.Bounds = append(v.Bounds, x)
			}
		}
		sort.Float64s(v.Bounds)
	}
	return v
}

// Bound is a bucket bound; values often hit it exactly.
func Bound(rng *rand.Rand) float64 {
	return []float64{1, 2, 3, 5, 10, 0.5, 100, 1e6, 1e-3}[rng.IntN(9)]
}

// Value is a value to record.
func Value(rng *rand.Rand) float64 {
	switch rng.IntN(8) {
	case 0:
		return 0
	case 1, 2:
		return Bound(rng)
	case 3:
		return -Bound(rng)
	case 4:
		return rng.NormFloat64() * 1e4
	case 5:
		return float64(rng.IntN(20)) - 10
	case 6:
		return rng.Float64()
	default:
		return math.Nextafter(Bound(rng), math.Inf(1-2*rng.IntN(2)))
	}
}

func (v *View) rowKey(tags map[string]string) (string, map[string]string) {
	t := map[string]string{}
	var sb strings.Builder
	for _, k := range v.Keys {
		if x := tags[k]; x != "" {
			t[k] = x
			fmt.Fprintf(&sb, "%q=%q ", k, x)
		}
	}
	return sb.String(), t
}

// Add records a value.
func (v *View) Add(tags map[string]string, val float64, att map[string]any, t0, t1 time.Time) {
	k, t := v.rowKey(tags)
	r := v.Rows[k]
	if r == nil {
		r = &Row{Tags: t, Ex: map[int]*Exemplar{}, T0: t0, T1: t1}
		v.Rows[k] = r
	}
	r.Vals = append(r.Vals, val)
	if len(att) > 0 {
		r.Ex[v.bucket(val)] = &Exemplar{val, att, t0, t1}
	}
}

func (v *View) bucket(x float64) int {
	for i, b := range v.Bounds {
		if x < b {
			return i
		}
	}
	return len(v.Bounds)
}

// Summary of a row's values.
func (r *Row) Summary() (n int64, sum, mean, ssd, lo, hi, maxAbs float64) {
	n = int64(len(r.Vals))
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, x := range r.Vals {
		sum += x
		lo, hi = min(lo, x), max(hi, x)
		maxAbs = max(maxAbs, math.Abs(x))
	}
	mean = sum / float64(n)
	for _, x := range r.Vals {
		ssd += (x - mean) * (x - mean)
	}
	return
}

// Close compares with a tolerance relative to the scale of the data.
func Close(a, b, scale float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*scale+1e-300
}

// Buckets counts the row's values per bucket.
func (v *View) Buckets(r *Row) []int64 {
	out := make([]int64, len(v.Bounds)+1)
	for _, x := range r.Vals {
		out[v.bucket(x)]++
	}
	return out
}

// DiffData compares one row's data; "" when they agree.
func (v *View) DiffData(r *Row, d view.AggregationData) string {
	n, sum, mean, ssd, lo, hi, ma := r.Summary()
	start := d.StartTime()
	if v.Type != view.AggTypeLastValue && (start.Before(r.T0) || start.After(r.T1)) {
		return fmt.Sprintf("start time %v, first recorded within [%v,%v]", start, r.T0, r.T1)
	}
	switch d := d.(type) {
	case *view.CountData:
		if v.Type != view.AggTypeCount || d.Value != n {
			return fmt.Sprintf("count %d want %d", d.Value, n)
		}
	case *view.SumData:
		if v.Type != view.AggTypeSum || !Close(d.Value, sum, float64(n)*ma) {
			return fmt.Sprintf("sum %v want %v", d.Value, sum)
		}
	case *view.LastValueData:
		if v.Type != view.AggTypeLastValue || d.Value != r.Vals[n-1] {
			return fmt.Sprintf("last value %v want %v", d.Value, r.Vals[n-1])
		}
	case *view.DistributionData:
		if v.Type != view.AggTypeDistribution {
			return "unexpected distribution"
		}
		if d.Count != n || d.Min != lo || d.Max != hi {
			return fmt.Sprintf("count,min,max %d,%v,%v want %d,%v,%v", d.Count, d.Min, d.Max, n, lo, hi)
		}
		if !Close(d.Mean, mean, ma) || !Close(d.Sum(), sum, float64(n)*ma) || !Close(d.SumOfSquaredDev, ssd, float64(n)*ma*ma) {
			return fmt.Sprintf("mean,sum,ssd %v,%v,%v want %v,%v,%v", d.Mean, d.Sum(), d.SumOfSquaredDev, mean, sum, ssd)
		}
		if want := v.Buckets(r); fmt.Sprint(d.CountPerBucket) != fmt.Sprint(want) {
			return fmt.Sprintf("buckets %v want %v (bounds %v)", d.CountPerBucket, want, v.Bounds)
		}
		if len(d.ExemplarsPerBucket) != len(v.Bounds)+1 {
			return fmt.Sprintf("%d exemplar slots", len(d.ExemplarsPerBucket))
		}
		for i, e := range d.ExemplarsPerBucket {
			w := r.Ex[i]
			if (e == nil) != (w == nil) {
				return fmt.Sprintf("bucket %d: exemplar %v want %v", i, e, w)
			}
			if e != nil && (e.Value != w.Value || fmt.Sprint(map[string]any(e.Attachments)) != fmt.Sprint(w.Att) || e.Timestamp.Before(w.T0) || e.Timestamp.After(w.T1)) {
				return fmt.Sprintf("bucket %d: exemplar %+v want %+v", i, e, w)
			}
		}
	default:
		return fmt.Sprintf("data of type %T", d)
	}
	return ""
}

// DiffRows compares rows with the model; "" when they agree.
func (v *View) DiffRows(rows []*view.Row) string {
	seen := map[string]bool{}
	for _, r := range rows {
		t := map[string]string{}
		for i, x := range r.Tags {
			if i > 0 && r.Tags[i-1].Key.Name() >= x.Key.Name() {
				return fmt.Sprintf("tags not in key order: %v", r.Tags)
			}
			t[x.Key.Name()] = x.Value
		}
		k, kt := v.rowKey(t)
		if len(kt) != len(t) {
			return fmt.Sprintf("row tags %v include foreign or empty ones", r.Tags)
		}
		if seen[k] {
			return fmt.Sprintf("two rows for %s", k)
		}
		seen[k] = true
		w := v.Rows[k]
		if w == nil {
			return fmt.Sprintf("unexpected row {%s}", k)
		}
		if d := v.DiffData(w, r.Data); d != "" {
			return fmt.Sprintf("row {%s}: %s", k, d)
		}
	}
	for k := range v.Rows {
		if !seen[k] {
			return fmt.Sprintf("row {%s} missing", k)
		}
	}
	return ""
}

// Keys makes n fresh tag keys.
func Keys(n int) []tag.Key {
	var out []tag.Key
	for i := 0; i < n; i++ {
		out = append(out, tag.MustNewKey(Unique("k")))
	}
	return out
}

// TagValue makes a tag value: short ones collide often, long ones are at the limit.
func TagValue(rng *rand.Rand) string {
	switch rng.IntN(10) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("L", 250+rng.IntN(6)) // up to the limit of 255
	case 2:
		return string(rune(32 + rng.IntN(95)))
	case 3:
		return strings.Repeat("z", rng.IntN(40))
	default:
		return string(rune('a' + rng.IntN(3)))
	}
}

// Tags makes a context with random tags over keys, and its model.
func Tags(rng *rand.Rand, keys []tag.Key) (context.Context, []tag.Mutator, map[string]string) {
	m := map[string]string{}
	var muts []tag.Mutator
	for _, k := range keys {
		if rng.IntN(3) > 0 {
			v := TagValue(rng)
			m[k.Name()] = v
			muts = append(muts, tag.Upsert(k, v))
		}
	}
	ctx, err := tag.New(context.Background(), muts...)
	if err != nil {
		panic(err)
	}
	return ctx, muts, m
}
