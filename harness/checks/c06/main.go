// Monitor for C06: the local span store lists exactly the running spans and
// keeps a bounded, rate-limited sample of the ended ones.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	tm "go.opencensus.io/verifmon/tracemodel"
)

func main() { mon.Main("C06", run) }

type store interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
}

var st store

// sink hands each exported record to whoever asks for it by span ID.
type sink struct{ m sync.Map }

func (s *sink) ExportSpan(sd *trace.SpanData) { s.m.Store(sd.SpanContext.SpanID, sd) }
func (s *sink) take(id trace.SpanID) *trace.SpanData {
	v, ok := s.m.LoadAndDelete(id)
	if !ok {
		return nil
	}
	return v.(*trace.SpanData)
}

var out = &sink{}

var bounds = []time.Duration{10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute}

func lbucket(d time.Duration) int {
	return sort.Search(len(bounds), func(i int) bool { return d < bounds[i] })
}

// mbucket is the model of one bucket.
type mbucket struct {
	cap  int
	next time.Time
	kept []*trace.SpanData
}

func (b *mbucket) add(sd *trace.SpanData) bool {
	if b.cap == 0 || sd.EndTime.Before(b.next) {
		return false
	}
	b.next = sd.EndTime.Add(time.Second)
	b.kept = append(b.kept, sd)
	b.trim()
	return true
}

func (b *mbucket) trim() {
	if n := len(b.kept) - b.cap; n > 0 {
		b.kept = append([]*trace.SpanData{}, b.kept[n:]...)
	}
}

type model struct {
	exists bool
	errCap int
	lat    [9]mbucket
	errs   map[int32]*mbucket
}

func (m *model) ensure() {
	if !m.exists {
		m.exists = true
		m.errCap = 10
		for i := range m.lat {
			m.lat[i].cap = 10
		}
	}
}

func clamp(n int) int { return max(0, min(n, 100000)) }

func (m *model) configure(l, e int) {
	m.exists = true
	m.errCap = clamp(e)
	for i := range m.lat {
		m.lat[i].cap = clamp(l)
		m.lat[i].trim()
	}
	for _, b := range m.errs {
		b.cap = clamp(e)
		b.trim()
	}
}

func (m *model) finish(sd *trace.SpanData) bool {
	d := sd.EndTime.Sub(sd.StartTime)
	if c := sd.Status.Code; c != 0 {
		b := m.errs[c]
		if b == nil {
			b = &mbucket{cap: m.errCap}
			m.errs[c] = b
		}
		return b.add(sd)
	}
	return m.lat[lbucket(d)].add(sd)
}

func (m *model) byLatency(lo, hi time.Duration) map[trace.SpanID]*trace.SpanData {
	want := map[trace.SpanID]*trace.SpanData{}
	for i := range m.lat {
		for _, sd := range m.lat[i].kept {
			d := sd.EndTime.Sub(sd.StartTime)
			if lo != 0 || hi != 0 {
				if d < lo || hi != 0 && d > hi {
					continue
				}
			}
			want[sd.SpanContext.SpanID] = sd
		}
	}
	return want
}

func (m *model) byError(code int32) map[trace.SpanID]*trace.SpanData {
	want := map[trace.SpanID]*trace.SpanData{}
	for c, b := range m.errs {
		if code == 0 || c == code {
			for _, sd := range b.kept {
				want[sd.SpanContext.SpanID] = sd
			}
		}
	}
	return want
}

type live struct {
	p     *trace.Span
	m     *tm.Span
	start time.Time
}

type worker struct {
	r     *mon.Run
	rng   *rand.Rand
	name  string
	peers []string // other names in use
	m     model
	live  []*live
	log   []string
	snaps map[trace.SpanID]trace.SpanData
	kept  int
}

func (w *worker) logf(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
	if len(w.log) > 60 {
		w.log = w.log[len(w.log)-60:]
	}
}

func (w *worker) compare(what string, got []*trace.SpanData, want map[trace.SpanID]*trace.SpanData) {
	seen := map[trace.SpanID]bool{}
	for _, sd := range got {
		id := sd.SpanContext.SpanID
		if seen[id] {
			w.r.Violate("listed-twice", "%s: %s lists span %v twice; ops %v", w.name, what, id, w.log)
		}
		seen[id] = true
		if want[id] == nil {
			w.r.Violate("kept-wrongly", "%s: %s lists span %v (code %d, latency %v), which must not be there; ops %v", w.name, what, id, sd.Status.Code, sd.EndTime.Sub(sd.StartTime), w.log)
			continue
		}
		snap := w.snaps[id]
		w.r.Check(tm.Same(sd, &snap), "kept-content", "%s: %s: record of %v differs from what was exported: %+v want %+v", w.name, what, id, sd, snap)
	}
	for id, sd := range want {
		if !seen[id] {
			w.r.Violate("kept-missing", "%s: %s misses span %v (code %d, latency %v); ops %v", w.name, what, id, sd.Status.Code, sd.EndTime.Sub(sd.StartTime), w.log)
		}
	}
	w.r.Count("listings", 1)
}

func (w *worker) query() {
	switch w.rng.IntN(7) {
	case 0, 1:
		got := st.ReportActiveSpans(w.name)
		by := map[trace.SpanID]*live{}
		for _, l := range w.live {
			by[l.m.SC.SpanID] = l
		}
		for _, sd := range got {
			l := by[sd.SpanContext.SpanID]
			if l == nil {
				w.r.Violate("active-wrongly", "%s: %v listed as active, but is ended or was listed twice; ops %v", w.name, sd.SpanContext.SpanID, w.log)
				continue
			}
			delete(by, sd.SpanContext.SpanID)
			if d := l.m.Diff(sd); d != "" {
				w.r.Violate("active-content", "%s: running span listed with %s", w.name, d)
			}
			w.r.Check(sd.EndTime.IsZero(), "active-ended", "%s: running span listed with an end time", w.name)
		}
		for id := range by {
			w.r.Violate("active-missing", "%s: running span %v not listed; ops %v", w.name, id, w.log)
		}
		w.r.Count("active_listings", 1)
	case 2:
		w.compare("latency 0,0", st.ReportSpansByLatency(w.name, 0, 0), w.m.byLatency(0, 0))
	case 3:
		lo, hi := w.lat(), w.lat()
		w.compare(fmt.Sprintf("latency %v,%v", lo, hi), st.ReportSpansByLatency(w.name, lo, hi), w.m.byLatency(lo, hi))
	case 4:
		c := int32(w.rng.IntN(5)) - 1
		w.compare(fmt.Sprintf("error %d", c), st.ReportSpansByError(w.name, c), w.m.byError(c))
	case 5:
		w.compare("error 0", st.ReportSpansByError(w.name, 0), w.m.byError(0))
	case 6:
		w.summary()
	}
}

// lat picks a latency: a band bound, next to one, or that of a kept span.
func (w *worker) lat() time.Duration {
	switch w.rng.IntN(6) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64
	case 2:
		for _, sd := range w.m.byLatency(0, 0) {
			return sd.EndTime.Sub(sd.StartTime) + time.Duration(w.rng.IntN(3)-1)
		}
	}
	return bounds[w.rng.IntN(len(bounds))] + time.Duration(w.rng.IntN(3)-1)
}

func (w *worker) summary() {
	s, ok := st.ReportSpansPerMethod()[w.name]
	if !w.r.Check(ok == w.m.exists, "summary-exists", "%s: in summary: %v; ops %v", w.name, ok, w.log) || !ok {
		return
	}
	w.r.Check(s.Active == len(w.live), "summary-active", "%s: summary counts %d active, %d are; ops %v", w.name, s.Active, len(w.live), w.log)
	if w.r.Check(len(s.LatencyBuckets) == 9, "summary-bands", "%s: %d latency bands", w.name, len(s.LatencyBuckets)) {
		for i, b := range s.LatencyBuckets {
			lo, hi := time.Duration(0), time.Duration(math.MaxInt64)
			if i > 0 {
				lo = bounds[i-1]
			}
			if i < 8 {
				hi = bounds[i]
			}
			w.r.Check(b.MinLatency == lo && b.MaxLatency == hi, "summary-bounds", "band %d is [%v,%v)", i, b.MinLatency, b.MaxLatency)
			w.r.Check(b.Size == len(w.m.lat[i].kept), "summary-latency", "%s: summary counts %d in band %v, %d kept; ops %v", w.name, b.Size, lo, len(w.m.lat[i].kept), w.log)
		}
	}
	got := map[int32]int{}
	for _, b := range s.ErrorBuckets {
		if _, dup := got[b.ErrorCode]; dup {
			w.r.Violate("summary-error", "%s: code %d listed twice", w.name, b.ErrorCode)
		}
		got[b.ErrorCode] = b.Size
	}
	for c, b := range w.m.errs {
		w.r.Check(got[c] == len(b.kept), "summary-error", "%s: summary counts %d with code %d, %d kept; ops %v", w.name, got[c], c, len(b.kept), w.log)
		delete(got, c)
	}
	for c, n := range got {
		w.r.Check(n == 0, "summary-error", "%s: summary counts %d with code %d, none kept", w.name, n, c)
	}
	w.r.Count("summaries", 1)
}

func (w *worker) start() {
	var sp *trace.Span
	var parent trace.SpanID
	if w.rng.IntN(3) == 0 && len(w.live) > 0 {
		l := w.live[w.rng.IntN(len(w.live))]
		parent = l.m.SC.SpanID
		l.m.Children++
		_, sp = trace.StartSpan(trace.NewContext(context.Background(), l.p), w.name, trace.WithSampler(trace.AlwaysSample()))
	} else {
		_, sp = trace.StartSpan(context.Background(), w.name, trace.WithSampler(trace.AlwaysSample()))
	}
	m := &tm.Span{Caps: tm.DefaultCaps, Name: w.name, SC: sp.SpanContext(), Parent: parent}
	w.m.ensure()
	w.live = append(w.live, &live{p: sp, m: m, start: time.Now()})
	w.logf("start")
}

func (w *worker) end(i int) {
	l := w.live[i]
	w.live = append(w.live[:i:i], w.live[i+1:]...)
	l.p.End()
	sd := out.take(l.m.SC.SpanID)
	if sd == nil {
		w.r.Violate("not-exported", "%s: ended span not exported", w.name)
		return
	}
	w.snaps[l.m.SC.SpanID] = tm.Snapshot(sd)
	kept := w.m.finish(sd)
	if kept {
		w.kept++
		w.r.Count("kept", 1)
		if sd.Status.Code != 0 {
			w.r.Count("kept_errors", 1)
		} else {
			w.r.Count(fmt.Sprintf("kept_band_%d", lbucket(sd.EndTime.Sub(sd.StartTime))), 1)
		}
	} else {
		w.r.Count("rate_limited_or_disabled", 1)
	}
	w.logf("end(code %d, %v, kept %v)", sd.Status.Code, sd.EndTime.Sub(sd.StartTime), kept)
	if w.rng.IntN(4) == 0 {
		l.p.End() // once more: nothing may change
		if out.take(l.m.SC.SpanID) != nil {
			w.r.Violate("exported-twice", "%s: second End exported again", w.name)
		}
	}
}

func sizes(rng *rand.Rand) int {
	switch rng.IntN(9) {
	case 0:
		return 0
	case 1:
		return -rng.IntN(100)
	case 2:
		return 1
	case 3:
		return 2 + rng.IntN(30)
	default:
		return 1 + rng.IntN(4)
	}
}

func (w *worker) run(until time.Time) {
	// A span to be ended last, so that the long bands are reached.
	w.start()
	for time.Now().Before(until) {
		w.r.Progress()
		switch w.rng.IntN(14) {
		case 0, 1, 2:
			if len(w.live) < 8 {
				w.start()
			}
		case 3, 4, 5, 6:
			if len(w.live) > 1 {
				w.end(1 + w.rng.IntN(len(w.live)-1))
			}
		case 7:
			l := w.live[w.rng.IntN(len(w.live))]
			for i := 0; i < 3; i++ {
				w.logf("%s", tm.Mutate(w.rng, l.p, l.m, 5))
			}
			if w.rng.IntN(3) == 0 {
				// Spans stay filed under the name they were started with.
				l.m.Name = w.peers[w.rng.IntN(len(w.peers))]
				l.p.SetName(l.m.Name)
				w.r.Count("renamed_to_a_kept_name", 1)
			}
		case 8:
			if w.rng.IntN(4) == 0 {
				ls, es := sizes(w.rng), sizes(w.rng)
				st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: w.name, MaxRequestsSucceeded: ls, MaxRequestsErrors: es}})
				w.m.configure(ls, es)
				w.logf("configure(%d,%d)", ls, es)
				w.r.Count("reconfigurations", 1)
			}
		case 9:
			time.Sleep(time.Duration(math.Pow(10, 1+w.rng.Float64()*5)) * time.Microsecond)
			w.logf("sleep")
		case 10:
			if w.rng.IntN(3) == 0 {
				time.Sleep(time.Duration(900+w.rng.IntN(250)) * time.Millisecond)
				w.logf("sleep 1s")
			}
		default:
			w.query()
		}
	}
	for len(w.live) > 0 {
		w.end(len(w.live) - 1)
		w.query()
	}
	for i := 0; i < 8; i++ {
		w.query()
	}
	w.summary()
	key := ""
	if w.kept > 0 {
		key = fmt.Sprint(w.name, w.log)
	}
	w.r.Eval(key)
	if w.kept > 3 {
		w.r.Sample(map[string]any{"name": w.name, "kept": w.kept, "last_operations": w.log[max(0, len(w.log)-20):]})
	}
}

// fresh checks that a name's first span with a code, or in a band, is kept
// even when it is not sampled, and that a size configured beforehand applies.
func fresh(r *mon.Run, rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("c06-fresh-%d-%d", r.Shard, i)
		r.Case("%s", name)
		size := 10
		if rng.IntN(2) == 0 {
			size = rng.IntN(3)
			st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name + "x", MaxRequestsErrors: 1}, {Name: name, MaxRequestsSucceeded: size, MaxRequestsErrors: size}})
		}
		smp := trace.NeverSample()
		if rng.IntN(3) == 0 {
			smp = trace.AlwaysSample()
		}
		_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(smp))
		act := st.ReportActiveSpans(name)
		if len(act) != 1 || act[0].SpanContext.SpanID != sp.SpanContext().SpanID {
			r.Violate("active-missing", "%s: unsampled running span not listed", name)
		}
		m := &tm.Span{Caps: tm.DefaultCaps, Name: name, SC: sp.SpanContext()}
		for k := rng.IntN(4); k > 0; k-- {
			tm.Mutate(rng, sp, m, 3)
		}
		if rng.IntN(2) == 0 {
			m.Name = name + "-renamed"
			if i > 0 && rng.IntN(2) == 0 {
				m.Name = fmt.Sprintf("c06-fresh-%d-%d", r.Shard, i-1)
			}
			sp.SetName(m.Name) // filed under the name it was started with
		}
		code := int32(rng.IntN(4))
		if rng.IntN(6) == 0 {
			code = []int32{-1, 17, 1 << 30, -1 << 31}[rng.IntN(4)]
		}
		sp.SetStatus(trace.Status{Code: code, Message: "m"})
		m.Status = trace.Status{Code: code, Message: "m"}
		sp.End()
		out.take(sp.SpanContext().SpanID)
		var got []*trace.SpanData
		if code == 0 {
			got = st.ReportSpansByLatency(name, 0, 0)
		} else {
			got = st.ReportSpansByError(name, code)
			r.Check(len(st.ReportSpansByError(name, code^8)) == 0, "kept-wrongly", "%s: listed under another code", name)
		}
		want := min(size, 1)
		if len(got) != want {
			r.Violate("kept-missing", "%s: first ended span (code %d): %d kept, want %d of at most %d", name, code, len(got), want, size)
		} else if want == 1 {
			if d := m.Diff(got[0]); d != "" {
				r.Violate("kept-content", "%s: kept record: %s", name, d)
			}
			r.Count("kept", 1)
		}
		r.Check(len(st.ReportActiveSpans(name)) == 0, "active-wrongly", "%s: ended span listed as active", name)
		for _, sd := range append(st.ReportSpansByLatency(m.Name, 0, 0), st.ReportSpansByError(m.Name, 0)...) {
			r.Check(m.Name == name || sd.SpanContext.SpanID != m.SC.SpanID, "kept-wrongly", "a span started as %s and renamed is kept under %s", name, m.Name)
		}
		r.Check(m.Name == name || len(st.ReportActiveSpans(m.Name)) == 0, "active-wrongly", "ended or renamed span listed as active under %s", m.Name)
		r.Eval(fmt.Sprint("fresh", size, code, want))
	}
	for _, name := range []string{"", "c06-never-used"} {
		r.Check(st.ReportActiveSpans(name) == nil && st.ReportSpansByError(name, 0) == nil && st.ReportSpansByLatency(name, 0, 0) == nil, "kept-wrongly", "unused name %q lists spans", name)
	}
}

// exact aims at spans that take exactly as long as a latency band begins with,
// and lists up to, from and of exactly what each span took.
// huge asks for more than can be kept, for names that are new and names in use.
func huge(r *mon.Run) {
	for i, size := range []int{100001, math.MaxInt, 1 << (strconv.IntSize - 2)} {
		name := fmt.Sprintf("c06-huge-%d-%d", r.Shard, i)
		r.Case("%s: %d", name, size)
		conf := func(ok, failed int) {
			r.Do("ConfigureBucketSizes", func() {
				st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: ok, MaxRequestsErrors: failed}})
			})
		}
		if i%2 == 0 {
			conf(3, 3)
		}
		conf(size, size)
		for _, code := range []int32{0, 5} {
			_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
			sp.SetStatus(trace.Status{Code: code})
			r.Do("End", sp.End)
			out.take(sp.SpanContext().SpanID)
		}
		r.Check(len(st.ReportSpansByLatency(name, 0, 0)) == 1 && len(st.ReportSpansByError(name, 5)) == 1, "huge-size", "spans kept with size %d: %d and %d, want 1 and 1", size, len(st.ReportSpansByLatency(name, 0, 0)), len(st.ReportSpansByError(name, 5)))
		conf(1, 1)
		r.Check(len(st.ReportSpansByLatency(name, 0, 0)) == 1 && len(st.ReportSpansByError(name, 5)) == 1, "huge-size", "spans lost by going from size %d to 1", size)
		conf(0, 0)
		r.Count("huge_sizes", 1)
	}
}

func exact(r *mon.Run) {
	per := map[string]int{}
	for _, at := range []time.Duration{10 * time.Microsecond, 100 * time.Microsecond} {
		aim := at - time.Microsecond
		for i := 0; i < r.N(1200, 8); i++ {
			name := fmt.Sprintf("c06-exact-%d-%v-%d", r.Shard, at, i)
			r.Case("%s", name)
			t0 := time.Now()
			_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
			for time.Since(t0) < aim {
			}
			sp.End()
			sd := out.take(sp.SpanContext().SpanID)
			if sd == nil {
				r.Broken("no record of %s", name)
				return
			}
			d := sd.EndTime.Sub(sd.StartTime)
			switch { // closer next time
			case d > at && aim > 0:
				aim -= min((d-at)/8+1, 200)
			case d < at:
				aim += min((at-d)/8+1, 200)
			default:
				per["band_bounds_hit"]++
			}
			for _, l := range [][2]time.Duration{{0, d}, {d, 0}, {d, d}, {at, d}, {d, at}, {0, at}, {at, 0}, {at, at}, {0, d - 1}, {d + 1, 0}} {
				want := 0
				if d >= l[0] && (l[1] == 0 || d <= l[1]) {
					want = 1
				}
				got := len(st.ReportSpansByLatency(name, l[0], l[1]))
				r.Check(got == want, "exact-latency", "a span that took %v: the listing from %v to %v has %d, want %d", d, l[0], l[1], got, want)
			}
			if i%100 > 0 && (d < at-1 || d > at+1) {
				per["exact_listings"]++
				continue
			}
			band := -1
			for k, b := range st.ReportSpansPerMethod()[name].LatencyBuckets {
				if b.Size == 1 {
					band = k
				}
			}
			r.Check(band == lbucket(d), "exact-latency", "a span that took %v is in band %d, want %d", d, band, lbucket(d))
			per["exact_listings"]++
			r.Eval(name)
		}
	}
	for k, n := range per {
		r.Count(k, n)
	}
}

// concurrent lets several goroutines use one name while others list it.
func concurrent(r *mon.Run, rng *rand.Rand, round int) {
	name := fmt.Sprintf("c06-conc-%d-%d", r.Shard, round)
	r.Case("%s", name)
	cap0 := 1 + rng.IntN(5)
	st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: cap0, MaxRequestsErrors: cap0}})
	const writers = 4
	per := 40
	type rec struct{ started, ending, ended atomic.Int64 }
	var clock atomic.Int64
	var recs sync.Map // SpanID -> *rec
	seeds := make([]uint64, writers+2)
	for i := range seeds {
		seeds[i] = rng.Uint64()
	}
	var done atomic.Int32
	var fs []func()
	var endedMu sync.Mutex
	ended := map[trace.SpanID]*trace.SpanData{}
	for k := 0; k < writers; k++ {
		fs = append(fs, func() {
			defer done.Add(1)
			rng := rand.New(rand.NewPCG(seeds[k], 1))
			for i := 0; i < per; i++ {
				_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
				rc := &rec{}
				recs.Store(sp.SpanContext().SpanID, rc)
				rc.started.Store(clock.Add(1))
				if rng.IntN(2) == 0 {
					sp.SetStatus(trace.Status{Code: int32(rng.IntN(3))})
				}
				if rng.IntN(8) == 0 {
					time.Sleep(time.Duration(rng.IntN(200)) * time.Microsecond)
				}
				rc.ending.Store(clock.Add(1))
				sp.End()
				rc.ended.Store(clock.Add(1))
				sd := out.take(sp.SpanContext().SpanID)
				endedMu.Lock()
				ended[sp.SpanContext().SpanID] = sd
				endedMu.Unlock()
			}
		})
	}
	for k := 0; k < 2; k++ {
		fs = append(fs, func() {
			rng := rand.New(rand.NewPCG(seeds[writers+k], 2))
			for done.Load() < writers {
				before := clock.Add(1)
				switch rng.IntN(5) {
				case 0, 1, 2:
					got := map[trace.SpanID]bool{}
					for _, sd := range st.ReportActiveSpans(name) {
						if got[sd.SpanContext.SpanID] {
							r.Violate("listed-twice", "%s: span listed as active twice", name)
						}
						got[sd.SpanContext.SpanID] = true
					}
					after := clock.Add(1)
					recs.Range(func(k, v any) bool {
						rc := v.(*rec)
						s, e, g := rc.started.Load(), rc.ended.Load(), rc.ending.Load()
						if e != 0 && e < before && got[k.(trace.SpanID)] {
							r.Violate("active-wrongly", "%s: span ended before the listing began is listed as active", name)
						}
						if s != 0 && s < before && (g == 0 || g > after) && !got[k.(trace.SpanID)] {
							r.Violate("active-missing", "%s: span running throughout the listing is not listed", name)
						}
						return true
					})
					r.Count("concurrent_listings", 1)
				case 3:
					for _, sd := range append(st.ReportSpansByLatency(name, 0, 0), st.ReportSpansByError(name, 0)...) {
						v, ok := recs.Load(sd.SpanContext.SpanID)
						if ok && v.(*rec).ending.Load() == 0 {
							r.Violate("kept-wrongly", "%s: running span listed as ended", name)
						}
						r.Check(!sd.EndTime.IsZero(), "kept-content", "%s: kept record without end time", name)
					}
				case 4:
					st.ReportSpansPerMethod()
					if rng.IntN(3) == 0 {
						st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: cap0, MaxRequestsErrors: cap0}})
					}
				}
			}
		})
	}
	r.Go(fs...)
	// Quiet again: everything ended, each group keeps a spaced, bounded subset.
	r.Check(len(st.ReportActiveSpans(name)) == 0, "active-wrongly", "%s: ended spans still listed as active", name)
	type group struct {
		err bool
		k   int
	}
	total := map[group]int{}
	for _, sd := range ended {
		if sd == nil {
			r.Violate("not-exported", "%s: ended span not exported", name)
			return
		}
		if sd.Status.Code != 0 {
			total[group{true, int(sd.Status.Code)}]++
		} else {
			total[group{false, lbucket(sd.EndTime.Sub(sd.StartTime))}]++
		}
	}
	kept := map[group][]*trace.SpanData{}
	seen := map[trace.SpanID]bool{}
	for _, sd := range append(st.ReportSpansByLatency(name, 0, 0), st.ReportSpansByError(name, 0)...) {
		id := sd.SpanContext.SpanID
		r.Check(!seen[id], "listed-twice", "%s: span kept twice", name)
		seen[id] = true
		if ended[id] == nil {
			r.Violate("kept-wrongly", "%s: unknown span kept", name)
			continue
		}
		if sd.Status.Code != 0 {
			kept[group{true, int(sd.Status.Code)}] = append(kept[group{true, int(sd.Status.Code)}], sd)
		} else {
			g := group{false, lbucket(sd.EndTime.Sub(sd.StartTime))}
			kept[g] = append(kept[g], sd)
		}
	}
	for g, n := range total {
		ks := kept[g]
		if len(ks) == 0 {
			r.Violate("kept-missing", "%s: %d spans ended in %+v, none kept", name, n, g)
		}
		r.Check(len(ks) <= cap0, "over-capacity", "%s: %d kept in %+v, configured %d", name, len(ks), g, cap0)
		sort.Slice(ks, func(i, j int) bool { return ks[i].EndTime.Before(ks[j].EndTime) })
		for i := 1; i < len(ks); i++ {
			r.Check(ks[i].EndTime.Sub(ks[i-1].EndTime) >= time.Second, "rate", "%s: spans %v apart kept in %+v", name, ks[i].EndTime.Sub(ks[i-1].EndTime), g)
		}
		r.Count("kept", len(ks))
	}
	r.Eval(fmt.Sprint("conc", round, cap0, len(seen), len(total)))
}

// firstTimes starts the first spans of a name from several goroutines at once,
// with and without sizes being set at the same time.
func firstTimes(r *mon.Run, rng *rand.Rand, n int) {
	for c := 0; c < n; c++ {
		name := fmt.Sprintf("c06-first-%d-%d", r.Shard, c)
		r.Case("%s", name)
		const k = 6
		var spans [k]*trace.Span
		var ready atomic.Int32
		sets := rng.IntN(3) == 0
		r.Par(k, func(i int) {
			for ready.Add(1); ready.Load() < k; {
				runtime.Gosched()
			}
			if sets && i == 0 {
				st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: 3, MaxRequestsErrors: 3}})
				return
			}
			_, spans[i] = trace.StartSpan(context.Background(), name, trace.WithSampler(trace.NeverSample()))
		})
		got := map[trace.SpanID]int{}
		for _, sd := range st.ReportActiveSpans(name) {
			got[sd.SpanContext.SpanID]++
		}
		running := 0
		for _, sp := range spans {
			if sp != nil {
				running++
				if got[sp.SpanContext().SpanID] != 1 {
					r.Violate("first-spans", "%d of the first spans of a name, started at once, are listed; one is listed %d times", len(got), got[sp.SpanContext().SpanID])
				}
				sp.End()
			}
		}
		r.Check(len(got) == running, "first-spans", "%d spans are listed, %d run", len(got), running)
		left := st.ReportActiveSpans(name)
		r.Check(len(left) == 0, "first-spans", "%d spans are listed after all have ended", len(left))
		kept := len(st.ReportSpansByLatency(name, 0, 0))
		r.Check(kept >= 1, "first-spans", "no span is kept of %d ended", running)
		r.Count("first_times", 1)
		if c%50 == 0 {
			r.Eval(fmt.Sprint("first", sets, running))
		}
	}
}

func run(r *mon.Run) {
	st = internal.Trace.(store)
	internal.LocalSpanStoreEnabled = true
	trace.RegisterExporter(out)
	rng := r.Rand("main")
	for _, k := range []string{"kept", "kept_errors", "rate_limited_or_disabled", "listings", "active_listings", "summaries", "reconfigurations", "concurrent_listings", "kept_band_6", "renamed_to_a_kept_name", "huge_sizes"} {
		r.Require(k, 1)
	}
	fresh(r, rng, r.N(150, 10))
	firstTimes(r, rng, r.N(1500, 10))
	exact(r)
	huge(r)
	secs := 11500 * time.Millisecond
	if r.Thorough() {
		secs = 63 * time.Second
	}
	n := 60
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("c06-%d-%d", r.Shard, i)
		if i%8 == 3 {
			names[i] += "/é <b>&"
		}
	}
	var wg sync.WaitGroup
	until := time.Now().Add(secs)
	for i := 0; i < n; i++ {
		w := &worker{r: r, rng: r.Rand(fmt.Sprint("w", i)), name: names[i], peers: names, snaps: map[trace.SpanID]trace.SpanData{}}
		w.m.errs = map[int32]*mbucket{}
		wg.Add(1)
		go func() { defer wg.Done(); w.r.Do("worker", func() { w.run(until) }) }()
	}
	for i := 0; time.Now().Before(until); i++ {
		concurrent(r, rng, i)
	}
	wg.Wait()
}
