// Monitor for C13: view rows aggregate exactly the measurements recorded.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

func main() { mon.Main("C13", run) }

// retriever is the default meter, or one made by NewMeter.
type retriever struct {
	m view.Meter // nil: the default one
}

func (t retriever) register(vs ...*view.View) error {
	if t.m == nil {
		return view.Register(vs...)
	}
	return t.m.Register(vs...)
}

func (t retriever) unregister(vs ...*view.View) {
	if t.m == nil {
		view.Unregister(vs...)
	} else {
		t.m.Unregister(vs...)
	}
}

func (t retriever) rows(name string) ([]*view.Row, error) {
	if t.m == nil {
		return view.RetrieveData(name)
	}
	return t.m.RetrieveData(name)
}

// frozen is a retrieved snapshot and the model state it showed.
type frozen struct {
	v    *vm.View
	rows []*view.Row
}

func cloneView(v *vm.View) *vm.View {
	c := *v
	c.Rows = map[string]*vm.Row{}
	for k, r := range v.Rows {
		rc := *r
		rc.Vals = append([]float64{}, r.Vals...)
		rc.Ex = map[int]*vm.Exemplar{}
		for i, e := range r.Ex {
			rc.Ex[i] = e
		}
		c.Rows[k] = &rc
	}
	return &c
}

func history(r *mon.Run, rng *rand.Rand, c int) {
	var t retriever
	if c%3 != 0 {
		t.m = view.NewMeter()
		t.m.Start()
		defer t.m.Stop()
	}
	keys := vm.Keys(1 + rng.IntN(4) + rng.IntN(12)*(rng.IntN(6)/5))
	var ms []*vm.Measure
	for k := 1 + rng.IntN(3); k > 0; k-- {
		ms = append(ms, vm.NewMeasure(rng))
	}
	var reg, gone []*vm.View
	var log []string
	var snaps []frozen
	logf := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	check := func(v *vm.View) {
		rows, err := t.rows(v.V.Name)
		if err != nil {
			r.Violate("retrieve", "rows of registered view: %v; ops %s", err, strings.Join(log, "; "))
			return
		}
		if d := v.DiffRows(rows); d != "" {
			r.Violate("rows", "view %s over %s keys %v: %s; ops %s", v.Type, v.M.Name, v.Keys, d, strings.Join(log, "; "))
		}
		r.Count("rows_compared", len(rows))
		if rng.IntN(4) == 0 {
			snaps = append(snaps, frozen{cloneView(v), rows})
		}
	}
	newViews := func(n int) {
		var vs []*vm.View
		var raw []*view.View
		for ; n > 0; n-- {
			m := ms[rng.IntN(len(ms))]
			v := vm.NewView(rng, m, keys)
			if rng.IntN(5) == 0 && len(reg) > 0 {
				o := reg[rng.IntN(len(reg))]
				if o.Type == view.AggTypeDistribution { // share the aggregation of another view
					v.Type, v.Bounds, v.V.Aggregation = o.Type, o.Bounds, o.V.Aggregation
				}
			}
			vs = append(vs, v)
			raw = append(raw, v.V)
		}
		if err := t.register(raw...); err != nil {
			r.Violate("register", "valid views rejected: %v", err)
			return
		}
		for _, v := range vs {
			logf("register %s %s(%s) bounds %v by %v", v.V.Name, v.Type, v.M.Name, v.Bounds, v.Keys)
		}
		reg = append(reg, vs...)
	}
	newViews(1 + rng.IntN(4))
	recorded := 0
	for i := 20 + rng.IntN(120); i > 0; i-- {
		switch rng.IntN(16) {
		case 0:
			newViews(1)
		case 1:
			if len(reg) > 1 {
				j := rng.IntN(len(reg))
				v := reg[j]
				t.unregister(v.V)
				logf("unregister %s", v.V.Name)
				reg = append(reg[:j:j], reg[j+1:]...)
				gone = append(gone, v)
				if _, err := t.rows(v.V.Name); err == nil {
					r.Violate("unregistered-rows", "rows of unregistered view returned")
				}
			}
		case 2:
			if len(gone) > 0 { // comes back empty
				v := gone[len(gone)-1]
				gone = gone[:len(gone)-1]
				v.Rows = map[string]*vm.Row{}
				if err := t.register(v.V); err != nil {
					r.Violate("register", "re-registration rejected: %v", err)
					return
				}
				reg = append(reg, v)
				logf("re-register %s", v.V.Name)
			}
		case 3:
			v := reg[rng.IntN(len(reg))]
			if err := t.register(v.V); err != nil { // again: nothing changes
				r.Violate("register", "registering again rejected: %v", err)
			}
		case 4, 5:
			check(reg[rng.IntN(len(reg))])
		default:
			ctx, muts, tags := vm.Tags(rng, keys)
			var meas []stats.Measurement
			type rec struct {
				m *vm.Measure
				v float64
			}
			var recs []rec
			for k := 1 + rng.IntN(6); k > 0; k-- {
				m := ms[rng.IntN(len(ms))]
				x := vm.Value(rng)
				meas = append(meas, m.M(x))
				recs = append(recs, rec{m, m.Value(x)})
				if rng.IntN(20) == 0 {
					meas = append(meas, stats.Measurement{})
				}
			}
			var att map[string]any
			if rng.IntN(3) == 0 {
				att = map[string]any{"id": rng.Uint32()}
				if rng.IntN(2) == 0 {
					att["s"] = "x"
				}
			}
			t0 := time.Now()
			var err error
			fail := false
			switch k := rng.IntN(5); {
			case t.m == nil && att == nil && k == 0:
				stats.Record(ctx, meas...)
			case t.m == nil && att == nil && k == 1:
				err = stats.RecordWithTags(context.Background(), muts, meas...)
			default:
				opts := []stats.Options{stats.WithMeasurements(meas...)}
				if t.m != nil {
					opts = append(opts, stats.WithRecorder(t.m))
				}
				// The attachments handed over may be reused afterwards.
				give := map[string]any{}
				if att != nil {
					for k, v := range att {
						give[k] = v
					}
					opts = append(opts, stats.WithAttachments(give))
				}
				switch rng.IntN(4) {
				case 0:
					opts = append(opts, stats.WithTags(muts...))
					ctx = context.Background()
				case 1: // change the context's tags for this recording only
					kk := keys[rng.IntN(len(keys))]
					opts = append(opts, stats.WithTags(tag.Upsert(kk, "override")))
					tags[kk.Name()] = "override"
				case 2:
					if rng.IntN(3) == 0 {
						fail = true
						opts = append(opts, stats.WithTags(tag.Upsert(keys[0], "ok"), tag.Upsert(keys[0], "bad\x01")))
					}
				}
				rng.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
				err = stats.RecordWithOptions(ctx, opts...)
				for k := range give {
					give[k] = "reused"
				}
			}
			// So may the measurements.
			for i := range meas {
				meas[i] = ms[0].M(123456)
			}
			t1 := time.Now()
			any := false
			for _, x := range recs {
				for _, v := range reg {
					any = any || v.M == x.m
				}
			}
			if fail {
				if any {
					r.Check(err != nil, "bad-tags", "recording with an invalid tag succeeds")
				}
				r.Count("failed_records", 1)
				continue
			}
			if err != nil {
				r.Violate("record-error", "recording fails: %v", err)
				continue
			}
			logf("record %v tags %v att %v", recs, short(tags), att != nil)
			for _, x := range recs {
				for _, v := range reg {
					if v.M == x.m {
						v.Add(tags, x.v, att, t0, t1)
					}
				}
			}
			recorded++
			r.Count("recorded", len(recs))
		}
	}
	rows := 0
	for _, v := range reg {
		check(v)
		rows += len(v.Rows)
	}
	for _, f := range snaps {
		if d := f.v.DiffRows(f.rows); d != "" {
			r.Violate("snapshot-changed", "rows retrieved earlier changed afterwards: %s", d)
		}
		r.Count("snapshots_rechecked", 1)
	}
	if t.m == nil {
		for _, v := range reg {
			t.unregister(v.V)
		}
	}
	key := ""
	if rows > 0 {
		key = strings.Join(log, ";")
	}
	r.Eval(key)
	if c == 4 {
		r.Sample(log[:min(len(log), 25)])
	}
}

func short(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		if len(v) > 50 {
			v = fmt.Sprintf("%s..(%d)", v[:3], len(v))
		}
		out[k] = v
	}
	return out
}

func run(r *mon.Run) {
	rng := r.Rand("history")
	for _, k := range []string{"rows_compared", "recorded", "failed_records", "snapshots_rechecked"} {
		r.Require(k, 1)
	}
	n := r.N(300, 40)
	for c := 0; c < n; c++ {
		r.Case("history %d", c)
		history(r, rng, c)
	}
}
