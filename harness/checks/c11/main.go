// Monitor for C11: tag maps in contexts.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime/pprof"
	"strings"

	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C11", run) }

type val struct {
	v   string
	ttl bool // travels to other processes
}

type node struct {
	ctx context.Context
	m   map[string]val
	set bool // has a tag map
}

func validText(s string) bool {
	if len(s) > 255 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

func validKey(s string) bool { return s != "" && validText(s) }

func randText(rng *rand.Rand, prefix string, n int) string {
	switch rng.IntN(16) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", 254+rng.IntN(3))
	case 2:
		b := make([]byte, 1+rng.IntN(5))
		for i := range b {
			b[i] = byte(rng.Uint32())
		}
		return string(b)
	case 3:
		return []string{"é", "日本", "\x7f", "\x1f", "a\x00b", "~", " ", "a b", "\xff"}[rng.IntN(9)]
	default:
		return fmt.Sprintf("%s%d", prefix, rng.IntN(n))
	}
}

func check(r *mon.Run, n *node, what string, names []string, keys map[string]tag.Key) bool {
	m := tag.FromContext(n.ctx)
	if (m != nil) != n.set {
		r.Violate("presence", "%s: tag map present=%v want %v", what, m != nil, n.set)
		return false
	}
	for _, name := range names {
		v, ok := m.Value(keys[name])
		w, wok := n.m[name]
		if ok != wok || v != w.v {
			r.Violate("value", "%s: tag %q = %q, %v want %q, %v", what, name, v, ok, w.v, wok)
			return false
		}
	}
	// Metadata shows in what travels.
	if d, err := tag.Decode(tag.Encode(m)); err != nil {
		r.Violate("reencode", "%s: %v", what, err)
	} else {
		for _, name := range names {
			v, ok := d.Value(keys[name])
			w, wok := n.m[name]
			wok = wok && w.ttl
			if ok != wok || ok && v != w.v {
				r.Violate("metadata", "%s: tag %q travels=%v want %v", what, name, ok, wok)
				return false
			}
		}
	}
	return true
}

type ctxKey int

type custom struct {
	f func(*tag.Map) (*tag.Map, error)
}

func (c custom) Mutate(m *tag.Map) (*tag.Map, error) { return c.f(m) }

func run(r *mon.Run) {
	rng := r.Rand("tag")
	r.Case("key validity")
	for i := 0; i < r.N(5000, 20); i++ {
		s := randText(rng, "key", 50)
		k, err := tag.NewKey(s)
		r.Check((err == nil) == validKey(s), "key-validity", "NewKey(%q): %v", s, err)
		if err == nil {
			k2, _ := tag.NewKey(s)
			r.Check(k == k2 && k.Name() == s, "key-identity", "NewKey(%q) gives %v and %v", s, k, k2)
		}
		func() { // the other way to make one panics instead
			defer func() {
				e := recover()
				r.Check((e == nil) == validKey(s), "key-validity", "MustNewKey(%q): panic %v", s, e)
			}()
			k3 := tag.MustNewKey(s)
			r.Check(k3 == k, "key-identity", "MustNewKey(%q) gives %v, NewKey %v", s, k3, k)
		}()
		r.Count("keys", 1)
		r.Eval("key" + s)
	}
	for c := 0; c < r.N(600, 40); c++ {
		r.Case("history %d", c)
		keys := map[string]tag.Key{}
		var names []string
		for len(names) < 6 {
			s := fmt.Sprintf("k%d", len(names))
			k, err := tag.NewKey(s)
			if err != nil {
				r.Violate("key-validity", "%v", err)
				return
			}
			keys[s] = k
			names = append(names, s)
		}
		nodes := []*node{{ctx: context.Background(), m: map[string]val{}}}
		var log []string
		steps := 6 + rng.IntN(20)
		for i := 0; i < steps; i++ {
			p := nodes[rng.IntN(len(nodes))]
			m := map[string]val{}
			for k, v := range p.m {
				m[k] = v
			}
			var muts []tag.Mutator
			failed := false
			desc := ""
			for n := rng.IntN(5); n > 0; n-- {
				name := names[rng.IntN(len(names))]
				v := fmt.Sprintf("v%d", rng.IntN(10))
				if rng.IntN(8) == 0 {
					v = randText(rng, "v", 10)
				}
				ttl := true
				var mds []tag.Metadata
				switch rng.IntN(5) {
				case 0:
					mds, ttl = []tag.Metadata{tag.WithTTL(tag.TTLNoPropagation)}, false
				case 1:
					mds = []tag.Metadata{tag.WithTTL(tag.TTLNoPropagation), tag.WithTTL(tag.TTLUnlimitedPropagation)}
				case 2:
					mds, ttl = []tag.Metadata{tag.WithTTL(tag.TTLUnlimitedPropagation), tag.WithTTL(tag.TTLNoPropagation)}, false
				}
				_, had := m[name]
				op := rng.IntN(5)
				var mut tag.Mutator
				switch op {
				case 0:
					mut = tag.Insert(keys[name], v, mds...)
					if !failed && validText(v) && !had {
						m[name] = val{v, ttl}
					}
				case 1:
					mut = tag.Update(keys[name], v, mds...)
					if !failed && validText(v) && had {
						m[name] = val{v, ttl}
					}
				case 2, 3:
					mut = tag.Upsert(keys[name], v, mds...)
					if !failed && validText(v) {
						m[name] = val{v, ttl}
					}
				default:
					mut = tag.Delete(keys[name])
					if !failed {
						delete(m, name)
					}
				}
				if op != 4 && !validText(v) {
					failed = true
				}
				if op != 4 && rng.IntN(40) == 0 { // the zero Key has no valid name
					mut = [...]func(tag.Key, string, ...tag.Metadata) tag.Mutator{tag.Insert, tag.Update, tag.Upsert, tag.Upsert}[op](tag.Key{}, v, mds...)
					failed, name = true, "zero key"
				}
				if rng.IntN(10) == 0 {
					inner := mut
					mut = custom{func(t *tag.Map) (*tag.Map, error) { return inner.Mutate(t) }}
				}
				if rng.IntN(40) == 0 {
					mut = custom{func(t *tag.Map) (*tag.Map, error) { return nil, fmt.Errorf("no") }}
					failed = true
					op = 9
				}
				muts = append(muts, mut)
				desc += fmt.Sprintf(" %d(%s,%.10q,%v)", op, name, v, ttl)
			}
			log = append(log, desc)
			ctx, err := tag.New(p.ctx, muts...)
			if failed {
				r.Count("failed_mutations", 1)
				r.Check(err != nil, "invalid-accepted", "invalid value accepted:%s", desc)
				r.Check(ctx == p.ctx, "error-context", "a failed New does not return the original context")
			} else {
				r.Count("mutations", 1)
				if err != nil {
					r.Violate("valid-rejected", "rejected:%s: %v", desc, err)
					continue
				}
				if rng.IntN(4) == 0 { // unrelated values in between
					ctx = context.WithValue(ctx, ctxKey(i), 1)
				}
				nodes = append(nodes, &node{ctx: ctx, m: m, set: true})
			}
			// Every context made so far still holds what it held.
			for k, n := range nodes {
				if !check(r, n, fmt.Sprintf("context %d after%s (log %v)", k, desc, log), names, keys) {
					break
				}
			}
			r.Eval(fmt.Sprint(log))
		}
		// String is sorted and stable, Do exposes the tags as profiler labels.
		n := nodes[rng.IntN(len(nodes))]
		a, b := tag.FromContext(n.ctx).String(), tag.FromContext(n.ctx).String()
		r.Check(a == b, "string-unstable", "%q then %q", a, b)
		ran := 0
		tag.Do(n.ctx, func(ctx context.Context) {
			ran++
			for _, name := range names {
				v, ok := pprof.Label(ctx, name)
				w, wok := n.m[name]
				r.Check(ok == wok && v == w.v, "profiler-label", "label %q = %q, %v want %q, %v", name, v, ok, w.v, wok)
			}
			check(r, &node{ctx: ctx, m: n.m, set: n.set}, "inside Do", names, keys)
		})
		r.Check(ran == 1, "do-runs", "Do ran its function %d times", ran)
		if c%20 == 0 {
			goroutineLabels(r, rng)
		}
		if c == 0 {
			r.Sample(log)
		}
	}
	concurrent(r)
	r.Require("labelled_runs", 10)
	r.Require("mutations", 1000)
	r.Require("failed_mutations", 100)
}

// goroutineLabels sees that the goroutine has the tags as labels while the function
// runs, and then those it had before.
func goroutineLabels(r *mon.Run, rng *rand.Rand) {
	profile := func() string {
		var b strings.Builder
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		return b.String()
	}
	k := tag.MustNewKey("key")
	ctx, outer := context.Background(), ""
	if rng.IntN(2) == 0 {
		outer = fmt.Sprintf("outer-%d", rng.Uint64())
		ctx, _ = tag.New(ctx, tag.Upsert(k, outer))
	}
	inner := fmt.Sprintf("inner-%d", rng.Uint64())
	panics := rng.IntN(3) == 0
	tag.Do(ctx, func(ctx context.Context) {
		func() {
			defer func() { recover() }()
			ctx, err := tag.New(ctx, tag.Upsert(k, inner))
			if err != nil {
				r.Violate("valid-rejected", "%v", err)
				return
			}
			tag.Do(ctx, func(context.Context) {
				r.Check(strings.Contains(profile(), inner), "goroutine-labels", "the goroutine running a function under %q is not labelled with it", inner)
				if panics {
					panic("the function")
				}
			})
		}()
		p := profile()
		r.Check(!strings.Contains(p, inner), "goroutine-labels", "the goroutine keeps the label %q after the function (panics %v)", inner, panics)
		r.Check(outer == "" || strings.Contains(p, outer), "goroutine-labels", "the goroutine loses the label %q after a function within", outer)
	})
	p := profile()
	r.Check(!strings.Contains(p, inner) && (outer == "" || !strings.Contains(p, outer)), "goroutine-labels", "the goroutine keeps its labels after the function")
	r.Count("labelled_runs", 1)
}

// concurrent: many goroutines derive from, read and encode one context.
func concurrent(r *mon.Run) {
	for c := 0; c < r.N(40, 30); c++ {
		r.Case("concurrent %d", c)
		a, b := tag.MustNewKey("a"), tag.MustNewKey("b")
		base, err := tag.New(context.Background(), tag.Insert(a, "base"), tag.Insert(b, "base"))
		if err != nil {
			r.Violate("valid-rejected", "%v", err)
			return
		}
		want := tag.Encode(tag.FromContext(base))
		r.Par(6, func(g int) {
			for i := 0; i < 20; i++ {
				v := fmt.Sprintf("%d-%d", g, i)
				ctx, err := tag.New(base, tag.Update(a, v), tag.Delete(b))
				if err != nil {
					r.Violate("valid-rejected", "%v", err)
					return
				}
				m := tag.FromContext(ctx)
				got, _ := m.Value(a)
				_, ok := m.Value(b)
				r.Check(got == v && !ok, "value", "concurrent: a=%q want %q, b present=%v", got, v, ok)
				bm := tag.FromContext(base)
				x, _ := bm.Value(a)
				y, _ := bm.Value(b)
				r.Check(x == "base" && y == "base", "value", "base changed to %q %q", x, y)
				r.Check(len(tag.Encode(bm)) == len(want), "value", "encoding of base changed")
				_ = bm.String()
			}
		})
		r.Check(reflect.DeepEqual(len(tag.Encode(tag.FromContext(base))), len(want)), "value", "encoding of base changed")
		r.Count("mutations", 120)
		r.Eval(fmt.Sprint("concurrent", c))
	}
}
