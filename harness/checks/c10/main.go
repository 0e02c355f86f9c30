// Monitor for C10: tracestate lists.
package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C10", run) }

type entry = tracestate.Entry

func keyChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '*' || c == '/'
}

func keyPart(s string, max int) bool {
	if s == "" || len(s) > max || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !keyChar(s[i]) {
			return false
		}
	}
	return true
}

func validKey(s string) bool {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		return keyPart(s[:i], 241) && keyPart(s[i+1:], 14)
	}
	return keyPart(s, 256)
}

func validValue(s string) bool {
	if s == "" || len(s) > 256 || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == ',' || s[i] == '=' {
			return false
		}
	}
	return true
}

// model gives the entries New must produce.
func model(parent []entry, add []entry) ([]entry, bool) {
	seen := map[string]bool{}
	for _, e := range add {
		if !validKey(e.Key) || !validValue(e.Value) || seen[e.Key] {
			return nil, false
		}
		seen[e.Key] = true
	}
	out := append([]entry{}, add...)
	for _, e := range parent {
		if !seen[e.Key] {
			out = append(out, e)
		}
	}
	return out, len(out) <= 32
}

const keyAlpha = "abcxyz019_-*/"

func randKey(rng *rand.Rand) string {
	part := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = keyAlpha[rng.IntN(len(keyAlpha))]
		}
		if n > 0 && rng.IntN(8) > 0 {
			b[0] = 'a' + byte(rng.IntN(26))
		}
		return string(b)
	}
	switch rng.IntN(14) {
	case 0:
		return part(255 + rng.IntN(3))
	case 1:
		return part(240+rng.IntN(3)) + "@" + part(13+rng.IntN(3))
	case 2:
		return part(rng.IntN(4)) + "@" + part(rng.IntN(4))
	case 3:
		b := []byte(part(1 + rng.IntN(5)))
		b[rng.IntN(len(b))] = byte(rng.Uint32())
		return string(b)
	case 4:
		return ""
	case 5:
		return part(3) + "\n"
	default:
		return fmt.Sprintf("k%d", rng.IntN(40))
	}
}

func randValue(rng *rand.Rand) string {
	switch rng.IntN(12) {
	case 0:
		return strings.Repeat("v", 255+rng.IntN(3))
	case 1:
		return ""
	case 2:
		b := make([]byte, 1+rng.IntN(4))
		for i := range b {
			b[i] = byte(rng.Uint32())
		}
		return string(b)
	case 3:
		return "x" + strings.Repeat(" ", rng.IntN(3)) + []string{"", "y"}[rng.IntN(2)]
	case 4:
		return strings.Repeat(" ", rng.IntN(3)) + "x"
	case 5:
		return "v\n"
	default:
		return fmt.Sprintf("v%d", rng.IntN(1000))
	}
}

type obj struct {
	ts   *tracestate.Tracestate
	want []entry
}

func run(r *mon.Run) {
	rng := r.Rand("ts")
	r.Case("empty")
	ts, err := tracestate.New(nil)
	r.Check(ts == nil && err == nil, "new-empty", "New(nil) = %v, %v", ts, err)
	r.Check(len((*tracestate.Tracestate)(nil).Entries()) == 0, "nil-entries", "nil tracestate has entries")
	for c := 0; c < r.N(1500, 40); c++ {
		r.Case("chain %d", c)
		var objs []obj
		type arg struct{ given, snap []entry }
		var args []arg
		hostile := rng.IntN(2) == 0
		for i := 0; i < 12; i++ {
			var parent *tracestate.Tracestate
			var pw []entry
			if len(objs) > 0 && rng.IntN(5) > 0 {
				o := objs[rng.IntN(len(objs))]
				parent, pw = o.ts, o.want
			}
			n := rng.IntN(5)
			if rng.IntN(4) == 0 {
				n = 10 + rng.IntN(25)
			}
			// The caller's slice may have room to spare and be used again.
			add := make([]entry, 0, n+rng.IntN(40))
			for k := 0; k < n; k++ {
				e := entry{Key: fmt.Sprintf("k%d", rng.IntN(60)), Value: fmt.Sprintf("v%d", rng.IntN(1000))}
				if hostile && rng.IntN(4) == 0 {
					e = entry{Key: randKey(rng), Value: randValue(rng)}
				}
				dup := false
				for _, x := range add {
					dup = dup || x.Key == e.Key
				}
				if dup && rng.IntN(20) > 0 {
					continue
				}
				add = append(add, e)
			}
			if len(args) > 0 && rng.IntN(4) == 0 {
				add = args[rng.IntN(len(args))].given // the same slice once more
			}
			given := append([]entry{}, add...)
			var got *tracestate.Tracestate
			var err error
			if !r.Do("New", func() { got, err = tracestate.New(parent, add...) }) {
				continue
			}
			want, ok := model(pw, given)
			if ok != (err == nil) {
				r.Violate("accept", "New(parent %v, %v): error %v, want accepted=%v", pw, given, err, ok)
				continue
			}
			r.Eval(fmt.Sprint(pw, given))
			if !ok {
				r.Check(got == nil, "error-with-value", "New returns both an error and a list")
				r.Count("rejected", 1)
			} else {
				r.Count("accepted", 1)
				if parent == nil && len(given) == 0 {
					r.Check(got == nil, "new-empty", "New(nil) = %v", got)
				}
				if e := got.Entries(); !(len(e) == 0 && len(want) == 0) && !reflect.DeepEqual(e, want) {
					r.Violate("entries", "New(parent %v, %v) = %v want %v", pw, given, e, want)
				}
				objs = append(objs, obj{got, want})
				if c < 2 && i < 2 {
					r.Sample(map[string]any{"parent": pw, "add": given, "result": want})
				}
			}
			args = append(args, arg{add, given})
			r.Check(reflect.DeepEqual(add, given) || len(given) == 0, "argument-modified", "New changed its argument %v to %v", given, add)
			// The caller may do what it likes with its slice afterwards.
			if rng.IntN(3) == 0 && len(add) > 0 {
				k := rng.IntN(len(add))
				add[k] = entry{Key: fmt.Sprintf("k%d", rng.IntN(60)), Value: "mutated"}
				r.Count("caller_mutations", 1)
			}
			for k, o := range objs {
				if e := o.ts.Entries(); !(len(e) == 0 && len(o.want) == 0) && !reflect.DeepEqual(e, o.want) {
					r.Violate("not-immutable", "list %d changed from %v to %v", k, o.want, e)
					objs[k].want = append([]entry{}, e...)
				}
			}
		}
	}
	concurrent(r)
	r.Require("accepted", 1000)
	r.Require("rejected", 200)
}

// concurrent: lists derived from one parent and one argument slice in many goroutines.
func concurrent(r *mon.Run) {
	for c := 0; c < r.N(30, 30); c++ {
		r.Case("concurrent %d", c)
		base := make([]entry, 0, 64)
		for i := 0; i < 5; i++ {
			base = append(base, entry{Key: fmt.Sprintf("p%d", i), Value: "v"})
		}
		parent, err := tracestate.New(nil, base...)
		if err != nil {
			r.Violate("accept", "%v", err)
			return
		}
		shared := make([]entry, 0, 64)
		shared = append(shared, entry{Key: "p3", Value: "new"}, entry{Key: "s", Value: "x"})
		const g = 6
		out := make([]*tracestate.Tracestate, g)
		r.Par(g, func(i int) {
			a, err := tracestate.New(parent, shared...)
			if err == nil {
				out[i], err = tracestate.New(a, entry{Key: fmt.Sprintf("g%d", i), Value: "v"})
			}
			if err != nil {
				r.Violate("accept", "%v", err)
			}
			_ = len(parent.Entries())
		})
		for i, o := range out {
			w, _ := model(parent.Entries(), shared)
			w, _ = model(w, []entry{{Key: fmt.Sprintf("g%d", i), Value: "v"}})
			r.Check(reflect.DeepEqual(o.Entries(), w), "entries", "concurrent: %v want %v", o.Entries(), w)
		}
		r.Eval(fmt.Sprint("concurrent", c))
	}
}
