// Monitor for C22: resources, their label encoding and their detectors.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"reflect"
	"strconv"
	"strings"

	"go.opencensus.io/resource"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C22", run) }

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

// decode is an independent reader of the label format: key="value" items,
// separated by commas, with white space around items; the key ends where the
// first =" begins, the value is a quoted string with escapes. The last result
// is false where the format does not say enough to judge.
func decode(s string) (m map[string]string, ok, judged bool) {
	m = map[string]string{}
	if strings.Contains(s, "\v") || strings.Contains(s, "\u0085") || strings.Contains(s, "\u00a0") {
		// Whether these are spaces is not promised.
		return nil, false, false
	}
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	for len(s) > 0 && s[len(s)-1] == ',' {
		s = s[:len(s)-1]
	}
	s += ","
	for len(s) > 0 {
		spaces := len(s)
		for len(s) > 0 && space(s[0]) {
			s = s[1:]
		}
		spaces -= len(s)
		at := strings.Index(s, `="`)
		if at == 0 && spaces > 0 {
			// Whether the spaces are around the item or its key is not promised.
			return nil, false, false
		}
		if at < 0 {
			return nil, false, true
		}
		key := s[:at]
		if strings.ContainsRune(key, '"') {
			// A quote within a key is neither promised nor excluded.
			return nil, false, false
		}
		if at == 0 || at > 256 || !ascii(key) {
			// An empty or over-long key: whether an =" further on may still
			// end the key is not promised.
			if at == 0 && strings.Contains(s[1:], `="`) {
				return nil, false, false
			}
			return nil, false, true
		}
		rest := s[at+1:]
		end := 1
		for end < len(rest) && rest[end] != '"' {
			if rest[end] == '\\' {
				end++
			}
			end++
		}
		if end >= len(rest) {
			return nil, false, true
		}
		quoted := rest[:end+1]
		rest = rest[end+1:]
		if !ascii(quoted) {
			return nil, false, true
		}
		if len(quoted) > 258 {
			// The limit on values may count escapes or what they stand for.
			return nil, false, len(quoted) > 258 && !strings.Contains(quoted, `\`)
		}
		v, err := strconv.Unquote(quoted)
		if err != nil {
			return nil, false, true
		}
		for len(rest) > 0 && space(rest[0]) {
			rest = rest[1:]
		}
		if len(rest) == 0 || rest[0] != ',' {
			return nil, false, true
		}
		m[key] = v
		s = rest[1:]
	}
	return m, true, true
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func check(r *mon.Run, s string) {
	var got map[string]string
	var err error
	if !r.Do(fmt.Sprintf("DecodeLabels(%q)", s), func() { got, err = resource.DecodeLabels(s) }) {
		return
	}
	r.Eval("d" + s)
	if err != nil && got != nil {
		r.Violate("decode-partial", "DecodeLabels(%q) = %q with error %v", s, got, err)
	}
	want, ok, judged := decode(s)
	if !judged {
		r.Count("unjudged", 1)
		return
	}
	if !ok {
		r.Count("rejected", 1)
		r.Check(err != nil, "decode-accepts", "DecodeLabels(%q) = %q, want an error", s, got)
		return
	}
	r.Count("accepted", 1)
	r.Check(err == nil && reflect.DeepEqual(got, want), "decode", "DecodeLabels(%q) = %q, %v, want %q", s, got, err, want)
}

const keyChars = "abcXYZ019_-./:@#$%&*()[]{}<>?!;'|~+^ ,"
const valueChars = "abc019 _-./:,=\"\\'`\n\t\r\x00\x01\x7f{}[]$%,,\"\"=="

func text(rng *rand.Rand, chars string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[rng.IntN(len(chars))]
	}
	return string(b)
}

func key(rng *rand.Rand) string {
	n := 1 + rng.IntN(12)
	if rng.IntN(20) == 0 {
		n = 250 + rng.IntN(7)
	}
	k := text(rng, keyChars, n)
	if rng.IntN(8) == 0 { // an equals sign, not at the end
		at := rng.IntN(len(k))
		k = k[:at] + "=" + k[at+1:]
		k = k[:len(k)-1] + "k"
	}
	k = strings.TrimRight(strings.TrimLeft(k, " "), ",")
	if k == "" {
		return "k"
	}
	return k
}

func value(rng *rand.Rand) string {
	switch rng.IntN(10) {
	case 0:
		return ""
	case 1:
		return text(rng, "abc", 250+rng.IntN(7))
	case 2: // nothing but what needs quoting, kept within the limit once quoted
		return text(rng, "\"\\\n", rng.IntN(120))
	case 3: // bytes that are no text are quoted too
		return string([]byte{0xff, byte(0x80 + rng.IntN(0x40))}) + text(rng, "ab", 2)
	case 4:
		return [...]string{`",`, `",x="y`, `"`, `\`, `\"`, `\",`, `,`, `="`, `","`, `a="b",`, `\\`, `x" ,`}[rng.IntN(12)]
	}
	return text(rng, valueChars, rng.IntN(30))
}

func labels(rng *rand.Rand, n int) map[string]string {
	m := map[string]string{}
	for len(m) < n {
		m[key(rng)] = value(rng)
	}
	return m
}

func clone(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func roundTrips(r *mon.Run, rng *rand.Rand) {
	for i := 0; i < r.N(6000, 40); i++ {
		if i%500 == 0 {
			r.Case("round trip %d", i)
		}
		m := labels(rng, 1+rng.IntN(5))
		want := clone(m)
		s := resource.EncodeLabels(m)
		r.Check(s == resource.EncodeLabels(m), "encode-differs", "two encodings of %q differ", m)
		r.Check(reflect.DeepEqual(m, want), "encode-modifies", "encoding changed %q to %q", want, m)
		got, err := resource.DecodeLabels(s)
		r.Check(err == nil && reflect.DeepEqual(got, want), "round-trip", "DecodeLabels(EncodeLabels(%q)) = %q, %v (encoded %s)", want, got, err, s)
		r.Eval("r" + s)
		r.Count("round_trips", 1)
		if i == 2 {
			r.Sample(s)
		}
		check(r, s)
		// The same list laid out differently, cut and changed.
		for n := 0; n < 3; n++ {
			check(r, mutate(rng, s))
		}
	}
	for _, s := range []string{`a="b",`, ` a="b" `, `a="b",c="d",`, `a="b",,`, `a="b",,c="d"`, `a=b`, `a="b`, `a="b"c="d"`, `a="b" c="d"`,
		`="b"`, `a="\q"`, `a="\x4"`, `a="b";`, `a='b'`, "a=`b`", `é="b"`, `a="é"`, `a="b",a="c"`, "a=\"b\nc\"", `a = "b"`, "a\n=\"b\""} {
		check(r, s)
	}
	for n := 250; n < 264; n++ {
		check(r, strings.Repeat("k", n)+`="v"`)
		check(r, `k="`+strings.Repeat("v", n)+`"`)
	}
}

func mutate(rng *rand.Rand, s string) string {
	b := []byte(s)
	switch rng.IntN(6) {
	case 0:
		return s[:rng.IntN(len(s)+1)]
	case 1:
		return s + s
	case 2:
		return strings.Replace(s, ",", " ,\t ", 1+rng.IntN(3))
	case 3:
		at := rng.IntN(len(b))
		return string(b[:at]) + string(b[at+1:])
	case 4:
		b[rng.IntN(len(b))] = valueChars[rng.IntN(len(valueChars))]
		return string(b)
	}
	at := rng.IntN(len(b) + 1)
	return string(b[:at]) + [...]string{`"`, `\`, `,`, `=`, ` `, `é`, `="`, `",`}[rng.IntN(8)] + string(b[at:])
}

func fromEnv(r *mon.Run, rng *rand.Rand) {
	pad := func(s string) string {
		return strings.Repeat(" ", rng.IntN(3)) + s + strings.Repeat(" ", rng.IntN(3))
	}
	for i := 0; i < r.N(600, 20); i++ {
		typ := [...]string{"", "k8s.io/container", "t", "a b"}[rng.IntN(4)]
		var want map[string]string
		enc, ok := "", true
		switch rng.IntN(4) {
		case 0:
		case 1:
			enc = [...]string{`x`, `x=y`, `x="`, `,`, `a="b",c`}[rng.IntN(5)]
			ok = false
		default:
			want = map[string]string{}
			for len(want) == 0 {
				want = labels(rng, 1+rng.IntN(3))
			}
			enc = resource.EncodeLabels(want)
		}
		if strings.ContainsRune(enc, 0) {
			continue
		}
		os.Setenv(resource.EnvVarType, pad(typ))
		os.Setenv(resource.EnvVarLabels, pad(enc))
		if rng.IntN(10) == 0 && enc == "" {
			os.Unsetenv(resource.EnvVarLabels)
		}
		got, err := resource.FromEnv(context.Background())
		r.Eval("e" + typ + enc)
		r.Count("environments", 1)
		if !ok {
			r.Check(err != nil && got == nil, "from-env-accepts", "FromEnv with labels %q = %v, %v", enc, got, err)
			continue
		}
		r.Check(err == nil && got != nil && got.Type == typ && len(got.Labels) == len(want) && (len(want) == 0 || reflect.DeepEqual(got.Labels, want)),
			"from-env", "FromEnv with type %q and labels %q = %+v, %v", typ, enc, got, err)
		// Each resource is the caller's own, to add to.
		if got != nil && got.Labels != nil {
			for k := range got.Labels {
				got.Labels[k] = "changed"
			}
			got.Labels["added"] = "by the caller"
			again, err := resource.FromEnv(context.Background())
			r.Check(err == nil && again != nil && len(again.Labels) == len(want) && (len(want) == 0 || reflect.DeepEqual(again.Labels, want)),
				"from-env-shared", "FromEnv with labels %q = %+v, %v after what it gave before was changed", enc, again, err)
		}
	}
	os.Unsetenv(resource.EnvVarType)
	os.Unsetenv(resource.EnvVarLabels)
}

type ctxKey struct{}

func detectors(r *mon.Run, rng *rand.Rand) {
	for i := 0; i < r.N(4000, 40); i++ {
		if i%500 == 0 {
			r.Case("detectors %d", i)
		}
		n := rng.IntN(6)
		failAt := -1
		if rng.IntN(3) == 0 && n > 0 {
			failAt = rng.IntN(n)
		}
		fail := errors.New("detector failed")
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		var calls []int
		var given, before []*resource.Resource
		var ds []resource.Detector
		var want *resource.Resource
		log := ""
		for d := 0; d < n; d++ {
			var res *resource.Resource
			if rng.IntN(4) > 0 {
				res = &resource.Resource{Type: [...]string{"", "t1", "t2"}[rng.IntN(3)]}
				if rng.IntN(5) > 0 {
					res.Labels = map[string]string{}
					for k := rng.IntN(4); k > 0; k-- {
						res.Labels[fmt.Sprint("k", rng.IntN(5))] = [...]string{"", fmt.Sprint("v", d), "same"}[rng.IntN(3)]
					}
				}
			}
			if d > 0 && rng.IntN(6) == 0 {
				res = given[rng.IntN(d)] // two detectors may return one resource
			}
			given = append(given, res)
			var b *resource.Resource
			if res != nil {
				b = &resource.Resource{Type: res.Type, Labels: clone(res.Labels)}
			}
			before = append(before, b)
			log += fmt.Sprintf("%v;", res)
			if b != nil && (failAt < 0 || d < failAt) {
				if want == nil {
					want = &resource.Resource{Labels: map[string]string{}}
				}
				if want.Type == "" {
					want.Type = b.Type
				}
				for k, v := range b.Labels {
					if _, ok := want.Labels[k]; !ok {
						want.Labels[k] = v
					}
				}
			}
			ds = append(ds, func(c context.Context) (*resource.Resource, error) {
				calls = append(calls, d)
				if c.Value(ctxKey{}) != i {
					r.Violate("detector-context", "detector %d got another context", d)
				}
				if d == failAt {
					// What comes with an error is not a result.
					return res, fail
				}
				return res, nil
			})
		}
		multi := resource.MultiDetector(ds...)
		if n > 1 && rng.IntN(4) == 0 { // nested, which must not matter
			at := 1 + rng.IntN(n-1)
			multi = resource.MultiDetector(resource.MultiDetector(ds[:at]...), resource.MultiDetector(ds[at:]...))
		}
		for round := 0; round < 2; round++ { // a detector may be used again
			calls = nil
			got, err := multi(ctx)
			wantCalls := n
			if failAt >= 0 {
				wantCalls = failAt + 1
			}
			inOrder := len(calls) == wantCalls
			for k, c := range calls {
				inOrder = inOrder && c == k
			}
			r.Check(inOrder, "detector-calls", "detectors %s failing at %d called as %v", log, failAt, calls)
			if failAt >= 0 {
				r.Check(err == fail && got == nil, "detector-error", "detectors %s failing at %d: %v, %v", log, failAt, got, err)
				r.Count("failed_detections", 1)
			} else {
				r.Check(err == nil && same(got, want), "detector-merge", "detectors %s: %+v, %v, want %+v", log, got, err, want)
				r.Count("merged_detections", 1)
			}
			for d := range given {
				r.Check(equal(given[d], before[d]), "detector-modified", "detectors %s: resource %d changed to %+v", log, d, given[d])
			}
		}
		r.Eval(fmt.Sprint("m", failAt, log))
	}
}

// same compares resources by content: no labels may be nil or empty.
func same(a, b *resource.Resource) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Type == b.Type && len(a.Labels) == len(b.Labels) && (len(a.Labels) == 0 || reflect.DeepEqual(a.Labels, b.Labels))
}

func equal(a, b *resource.Resource) bool { return reflect.DeepEqual(a, b) }

func run(r *mon.Run) {
	rng := r.Rand("c22")
	roundTrips(r, rng)
	fromEnv(r, rng)
	detectors(r, rng)
	r.Case("concurrent")
	shared := labels(rng, 4)
	enc := resource.EncodeLabels(shared)
	base := &resource.Resource{Type: "t", Labels: shared}
	multi := resource.MultiDetector(
		func(context.Context) (*resource.Resource, error) { return base, nil },
		func(context.Context) (*resource.Resource, error) {
			return &resource.Resource{Labels: map[string]string{"own": "x"}}, nil
		},
	)
	r.Par(6, func(g int) {
		for i := 0; i < 200; i++ {
			if resource.EncodeLabels(shared) != enc {
				r.Violate("encode-differs", "concurrent encodings of %q differ", shared)
			}
			if m, err := resource.DecodeLabels(enc); err != nil || !reflect.DeepEqual(m, shared) {
				r.Violate("round-trip", "concurrent decoding of %s: %q, %v", enc, m, err)
			}
			if got, err := multi(context.Background()); err != nil || len(got.Labels) != len(shared)+1 {
				r.Violate("detector-merge", "concurrent detection: %v, %v", got, err)
			}
		}
	})
	r.Require("round_trips", 1000)
	r.Require("accepted", 1000)
	r.Require("rejected", 300)
	r.Require("merged_detections", 500)
	r.Require("failed_detections", 200)
	r.Require("environments", 100)
}
