// Monitor for C09: HTTP header propagation (B3, W3C Trace Context, Stackdriver).
package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"net/http"
	"reflect"
	"strings"

	sd "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C09", run) }

type entry = tracestate.Entry

func request() *http.Request {
	return &http.Request{Method: "GET", Header: http.Header{}}
}

func run(r *mon.Run) {
	rng := r.Rand("http")
	roundTrips(r, rng)
	b3Parse(r, rng)
	w3cParse(r, rng)
	sdParse(r, rng)
	r.Require("round_trips", 1000)
	r.Require("b3_accepted", 500)
	r.Require("b3_rejected", 500)
	r.Require("w3c_accepted", 500)
	r.Require("w3c_rejected", 500)
	r.Require("w3c_tracestate_kept", 300)
	r.Require("w3c_tracestate_dropped", 300)
	r.Require("sd_accepted", 300)
	r.Require("sd_rejected", 300)
}

func randSC(rng *rand.Rand) trace.SpanContext {
	var sc trace.SpanContext
	binary.LittleEndian.PutUint64(sc.TraceID[:8], rng.Uint64())
	binary.LittleEndian.PutUint64(sc.TraceID[8:], rng.Uint64())
	binary.LittleEndian.PutUint64(sc.SpanID[:], rng.Uint64())
	if rng.IntN(3) == 0 { // leading and trailing zeros
		sc.TraceID = trace.TraceID{}
		sc.TraceID[rng.IntN(16)] = byte(1 + rng.IntN(255))
		sc.SpanID = trace.SpanID{}
		sc.SpanID[rng.IntN(8)] = byte(1 + rng.IntN(255))
	}
	return sc
}

func randTS(rng *rand.Rand) (*tracestate.Tracestate, []entry) {
	var es []entry
	for n := rng.IntN(34) - 1; n >= 0; n-- {
		v := fmt.Sprintf("v%d", rng.IntN(1e6))
		switch rng.IntN(6) {
		case 0:
			v = "  lead"
		case 1:
			v = "in ner\"!~"
		}
		es = append(es, entry{Key: fmt.Sprintf("k%d", n), Value: v})
	}
	if rng.IntN(10) == 0 {
		es = append(es[:min(len(es), 3)], entry{Key: "big", Value: strings.Repeat("x", 256)}, entry{Key: "big2", Value: strings.Repeat("y", rng.IntN(256)+1)})
	}
	if rng.IntN(3) == 0 {
		es = es[:min(len(es), 2)]
	}
	ts, err := tracestate.New(nil, es...)
	if err != nil || len(es) == 0 {
		return nil, nil
	}
	return ts, es
}

func headerLen(es []entry) int {
	n := 0
	for i, e := range es {
		if i > 0 {
			n++
		}
		n += len(e.Key) + 1 + len(e.Value)
	}
	return n
}

func roundTrips(r *mon.Run, rng *rand.Rand) {
	formats := []struct {
		name string
		f    propagation.HTTPFormat
		hdrs []string
	}{
		{"b3", &b3.HTTPFormat{}, []string{"X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled"}},
		{"w3c", &tracecontext.HTTPFormat{}, []string{"Traceparent", "Tracestate"}},
		{"stackdriver", &sd.HTTPFormat{}, []string{"X-Cloud-Trace-Context"}},
	}
	for i := 0; i < r.N(6000, 50); i++ {
		sc := randSC(rng)
		var es []entry
		sc.Tracestate, es = randTS(rng)
		for _, f := range formats {
			in := sc
			want := sc
			switch f.name {
			case "b3":
				in.TraceOptions = trace.TraceOptions(rng.IntN(2))
				want.Tracestate = nil
			case "w3c":
				in.TraceOptions = trace.TraceOptions(rng.IntN(256))
			case "stackdriver":
				in.TraceOptions = trace.TraceOptions(rng.IntN(256))
				want.Tracestate = nil
			}
			want.TraceOptions = in.TraceOptions
			req := request()
			req.Header.Set("X-Other", "keep")
			req.Header.Add("X-Multi", "1")
			req.Header.Add("X-Multi", "2")
			if rng.IntN(3) == 0 { // what an earlier hop left behind is replaced
				for _, h := range f.hdrs {
					for k := 1 + rng.IntN(2); k > 0; k-- {
						req.Header.Add(h, []string{"stale", "a=b", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}[rng.IntN(3)])
					}
				}
			}
			f.f.SpanContextToRequest(in, req)
			r.Check(req.Header.Get("X-Other") == "keep" && reflect.DeepEqual(req.Header["X-Multi"], []string{"1", "2"}), "other-headers", "%s touches other headers: %v", f.name, req.Header)
			for h, v := range req.Header {
				if h == "X-Other" || h == "X-Multi" {
					continue
				}
				known := false
				for _, k := range f.hdrs {
					known = known || k == h
				}
				r.Check(known && len(v) == 1, "extra-headers", "%s sets %s: %v", f.name, h, v)
			}
			got, ok := f.f.SpanContextFromRequest(req)
			gts := got.Tracestate
			got.Tracestate, want.Tracestate = nil, nil
			if !ok || got != want {
				r.Violate("round-trip", "%s: %+v travels as %v and arrives as %+v, %v", f.name, in, req.Header, got, ok)
				continue
			}
			if f.name == "w3c" {
				wantES := es
				if headerLen(es) > 512 {
					wantES = nil
				}
				if !(len(wantES) == 0 && len(gts.Entries()) == 0) && !reflect.DeepEqual(gts.Entries(), wantES) {
					r.Violate("tracestate-round-trip", "tracestate %v arrives as %v", es, gts.Entries())
				}
			} else {
				r.Check(gts == nil, "tracestate-invented", "%s invents a tracestate", f.name)
			}
			r.Count("round_trips", 1)
			r.Eval(fmt.Sprint(f.name, in))
			if i == 0 {
				r.Sample(map[string]any{"format": f.name, "headers": req.Header})
			}
		}
	}
}

func mutate(rng *rand.Rand, s string) string {
	b := []byte(s)
	for n := rng.IntN(3); n >= 0; n-- {
		if len(b) == 0 {
			return string(rune('0' + rng.IntN(10)))
		}
		p := rng.IntN(len(b))
		switch rng.IntN(6) {
		case 0:
			b = append(b[:p], b[p+1:]...)
		case 1:
			b = append(b[:p], append([]byte{b[p]}, b[p:]...)...)
		case 2:
			b[p] = byte(rng.Uint32())
		case 3:
			b = b[:p]
		case 4:
			const a = "0123456789abcdefgz-/;=o, \t+"
			b[p] = a[rng.IntN(len(a))]
		default:
			const a = "0123456789abcdef-"
			b = append(b[:p], append([]byte{a[rng.IntN(len(a))]}, b[p:]...)...)
		}
	}
	return string(b)
}

// near changes one thing about s, which stays well-formed more often than not.
func near(rng *rand.Rand, s string) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	p := rng.IntN(len(b))
	switch rng.IntN(4) {
	case 0: // the case of the next letter
		for i := range b {
			if c := b[(p+i)%len(b)] | 0x20; 'a' <= c && c <= 'z' {
				b[(p+i)%len(b)] ^= 0x20
				break
			}
		}
	case 1: // the next digit
		for i := range b {
			if c := b[(p+i)%len(b)]; '0' <= c && c <= '9' {
				b[(p+i)%len(b)] = '0' + (c-'0'+1+byte(rng.IntN(9)))%10
				break
			}
		}
	case 2:
		return mutate(rng, s)
	}
	return string(b)
}

// like returns a context that shares an ID with prev now and then.
func like(rng *rand.Rand, prev trace.SpanContext) trace.SpanContext {
	sc := randSC(rng)
	switch rng.IntN(8) {
	case 0:
		sc.TraceID = prev.TraceID
	case 1:
		sc.SpanID = prev.SpanID
	case 2:
		copy(sc.TraceID[8:], prev.TraceID[8:])
	}
	return sc
}

func unhex(s string) ([]byte, bool) {
	b, err := hex.DecodeString(s)
	return b, err == nil
}

func b3Parse(r *mon.Run, rng *rand.Rand) {
	f := &b3.HTTPFormat{}
	right := func(dst, b []byte) { copy(dst[len(dst)-len(b):], b) }
	var prev trace.SpanContext
	var prevTID, prevSID string
	for i := 0; i < r.N(30000, 30); i++ {
		if i%500 == 0 {
			r.Case("b3 %d", i)
		}
		sc := like(rng, prev)
		prev = sc
		tid, sid := hex.EncodeToString(sc.TraceID[:]), hex.EncodeToString(sc.SpanID[:])
		if rng.IntN(3) == 0 {
			tid = tid[16:] // 64-bit trace IDs
		}
		if rng.IntN(2) == 0 {
			tid = mutate(rng, tid)
		}
		if rng.IntN(3) == 0 {
			sid = mutate(rng, sid)
		}
		if rng.IntN(6) == 0 { // the headers before, but for a little
			tid, sid = near(rng, prevTID), prevSID
			if rng.IntN(2) == 0 {
				tid, sid = prevTID, near(rng, prevSID)
			}
		}
		prevTID, prevSID = tid, sid
		samp := []string{"", "0", "1", "true", "false", "d", "2", "True", "1 "}[rng.IntN(9)]
		req := request()
		set := func(h, v string) {
			if v != "" || rng.IntN(2) == 0 {
				req.Header[http.CanonicalHeaderKey(h)] = []string{v}
			}
		}
		set(b3.TraceIDHeader, tid)
		set(b3.SpanIDHeader, sid)
		set(b3.SampledHeader, samp)
		var got trace.SpanContext
		var ok bool
		if !r.Do("b3", func() { got, ok = f.SpanContextFromRequest(req) }) {
			continue
		}
		var want trace.SpanContext
		tb, tok := unhex(tid)
		sb, sok := unhex(sid)
		wok := tok && sok && len(tb) > 0 && len(tb) <= 16 && len(sb) > 0 && len(sb) <= 8
		if wok {
			right(want.TraceID[:], tb)
			right(want.SpanID[:], sb)
			if samp == "1" || samp == "true" {
				want.TraceOptions = 1
			}
		}
		if ok != wok || got != want {
			r.Violate("b3-parse", "B3 %v parses as %+v, %v want %+v, %v", req.Header, got, ok, want, wok)
		}
		if ok {
			r.Count("b3_accepted", 1)
		} else {
			r.Count("b3_rejected", 1)
		}
		r.Eval("b3" + tid + sid + samp)
	}
}

// w3cTraceparent is an independent reader of the traceparent header.
func w3cTraceparent(s string) (sc trace.SpanContext, ok bool) {
	// version(2) - trace(32) - span(16) - flags(2) [ - anything, for versions above 0 ]
	if len(s) < 55 || s[2] != '-' || s[35] != '-' || s[52] != '-' {
		return sc, false
	}
	v, ok1 := unhex(s[:2])
	t, ok2 := unhex(s[3:35])
	p, ok3 := unhex(s[36:52])
	fl, ok4 := unhex(s[53:55])
	if !ok1 || !ok2 || !ok3 || !ok4 || v[0] == 0xff {
		return trace.SpanContext{}, false
	}
	if len(s) > 55 && (v[0] == 0 || s[55] != '-') {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], t)
	copy(sc.SpanID[:], p)
	sc.TraceOptions = trace.TraceOptions(fl[0])
	if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) {
		return trace.SpanContext{}, false
	}
	return sc, true
}

func keyChar(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '*' || c == '/'
}

func keyPart(s string, max int) bool {
	if s == "" || len(s) > max || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !keyChar(s[i]) {
			return false
		}
	}
	return true
}

func validKey(s string) bool {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		return keyPart(s[:i], 241) && keyPart(s[i+1:], 14)
	}
	return keyPart(s, 256)
}

func validValue(s string) bool {
	if s == "" || len(s) > 256 || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == ',' || s[i] == '=' {
			return false
		}
	}
	return true
}

// w3cTracestate is an independent reader of the combined tracestate header;
// anything malformed drops the whole list.
func w3cTracestate(s string) []entry {
	if s == "" {
		return nil
	}
	var es []entry
	seen := map[string]bool{}
	total := -1
	for _, m := range strings.Split(s, ",") {
		m = strings.Trim(m, " \t")
		total += 1 + len(m)
		k, v, eq := strings.Cut(m, "=")
		if !eq || strings.Contains(v, "=") || !validKey(k) || !validValue(v) || seen[k] {
			return nil
		}
		seen[k] = true
		es = append(es, entry{Key: k, Value: v})
	}
	if total > 512 || len(es) > 32 {
		return nil
	}
	return es
}

func w3cParse(r *mon.Run, rng *rand.Rand) {
	f := &tracecontext.HTTPFormat{}
	var prev trace.SpanContext
	var prevTP string
	var prevLines []string
	for i := 0; i < r.N(40000, 30); i++ {
		if i%500 == 0 {
			r.Case("w3c %d", i)
		}
		sc := like(rng, prev)
		prev = sc
		ver := []string{"00", "00", "00", "01", "cc", "fe", "ff"}[rng.IntN(7)]
		tp := fmt.Sprintf("%s-%x-%x-%02x", ver, sc.TraceID[:], sc.SpanID[:], rng.IntN(256))
		switch rng.IntN(12) {
		case 0:
			tp += "-"
		case 1:
			tp += "-what-the-future-will-be-like"
		case 2:
			tp += "00"
		case 3:
			tp = fmt.Sprintf("%s-%032x-%x-01", ver, 0, sc.SpanID[:])
		case 4:
			tp = fmt.Sprintf("%s-%x-%016x-01", ver, sc.TraceID[:], 0)
		case 5, 6, 7:
			tp = mutate(rng, tp)
		case 8:
			tp = ""
		}
		var lines []string
		nl := 0
		if rng.IntN(3) > 0 {
			nl = 1 + rng.IntN(3)
		}
		id := 0
		for k := 0; k < nl; k++ {
			var ms []string
			n := 1 + rng.IntN(3)
			if rng.IntN(12) == 0 {
				n = 10 + rng.IntN(25)
			}
			for ; n > 0; n-- {
				id++
				m := fmt.Sprintf("k%d=v%d", id, rng.IntN(100))
				switch rng.IntN(30) {
				case 0:
					m = fmt.Sprintf("t%d@v%d=x", id, id)
				case 1:
					m = mutate(rng, m)
				case 2:
					m = fmt.Sprintf("k%d=%s", id, strings.Repeat("v", 220+rng.IntN(40)))
				case 3:
					m = "k1=again"
				}
				if rng.IntN(3) == 0 {
					m = " \t"[:1+rng.IntN(2)] + m + []string{"", " ", "\t"}[rng.IntN(3)]
				}
				ms = append(ms, m)
			}
			l := strings.Join(ms, ",")
			if rng.IntN(15) == 0 {
				l = mutate(rng, l)
			}
			lines = append(lines, l)
		}
		if rng.IntN(6) == 0 { // the headers before, but for a little
			tp, lines = prevTP, append([]string(nil), prevLines...)
			if len(lines) > 0 && rng.IntN(3) > 0 {
				k := rng.IntN(len(lines))
				lines[k] = near(rng, lines[k])
			} else {
				tp = near(rng, tp)
			}
		}
		prevTP, prevLines = tp, lines
		req := request()
		if tp != "" {
			req.Header["Traceparent"] = []string{tp}
		}
		if len(lines) > 0 {
			req.Header["Tracestate"] = lines
		}
		dup := tp != "" && rng.IntN(20) == 0 && strings.HasPrefix(tp, "00")
		if dup { // two traceparent headers are no traceparent
			req.Header["Traceparent"] = []string{tp, tp}
		}
		var got trace.SpanContext
		var ok bool
		if !r.Do("w3c", func() { got, ok = f.SpanContextFromRequest(req) }) {
			continue
		}
		want, wok := w3cTraceparent(tp)
		if dup {
			want, wok = trace.SpanContext{}, false
		}
		ts := strings.Join(lines, ",")
		gts := got.Tracestate
		got.Tracestate = nil
		if ok != wok || ok && got != want {
			r.Violate("w3c-traceparent", "traceparent %q parses as %+v, %v want %+v, %v", req.Header["Traceparent"], got, ok, want, wok)
		}
		if ok && wok {
			wts := w3cTracestate(ts)
			if !(len(wts) == 0 && len(gts.Entries()) == 0) && !reflect.DeepEqual(gts.Entries(), wts) {
				r.Violate("w3c-tracestate", "tracestate %q parses as %v want %v", lines, gts.Entries(), wts)
			}
			if ts != "" {
				if wts == nil {
					r.Count("w3c_tracestate_dropped", 1)
				} else {
					r.Count("w3c_tracestate_kept", 1)
				}
			}
			r.Count("w3c_accepted", 1)
		} else {
			r.Count("w3c_rejected", 1)
		}
		if !ok && (got != (trace.SpanContext{}) || gts != nil) {
			r.Violate("rejected-but-filled", "traceparent %q rejected but yields %+v", tp, got)
		}
		r.Eval("w3c" + tp + "|" + ts)
	}
}

func sdParse(r *mon.Run, rng *rand.Rand) {
	f := &sd.HTTPFormat{}
	var prev trace.SpanContext
	for i := 0; i < r.N(20000, 30); i++ {
		if i%500 == 0 {
			r.Case("stackdriver %d", i)
		}
		sc := like(rng, prev)
		prev = sc
		sid := binary.BigEndian.Uint64(sc.SpanID[:])
		tid := hex.EncodeToString(sc.TraceID[:])
		h := fmt.Sprintf("%s/%d", tid, sid)
		var want trace.SpanContext
		wok, known := true, true // known: the documented format settles the outcome
		want.TraceID, want.SpanID = sc.TraceID, sc.SpanID
		switch rng.IntN(14) {
		case 0:
		case 1:
			h += ";"
		case 2:
			h += ";x=1"
		case 3:
			h += ";o="
			wok = false
		case 4:
			h += ";o=x"
			wok = false
		case 5:
			h = tid
			wok = false
		case 6:
			h = "z" + tid[1:] + h[32:]
			wok = false
		case 7:
			h = tid + "/"
			wok = false
		case 8:
			h = tid + "/18446744073709551616;o=1" // one past the largest span ID
			wok = false
		case 9:
			h = tid + "/-1;o=1"
			wok = false
		case 10:
			h = h + ";o=1" + strings.Repeat(" ", 200)
			wok = false
		case 11:
			h = mutate(rng, h+";o=1")
			known = false
		case 12:
			h = ""
			wok = false
		default:
			o := rng.IntN(4)
			h += fmt.Sprintf(";o=%d", o)
			want.TraceOptions = trace.TraceOptions(o)
		}
		req := request()
		if h != "" {
			req.Header.Set("X-Cloud-Trace-Context", h)
		}
		var got trace.SpanContext
		var ok bool
		if !r.Do("stackdriver", func() { got, ok = f.SpanContextFromRequest(req) }) {
			continue
		}
		if !wok {
			want = trace.SpanContext{}
		}
		if known && (ok != wok || got != want) {
			r.Violate("stackdriver-parse", "%q parses as %+v, %v want %+v, %v", h, got, ok, want, wok)
		}
		if !ok {
			r.Check(got == trace.SpanContext{}, "rejected-but-filled", "%q rejected but yields %+v", h, got)
			r.Count("sd_rejected", 1)
		} else {
			r.Count("sd_accepted", 1)
		}
		r.Eval("sd" + h)
	}
}
