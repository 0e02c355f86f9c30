// Monitor for C08: the binary span context codec.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand/v2"

	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C08", run) }

// decode is an independent reader of the documented format.
func decode(b []byte) (trace.SpanContext, bool) {
	var sc trace.SpanContext
	r := bytes.NewReader(b)
	version, err := r.ReadByte()
	if err != nil || version != 0 {
		return sc, false
	}
	field := func(id byte, n int) []byte {
		pos := len(b) - r.Len()
		if pos >= len(b) || b[pos] != id || pos+1+n > len(b) {
			return nil
		}
		out := b[pos+1 : pos+1+n]
		r.Seek(int64(pos+1+n), 0)
		return out
	}
	t := field(0, 16)
	if t == nil {
		return sc, false
	}
	copy(sc.TraceID[:], t)
	if s := field(1, 8); s != nil {
		copy(sc.SpanID[:], s)
	}
	if o := field(2, 1); o != nil {
		sc.TraceOptions = trace.TraceOptions(o[0])
	}
	return sc, true
}

func randSC(rng *rand.Rand) trace.SpanContext {
	var sc trace.SpanContext
	switch rng.IntN(6) {
	case 0: // only a trace ID
		binary.LittleEndian.PutUint64(sc.TraceID[rng.IntN(9):], rng.Uint64()|1)
	case 1: // only a span ID
		sc.SpanID[rng.IntN(8)] = byte(1 + rng.IntN(255))
	case 2: // only options
		sc.TraceOptions = trace.TraceOptions(1 + rng.IntN(255))
	default:
		binary.LittleEndian.PutUint64(sc.TraceID[:8], rng.Uint64())
		binary.LittleEndian.PutUint64(sc.TraceID[8:], rng.Uint64())
		binary.LittleEndian.PutUint64(sc.SpanID[:], rng.Uint64())
		sc.TraceOptions = trace.TraceOptions(rng.IntN(256))
	}
	return sc
}

func check(r *mon.Run, in []byte) {
	keep := append([]byte{}, in...)
	var sc trace.SpanContext
	var ok bool
	if !r.Do("FromBinary", func() { sc, ok = propagation.FromBinary(in) }) {
		r.Violate("decode-panic", "FromBinary(%x) panics", in)
		return
	}
	want, wok := decode(in)
	if ok != wok || ok && sc != want {
		r.Violate("decode", "FromBinary(%x) = %+v, %v want %+v, %v", in, sc, ok, want, wok)
	}
	if !ok && sc != (trace.SpanContext{}) {
		r.Violate("rejected-but-filled", "FromBinary(%x) rejects but returns %+v", in, sc)
	}
	r.Check(bytes.Equal(in, keep), "input-modified", "FromBinary modified its input %x", keep)
	r.Count("decoded", 1)
	if ok {
		r.Count("accepted", 1)
	} else {
		r.Count("rejected", 1)
	}
	r.Eval(string(in))
}

func run(r *mon.Run) {
	rng := r.Rand("bin")
	r.Case("encode")
	r.Check(propagation.Binary(trace.SpanContext{}) == nil, "zero-context", "Binary of the zero context is %x", propagation.Binary(trace.SpanContext{}))
	var encs [][]byte
	for i := 0; i < r.N(20000, 50); i++ {
		sc := randSC(rng)
		b := propagation.Binary(sc)
		want := append([]byte{0, 0}, sc.TraceID[:]...)
		want = append(append(append(want, 1), sc.SpanID[:]...), 2, byte(sc.TraceOptions))
		r.Check(bytes.Equal(b, want), "encode", "Binary(%+v) = %x want %x", sc, b, want)
		back, ok := propagation.FromBinary(b)
		r.Check(ok && back == sc, "round-trip", "round trip of %+v gives %+v, %v", sc, back, ok)
		// Encodings are independent of each other.
		if len(encs) < 50 {
			encs = append(encs, b)
		}
		r.Count("round_trips", 1)
		r.Eval(string(b))
		if i < 2 {
			r.Sample(hex.EncodeToString(b))
		}
	}
	snap := make([][]byte, len(encs))
	for i := range encs {
		snap[i] = append([]byte{}, encs[i]...)
	}
	for i := range encs {
		for k := range encs[i] {
			encs[i][k] ^= 0x5a
		}
		for j := i + 1; j < len(encs); j++ {
			r.Check(bytes.Equal(encs[j], snap[j]), "shared-encoding", "changing one encoding changes another")
		}
	}
	// The process-local part does not leak into the encoding.
	ts, _ := tracestate.New(nil, tracestate.Entry{Key: "a", Value: "b"})
	sc := randSC(rng)
	plain := propagation.Binary(trace.SpanContext{TraceID: sc.TraceID, SpanID: trace.SpanID{1}})
	with := propagation.Binary(trace.SpanContext{TraceID: sc.TraceID, SpanID: trace.SpanID{1}, Tracestate: ts})
	r.Check(bytes.Equal(plain, with), "tracestate-leaks", "tracestate changes the binary encoding")

	// Every truncation and every single-byte change of valid encodings.
	for i := 0; i < r.N(6, 10); i++ {
		r.Case("exhaustive %d", i)
		sc := randSC(rng)
		b := propagation.Binary(sc)
		for n := 0; n <= len(b); n++ {
			check(r, b[:n:n])
			check(r, append(append([]byte{}, b[:n]...), byte(rng.Uint32())))
		}
		for p := range b {
			for v := 0; v < 256; v++ {
				if p >= 2 && p != 18 && p != 27 && v%37 != i%37 {
					continue
				}
				m := append([]byte{}, b...)
				m[p] = byte(v)
				check(r, m)
			}
		}
	}
	// Structured random: fields in any order, missing, repeated, cut.
	for i := 0; i < r.N(40000, 50); i++ {
		if i%1000 == 0 {
			r.Case("random %d", i)
		}
		var b []byte
		switch rng.IntN(8) {
		case 0:
			b = make([]byte, rng.IntN(40))
			for k := range b {
				b[k] = byte(rng.Uint32())
			}
		default:
			if rng.IntN(10) > 0 {
				b = append(b, 0)
			} else {
				b = append(b, byte(rng.Uint32()))
			}
			for f := rng.IntN(5); f >= 0; f-- {
				id := byte(rng.IntN(4))
				n := []int{16, 8, 1, 3}[id]
				b = append(b, id)
				for k := 0; k < n; k++ {
					b = append(b, byte(rng.IntN(3)))
				}
			}
			if rng.IntN(2) == 0 {
				b = b[:rng.IntN(len(b)+1)]
			}
		}
		check(r, b)
	}
	check(r, nil)
	r.Require("accepted", 1000)
	r.Require("rejected", 1000)
	r.Require("round_trips", 1000)
	_ = fmt.Sprint
}
