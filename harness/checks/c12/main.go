// Monitor for C12: the tag map wire codec.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	"go.opencensus.io/tag"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C12", run) }

func validText(s []byte) bool {
	if len(s) > 255 {
		return false
	}
	for _, c := range s {
		if c < 0x20 || c > 0x7e {
			return false
		}
	}
	return true
}

// decode is an independent reader of the wire format: a version byte 0, then
// fields of a zero type byte and two length-prefixed strings.
func decode(b []byte) (map[string]string, bool) {
	out := map[string]string{}
	if len(b) == 0 {
		return out, true
	}
	if b[0] != 0 {
		return nil, false
	}
	r := bytes.NewReader(b[1:])
	str := func() ([]byte, bool) {
		n, err := binary.ReadUvarint(r)
		if err != nil || n > uint64(r.Len()) {
			return nil, false
		}
		s := make([]byte, n)
		r.Read(s)
		return s, true
	}
	for r.Len() > 0 {
		t, _ := r.ReadByte()
		if t != 0 {
			return nil, false
		}
		k, ok := str()
		if !ok {
			return nil, false
		}
		v, ok := str()
		if !ok || len(k) == 0 || !validText(k) || !validText(v) {
			return nil, false
		}
		out[string(k)] = string(v)
	}
	return out, true
}

// contents reads a tag map through its public face.
func contents(m *tag.Map, keys map[string]string) map[string]string {
	out := map[string]string{}
	for name := range keys {
		k, err := tag.NewKey(name)
		if err != nil {
			continue
		}
		if v, ok := m.Value(k); ok {
			out[name] = v
		}
	}
	return out
}

func count(m *tag.Map) int {
	// Re-encoding lists everything in the map: decoded tags all propagate.
	d, ok := decode(tag.Encode(m))
	if !ok {
		return -1
	}
	return len(d)
}

func check(r *mon.Run, b []byte) {
	keep := append([]byte{}, b...)
	var m *tag.Map
	var err error
	if !r.Do("Decode", func() { m, err = tag.Decode(b) }) {
		r.Violate("decode-panic", "Decode(%x) panics", b)
		return
	}
	want, ok := decode(b)
	if ok != (err == nil) {
		r.Violate("decode-accept", "Decode(%x): error %v, want accepted=%v", keep, err, ok)
		return
	}
	r.Check(bytes.Equal(b, keep), "input-modified", "Decode modified its input %x", keep)
	if !ok {
		r.Check(m == nil, "partial-decode", "Decode(%x) fails but returns a map", keep)
		r.Count("rejected", 1)
	} else {
		r.Count("accepted", 1)
		// The map does not live in the input buffer.
		for i := range b {
			b[i] = 'Z'
		}
		if got := contents(m, want); !reflect.DeepEqual(got, want) || count(m) != len(want) {
			r.Violate("decode", "Decode(%x) = %v (%d tags) want %v", keep, got, count(m), want)
		}
		copy(b, keep)
	}
	key := string(keep)
	if len(keep) < 3 {
		key = ""
	}
	r.Eval(key)
}

func field(k, v string) []byte {
	b := binary.AppendUvarint([]byte{0}, uint64(len(k)))
	b = append(b, k...)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}

func text(rng *rand.Rand, min int) string {
	n := min + rng.IntN(8)
	switch rng.IntN(6) {
	case 0:
		n = 127 + rng.IntN(3)
	case 1:
		n = 253 + rng.IntN(3)
	case 2:
		n = min
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x20 + rng.IntN(0x5f))
	}
	return string(b)
}

func run(r *mon.Run) {
	rng := r.Rand("codec")
	r.Check(tag.Encode(nil) == nil, "encode-nil", "Encode(nil) = %x", tag.Encode(nil))
	for i := 0; i < r.N(4000, 50); i++ {
		if i%100 == 0 {
			r.Case("round trip %d", i)
		}
		want := map[string]string{}
		local := map[string]bool{}
		var muts []tag.Mutator
		for n := rng.IntN(12); n > 0; n-- {
			k, v := text(rng, 1), text(rng, 0)
			key, err := tag.NewKey(k)
			if err != nil {
				r.Violate("valid-rejected", "NewKey(%q): %v", k, err)
				continue
			}
			if rng.IntN(4) == 0 {
				muts = append(muts, tag.Upsert(key, v, tag.WithTTL(tag.TTLNoPropagation)))
				delete(want, k)
				local[k] = true
				continue
			}
			muts = append(muts, tag.Upsert(key, v))
			want[k] = v
			delete(local, k)
		}
		ctx, err := tag.New(context.Background(), muts...)
		if err != nil {
			r.Violate("valid-rejected", "%v", err)
			continue
		}
		m := tag.FromContext(ctx)
		b := tag.Encode(m)
		got, ok := decode(b)
		if !ok || !reflect.DeepEqual(got, want) {
			r.Violate("encode", "Encode of %v (not travelling: %v) = %x, which reads as %v", want, local, b, got)
		}
		// The encoding is complete and has no slack.
		size := 1
		for k, v := range want {
			size += len(field(k, v))
		}
		r.Check(len(b) == size, "encode-size", "Encode of %v takes %d bytes, want %d", want, len(b), size)
		back, err := tag.Decode(b)
		if err != nil {
			r.Violate("round-trip", "Decode(Encode(%v)): %v", want, err)
		} else {
			all := map[string]string{}
			for k := range want {
				all[k] = ""
			}
			for k := range local {
				all[k] = ""
			}
			r.Check(reflect.DeepEqual(contents(back, all), want) && count(back) == len(want), "round-trip", "Decode(Encode(%v)) = %v", want, contents(back, all))
		}
		r.Count("round_trips", 1)
		r.Eval(string(b))
		if len(b) < 1500 && rng.IntN(5) == 0 {
			corrupt(r, rng, b)
		}
		if rng.IntN(4) == 0 {
			// What was encoded is the caller's, to change and to append to.
			for k := range b {
				b[k] ^= 0x55
			}
			_ = append(b, "more"...)
			again := tag.Encode(m)
			got, ok := decode(again)
			r.Check(ok && reflect.DeepEqual(got, want), "encode-shared", "Encode of %v = %x once the bytes of an earlier encoding were changed", want, again)
		}
		if i == 3 {
			r.Sample(hex.EncodeToString(b))
		}
	}
	r.Case("hostile lengths")
	// Length prefixes around every boundary, in key and value position.
	var lens []uint64
	for _, base := range []uint64{0, 1, 127, 128, 255, 256, 1 << 14, 1 << 31, 1 << 32, 1 << 62, 1 << 63, ^uint64(0)} {
		for d := uint64(0); d < 40; d++ {
			lens = append(lens, base-d, base+d)
		}
	}
	sort.Slice(lens, func(i, j int) bool { return lens[i] < lens[j] })
	for _, n := range lens {
		for _, tail := range []int{0, 1, 10, 300} {
			pre := append([]byte{0}, field("key", "value")...)
			a := append(binary.AppendUvarint(append(append([]byte{}, pre...), 0), n), strings.Repeat("a", tail)...)
			check(r, a)
			v := append(binary.AppendUvarint(append(append([]byte{}, pre...), 0, 1, 'k'), n), strings.Repeat("a", tail)...)
			check(r, v)
			check(r, append(binary.AppendUvarint([]byte{0, 0}, n), strings.Repeat("a", tail)...))
		}
	}
	// Varints that do not fit or do not end.
	for n := 1; n < 14; n++ {
		for _, last := range []byte{0, 1, 2, 0x7f, 0x80, 0xff} {
			b := append(append([]byte{0, 0}, bytes.Repeat([]byte{0xff}, n)...), last)
			check(r, b)
			check(r, append(b, "abcdef"...))
			b = append(append([]byte{0, 0, 1, 'k'}, bytes.Repeat([]byte{0x80}, n)...), last)
			check(r, b)
			check(r, append(b, "abcdef"...))
		}
	}
	r.Case("versions and types")
	for v := 0; v < 256; v++ {
		check(r, []byte{byte(v)})
		check(r, append([]byte{byte(v)}, field("k", "v")...))
		check(r, []byte{0, byte(v)})
		f := field("k", "v")
		f[0] = byte(v)
		check(r, append([]byte{0}, f...))
		check(r, append(append([]byte{0}, field("a", "b")...), f...))
		// Every byte value in a key and in a value.
		check(r, append([]byte{0}, field("k"+string([]byte{byte(v)}), "v")...))
		check(r, append([]byte{0}, field("k", "v"+string([]byte{byte(v)}))...))
	}
	for n := 250; n < 262; n++ {
		check(r, append([]byte{0}, field(strings.Repeat("k", n), "v")...))
		check(r, append([]byte{0}, field("k", strings.Repeat("v", n))...))
	}
	check(r, nil)
	check(r, append([]byte{0}, field("", "v")...))
	for i := 0; i < r.N(20000, 50); i++ {
		if i%1000 == 0 {
			r.Case("random %d", i)
		}
		b := []byte{0}
		for n := rng.IntN(5); n > 0; n-- {
			f := field(text(rng, 0), text(rng, 0))
			switch rng.IntN(5) {
			case 0:
				f[rng.IntN(len(f))] = byte(rng.Uint32())
			case 1:
				f = field(fmt.Sprint("k", rng.IntN(2)), fmt.Sprint(rng.IntN(3)))
			}
			b = append(b, f...)
		}
		if rng.IntN(3) == 0 {
			b = b[:rng.IntN(len(b)+1)]
		}
		check(r, b)
	}
	r.Par(6, func(g int) {
		k := tag.MustNewKey("shared")
		ctx, _ := tag.New(context.Background(), tag.Insert(k, "v"))
		m := tag.FromContext(ctx)
		for i := 0; i < 200; i++ {
			b := tag.Encode(m)
			if d, ok := decode(b); !ok || d["shared"] != "v" {
				r.Violate("encode", "concurrent Encode = %x", b)
			}
		}
	})
	r.Require("accepted", 1000)
	r.Require("rejected", 1000)
	r.Require("round_trips", 1000)
}

// corrupt tries every truncation and some changes of a valid encoding.
func corrupt(r *mon.Run, rng *rand.Rand, b []byte) {
	for n := 0; n < len(b); n += 1 + rng.IntN(1+len(b)/60) {
		check(r, append([]byte{}, b[:n]...))
	}
	for n := 0; n < 30; n++ {
		m := append([]byte{}, b...)
		for k := rng.IntN(2); k >= 0; k-- {
			m[rng.IntN(len(m))] = byte(rng.Uint32())
		}
		check(r, m)
	}
}
