// Package tracemodel holds what the trace monitors share: an executable model
// of one span, and comparison and snapshot of exported span data.
package tracemodel

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/trace"
)

// Caps are the configured bounds of a span's collections.
type Caps struct{ Attr, Ann, Msg, Link int }

// DefaultCaps are the documented defaults.
var DefaultCaps = Caps{32, 32, 128, 32}

type kv struct {
	k string
	v any
}

// Span is the model of a recording span.
type Span struct {
	Caps     Caps
	Name     string
	Kind     int
	Status   trace.Status
	attrs    []kv // least recently set first
	DropAttr int
	Anns     []trace.Annotation // times left zero
	DropAnn  int
	Msgs     []trace.MessageEvent
	DropMsg  int
	Links    []trace.Link
	DropLink int
	Children int
	Parent   trace.SpanID
	Remote   bool
	SC       trace.SpanContext
}

// SetAttr models setting one attribute.
func (s *Span) SetAttr(k string, v any) {
	for i := range s.attrs {
		if s.attrs[i].k == k {
			s.attrs = append(append([]kv{}, s.attrs[:i]...), s.attrs[i+1:]...)
			s.attrs = append(s.attrs, kv{k, v})
			return
		}
	}
	s.attrs = append(s.attrs, kv{k, v})
	if len(s.attrs) > s.Caps.Attr {
		s.attrs = append([]kv{}, s.attrs[1:]...)
		s.DropAttr++
	}
}

// Attrs gives the attributes the span must report.
func (s *Span) Attrs() map[string]any {
	m := map[string]any{}
	for _, e := range s.attrs {
		m[e.k] = e.v
	}
	return m
}

func push[T any](q []T, v T, limit int, dropped *int) []T {
	q = append(append([]T{}, q...), v)
	if len(q) > limit {
		q = q[1:]
		*dropped++
	}
	return q
}

func (s *Span) Annotate(a trace.Annotation)  { s.Anns = push(s.Anns, a, s.Caps.Ann, &s.DropAnn) }
func (s *Span) Message(m trace.MessageEvent) { s.Msgs = push(s.Msgs, m, s.Caps.Msg, &s.DropMsg) }
func (s *Span) Link(l trace.Link)            { s.Links = push(s.Links, l, s.Caps.Link, &s.DropLink) }

// Clone copies the model.
func (s *Span) Clone() *Span {
	c := *s
	c.attrs = append([]kv{}, s.attrs...)
	return &c
}

func attrsEqual(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !reflect.DeepEqual(v, w) {
			return false
		}
	}
	return true
}

// Diff compares reported span data with the model; "" means they agree.
func (s *Span) Diff(d *trace.SpanData) string {
	var out []string
	bad := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	if d.Name != s.Name {
		bad("name %q want %q", d.Name, s.Name)
	}
	if d.SpanKind != s.Kind {
		bad("kind %d want %d", d.SpanKind, s.Kind)
	}
	if d.Status != s.Status {
		bad("status %v want %v", d.Status, s.Status)
	}
	if d.ParentSpanID != s.Parent {
		bad("parent %v want %v", d.ParentSpanID, s.Parent)
	}
	if d.HasRemoteParent != s.Remote {
		bad("remote parent %v want %v", d.HasRemoteParent, s.Remote)
	}
	if d.SpanContext != s.SC {
		bad("context %v want %v", d.SpanContext, s.SC)
	}
	if d.ChildSpanCount != s.Children {
		bad("children %d want %d", d.ChildSpanCount, s.Children)
	}
	if !attrsEqual(d.Attributes, s.Attrs()) {
		bad("attributes %v want %v", d.Attributes, s.Attrs())
	}
	if d.DroppedAttributeCount != s.DropAttr {
		bad("dropped attributes %d want %d", d.DroppedAttributeCount, s.DropAttr)
	}
	if len(d.Annotations) != len(s.Anns) {
		bad("%d annotations want %d", len(d.Annotations), len(s.Anns))
	} else {
		for i, a := range d.Annotations {
			if a.Message != s.Anns[i].Message || !attrsEqual(a.Attributes, s.Anns[i].Attributes) {
				bad("annotation %d: %v want %v", i, a, s.Anns[i])
			}
			if a.Time.IsZero() || a.Time.Before(d.StartTime) || i > 0 && a.Time.Before(d.Annotations[i-1].Time) {
				bad("annotation %d: time %v (start %v)", i, a.Time, d.StartTime)
			}
		}
	}
	if d.DroppedAnnotationCount != s.DropAnn {
		bad("dropped annotations %d want %d", d.DroppedAnnotationCount, s.DropAnn)
	}
	if len(d.MessageEvents) != len(s.Msgs) {
		bad("%d message events want %d", len(d.MessageEvents), len(s.Msgs))
	} else {
		for i, a := range d.MessageEvents {
			b := a
			b.Time = time.Time{}
			if b != s.Msgs[i] {
				bad("message event %d: %v want %v", i, b, s.Msgs[i])
			}
			if a.Time.IsZero() || a.Time.Before(d.StartTime) || i > 0 && a.Time.Before(d.MessageEvents[i-1].Time) {
				bad("message event %d: time %v (start %v)", i, a.Time, d.StartTime)
			}
		}
	}
	if d.DroppedMessageEventCount != s.DropMsg {
		bad("dropped message events %d want %d", d.DroppedMessageEventCount, s.DropMsg)
	}
	if len(d.Links) != len(s.Links) {
		bad("%d links want %d", len(d.Links), len(s.Links))
	} else {
		for i, l := range d.Links {
			w := s.Links[i]
			if l.TraceID != w.TraceID || l.SpanID != w.SpanID || l.Type != w.Type || !attrsEqual(l.Attributes, w.Attributes) {
				bad("link %d: %v want %v", i, l, w)
			}
		}
	}
	if d.DroppedLinkCount != s.DropLink {
		bad("dropped links %d want %d", d.DroppedLinkCount, s.DropLink)
	}
	return strings.Join(out, "; ")
}

func copyAttrs(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	c := map[string]any{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// Snapshot deep-copies span data so that later changes can be noticed.
func Snapshot(d *trace.SpanData) trace.SpanData {
	c := *d
	c.Attributes = copyAttrs(d.Attributes)
	c.Annotations = append([]trace.Annotation(nil), d.Annotations...)
	for i := range c.Annotations {
		c.Annotations[i].Attributes = copyAttrs(c.Annotations[i].Attributes)
	}
	c.MessageEvents = append([]trace.MessageEvent(nil), d.MessageEvents...)
	c.Links = append([]trace.Link(nil), d.Links...)
	for i := range c.Links {
		c.Links[i].Attributes = copyAttrs(c.Links[i].Attributes)
	}
	return c
}

// Same tells whether span data still equals an earlier snapshot.
func Same(d *trace.SpanData, snap *trace.SpanData) bool {
	return reflect.DeepEqual(Snapshot(d), *snap)
}

// Mutate applies one random operation to the span and to its model (which may
// be nil for spans that must not record), and describes it.
func Mutate(rng *rand.Rand, sp *trace.Span, m *Span, keys int) string {
	if m == nil {
		m = &Span{Caps: DefaultCaps}
	}
	switch rng.IntN(9) {
	case 0:
		n := fmt.Sprintf("name-%d", rng.IntN(1000))
		sp.SetName(n)
		m.Name = n
		return "SetName"
	case 1:
		st := trace.Status{Code: int32(rng.IntN(18)), Message: fmt.Sprint("m", rng.IntN(9))}
		if rng.IntN(8) == 0 {
			st.Code = []int32{-1, 17, 1 << 30, -1 << 31}[rng.IntN(4)]
		}
		sp.SetStatus(st)
		m.Status = st
		return "SetStatus"
	case 2, 3:
		var as []trace.Attribute
		for n := rng.IntN(4); n >= 0; n-- {
			k := fmt.Sprintf("k%d", rng.IntN(keys))
			a, v := RandAttr(rng, k)
			as = append(as, a)
			m.SetAttr(k, v)
		}
		sp.AddAttributes(as...)
		return "AddAttributes"
	case 4, 5:
		var as []trace.Attribute
		var am map[string]any
		for n := rng.IntN(3); n > 0; n-- {
			k := fmt.Sprintf("a%d", rng.IntN(5))
			a, v := RandAttr(rng, k)
			as = append(as, a)
			if am == nil {
				am = map[string]any{}
			}
			am[k] = v
		}
		msg := fmt.Sprintf("note %d%%", rng.IntN(1000))
		if rng.IntN(2) == 0 {
			sp.Annotate(as, msg)
		} else {
			sp.Annotatef(as, "%s", msg)
		}
		m.Annotate(trace.Annotation{Message: msg, Attributes: am})
		return "Annotate"
	case 6:
		a, b, c := rng.Int64(), rng.Int64N(1000), rng.Int64N(1000)
		sp.AddMessageSendEvent(a, b, c)
		m.Message(trace.MessageEvent{EventType: trace.MessageEventTypeSent, MessageID: a, UncompressedByteSize: b, CompressedByteSize: c})
		return "Send"
	case 7:
		a, b, c := rng.Int64(), rng.Int64N(1000), rng.Int64N(1000)
		sp.AddMessageReceiveEvent(a, b, c)
		m.Message(trace.MessageEvent{EventType: trace.MessageEventTypeRecv, MessageID: a, UncompressedByteSize: b, CompressedByteSize: c})
		return "Recv"
	default:
		l := trace.Link{Type: trace.LinkType(rng.IntN(3))}
		for i := range l.TraceID {
			l.TraceID[i] = byte(rng.Uint32())
		}
		for i := range l.SpanID {
			l.SpanID[i] = byte(rng.Uint32())
		}
		if rng.IntN(2) == 0 {
			l.Attributes = map[string]any{"x": int64(rng.IntN(9))}
		}
		sp.AddLink(l)
		m.Link(l)
		return "Link"
	}
}

// RandAttr makes a random attribute with the given key.
func RandAttr(rng *rand.Rand, k string) (trace.Attribute, any) {
	switch rng.IntN(4) {
	case 0:
		v := rng.IntN(2) == 0
		return trace.BoolAttribute(k, v), v
	case 1:
		v := rng.Int64()
		return trace.Int64Attribute(k, v), v
	case 2:
		v := rng.NormFloat64()
		return trace.Float64Attribute(k, v), v
	default:
		v := fmt.Sprint("v", rng.IntN(100))
		return trace.StringAttribute(k, v), v
	}
}

// Keys lists the keys of a map, sorted.
func Keys(m map[string]any) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
