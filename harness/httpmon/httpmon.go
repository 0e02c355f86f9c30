// Package httpmon helps the HTTP monitors: it collects spans by path and
// reads per-host totals of measures.
package httpmon

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"

	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	vm "go.opencensus.io/verifmon/viewmodel"
)

// Spans collects exported spans by an attribute's value.
type Spans struct {
	mu  sync.Mutex
	by  map[string][]*trace.SpanData
	key string
}

// NewSpans registers a collector by the given attribute.
func NewSpans(key string) *Spans {
	s := &Spans{by: map[string][]*trace.SpanData{}, key: key}
	trace.RegisterExporter(s)
	return s
}

// ExportSpan implements trace.Exporter.
func (s *Spans) ExportSpan(d *trace.SpanData) {
	k, _ := d.Attributes[s.key].(string)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.by[k] = append(s.by[k], d)
}

// Take removes and returns the spans of a key.
func (s *Spans) Take(key string) []*trace.SpanData {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := s.by[key]
	delete(s.by, key)
	return d
}

// Peek tells how many spans of a key have been exported.
func (s *Spans) Peek(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.by[key])
}

// Totals are views that sum and count measures by tags.
type Totals struct {
	r     *mon.Run
	views []*view.View
	ms    map[string][2]*view.View
	keys  []tag.Key
}

// NewTotals registers views over the measures by the tags.
func NewTotals(r *mon.Run, keys []tag.Key, ms ...stats.Measure) *Totals {
	t := &Totals{r: r, keys: keys, ms: map[string][2]*view.View{}}
	for _, m := range ms {
		s := &view.View{Name: vm.Unique("sum"), Measure: m, Aggregation: view.Sum(), TagKeys: append([]tag.Key{}, keys...)}
		c := &view.View{Name: vm.Unique("count"), Measure: m, Aggregation: view.Count(), TagKeys: append([]tag.Key{}, keys...)}
		t.ms[m.Name()] = [2]*view.View{s, c}
		t.views = append(t.views, s, c)
	}
	if err := view.Register(t.views...); err != nil {
		r.Broken("register: %v", err)
	}
	return t
}

// Total is what one row says.
type Total struct {
	Tags map[string]string
	N    int64
	Sum  float64
}

// Take gives, per measure and value of the tag, the totals, and starts over.
func (t *Totals) Take(by tag.Key) map[string]map[string][]Total {
	out := map[string]map[string][]Total{}
	for name, vs := range t.ms {
		out[name] = map[string][]Total{}
		counts := map[string]int64{}
		rows, err := view.RetrieveData(vs[1].Name)
		if err != nil {
			t.r.Broken("retrieve: %v", err)
		}
		for _, row := range rows {
			counts[fmt.Sprint(row.Tags)] = row.Data.(*view.CountData).Value
		}
		rows, _ = view.RetrieveData(vs[0].Name)
		for _, row := range rows {
			x := Total{Tags: map[string]string{}, N: counts[fmt.Sprint(row.Tags)], Sum: row.Data.(*view.SumData).Value}
			for _, tg := range row.Tags {
				x.Tags[tg.Key.Name()] = tg.Value
			}
			k := x.Tags[by.Name()]
			out[name][k] = append(out[name][k], x)
		}
	}
	view.Unregister(t.views...)
	if err := view.Register(t.views...); err != nil {
		t.r.Broken("register: %v", err)
	}
	return out
}

// Peek counts the recordings of a measure so far with the tag's value.
func (t *Totals) Peek(m stats.Measure, by tag.Key, value string) (n int64) {
	rows, err := view.RetrieveData(t.ms[m.Name()][1].Name)
	if err != nil {
		t.r.Broken("retrieve: %v", err)
	}
	for _, row := range rows {
		for _, tg := range row.Tags {
			if tg.Key.Name() == by.Name() && tg.Value == value {
				n += row.Data.(*view.CountData).Value
			}
		}
	}
	return n
}

// Status is an independent reading of how HTTP codes map to trace statuses.
func Status(code int) trace.Status {
	switch {
	case code == 400, code == 422:
		return trace.Status{Code: 3, Message: "INVALID_ARGUMENT"}
	case code == 401:
		return trace.Status{Code: 16, Message: "UNAUTHENTICATED"}
	case code == 403:
		return trace.Status{Code: 7, Message: "PERMISSION_DENIED"}
	case code == 404:
		return trace.Status{Code: 5, Message: "NOT_FOUND"}
	case code == 409:
		return trace.Status{Code: 6, Message: "ALREADY_EXISTS"}
	case code == 429:
		return trace.Status{Code: 8, Message: "RESOURCE_EXHAUSTED"}
	case code == 499:
		return trace.Status{Code: 1, Message: "CANCELLED"}
	case code == 501:
		return trace.Status{Code: 12, Message: "UNIMPLEMENTED"}
	case code == 503:
		return trace.Status{Code: 14, Message: "UNAVAILABLE"}
	case code == 504:
		return trace.Status{Code: 4, Message: "DEADLINE_EXCEEDED"}
	case code >= 200 && code < 400:
		return trace.Status{Code: 0, Message: "OK"}
	}
	return trace.Status{Code: 2, Message: "UNKNOWN"}
}

// Code is a random status code.
func Code(rng *rand.Rand) int {
	if rng.IntN(3) == 0 {
		return 200 + rng.IntN(400)
	}
	return []int{200, 200, 201, 204, 302, 304, 400, 401, 403, 404, 409, 422, 429, 499, 500, 501, 502, 503, 504}[rng.IntN(19)]
}

// Tag is the value a tag has in a row: left out when it is not valid.
func Tag(v string) string {
	if len(v) > 255 {
		return ""
	}
	for _, c := range []byte(v) {
		if c < 32 || c > 126 {
			return ""
		}
	}
	return v
}

// Clone copies a header.
func Clone(h http.Header) http.Header {
	out := http.Header{}
	for k, v := range h {
		out[k] = append([]string{}, v...)
	}
	return out
}

// Pad makes path parts of interesting shapes.
func Pad(rng *rand.Rand) string {
	switch rng.IntN(12) {
	case 0:
		return "/" + strings.Repeat("p", 200+rng.IntN(200))
	case 1:
		return "/\x01x"
	case 2:
		return "/é"
	case 3:
		return "/a b?c"
	case 4:
		return "/"
	default:
		return ""
	}
}
