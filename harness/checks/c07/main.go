// Monitor for C07: the z-pages show exactly what the process holds, safely.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/net/html"

	"go.opencensus.io/internal"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
	"go.opencensus.io/zpages"
)

func main() { mon.Main("C07", run) }

type store interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
}

// held is a stand-in store whose contents the monitor chooses, so that spans
// of any latency can be shown without waiting for them. Its bands are those
// of the real store.
type held struct {
	bands  []internal.LatencyBucketSummary
	active map[string][]*trace.SpanData
	ended  map[string][]*trace.SpanData
	names  []string
}

func (h *held) ReportActiveSpans(name string) []*trace.SpanData { return h.active[name] }
func (h *held) ReportSpansByError(name string, code int32) (out []*trace.SpanData) {
	for _, sd := range h.ended[name] {
		if sd.Status.Code != 0 && (code == 0 || sd.Status.Code == code) {
			out = append(out, sd)
		}
	}
	return
}
func (h *held) ReportSpansByLatency(name string, lo, hi time.Duration) (out []*trace.SpanData) {
	for _, sd := range h.ended[name] {
		if d := sd.EndTime.Sub(sd.StartTime); sd.Status.Code == 0 && (lo == 0 && hi == 0 || d >= lo && (hi == 0 || d <= hi)) {
			out = append(out, sd)
		}
	}
	return
}
func (h *held) ReportSpansPerMethod() map[string]internal.PerMethodSummary {
	out := map[string]internal.PerMethodSummary{}
	for _, n := range h.names {
		p := internal.PerMethodSummary{Active: len(h.active[n]), LatencyBuckets: append([]internal.LatencyBucketSummary{}, h.bands...)}
		codes := map[int32]int{}
		for _, sd := range h.ended[n] {
			if c := sd.Status.Code; c != 0 {
				codes[c]++
				continue
			}
			p.LatencyBuckets[h.band(sd.EndTime.Sub(sd.StartTime))].Size++
		}
		for c, k := range codes {
			p.ErrorBuckets = append(p.ErrorBuckets, internal.ErrorBucketSummary{ErrorCode: c, Size: k})
		}
		out[n] = p
	}
	return out
}
func (h *held) band(d time.Duration) int {
	for i, b := range h.bands {
		if d >= b.MinLatency && d < b.MaxLatency {
			return i
		}
	}
	return len(h.bands) - 1
}
func (h *held) ConfigureBucketSizes(bcs []internal.BucketConfiguration) {}

var nasty = []string{
	`<script>alert(1)</script>`, `"><img src=x onerror=alert(1)>`, `'><b>`, `</pre></table><h1>x`, `&lt;b&gt;`, `a&b=c&ztype=2`, `{{.Name}}`,
	`javascript:alert(1)`, `%3Cscript%3E`, `<!-- `, `-->`, "a\tb", "a b", "é日本", "a/b?c#d", `\u003cscript\u003e`, `<svg onload=1>`, "x\u2028y", `"`, `'`, "`", "+", "%", ";", "<", ">", "&",
}

func text(rng *rand.Rand, benign bool, uniq string) string {
	if benign {
		return "x" + uniq
	}
	switch rng.IntN(6) {
	case 0:
		var sb strings.Builder
		for k := rng.IntN(20); k >= 0; k-- {
			sb.WriteByte(byte(rng.IntN(256)))
		}
		return sb.String() + uniq
	case 1:
		return strings.Repeat(nasty[rng.IntN(len(nasty))], 1+rng.IntN(200)) + uniq
	case 2:
		return nasty[rng.IntN(len(nasty))] + uniq + nasty[rng.IntN(len(nasty))]
	default:
		return uniq + nasty[rng.IntN(len(nasty))]
	}
}

// fill makes a store; the same generator state gives the same shape for both
// values of benign, only the strings differ.
func fill(rng, txt *rand.Rand, bands []internal.LatencyBucketSummary, benign bool) *held {
	h := &held{bands: bands, active: map[string][]*trace.SpanData{}, ended: map[string][]*trace.SpanData{}}
	base := time.Date(2021, 3, 4, 5, 6, 7, 8000, time.UTC)
	id := uint64(rng.Uint32())
	mk := func(name string, ended bool) *trace.SpanData {
		id++
		sd := &trace.SpanData{Name: name, StartTime: base.Add(time.Duration(rng.Int64N(int64(30 * time.Hour))))}
		for i := 0; i < 8; i++ {
			sd.TraceID[i] = byte(id >> (8 * i))
			sd.SpanID[i] = byte((id * 7919) >> (8 * i))
		}
		sd.TraceOptions = trace.TraceOptions(rng.IntN(2))
		if rng.IntN(2) == 0 {
			sd.ParentSpanID = trace.SpanID{9, byte(id), byte(id >> 8)}
		}
		for k := rng.IntN(4); k > 0; k-- {
			if sd.Attributes == nil {
				sd.Attributes = map[string]any{}
			}
			key := text(txt, benign, fmt.Sprint("k", k))
			switch rng.IntN(3) {
			case 0:
				sd.Attributes[key] = text(txt, benign, "")
			case 1:
				sd.Attributes[key] = rng.Int64()
			case 2:
				sd.Attributes[key] = rng.IntN(2) == 0
			}
		}
		at := sd.StartTime
		for k := rng.IntN(4); k > 0; k-- {
			at = at.Add(time.Duration(1 + rng.Int64N(int64(time.Hour))))
			if rng.IntN(2) == 0 {
				a := trace.Annotation{Time: at, Message: text(txt, benign, fmt.Sprint("m", k))}
				if rng.IntN(2) == 0 {
					a.Attributes = map[string]any{text(txt, benign, "ak"): text(txt, benign, "av")}
				}
				sd.Annotations = append(sd.Annotations, a)
			} else {
				sd.MessageEvents = append(sd.MessageEvents, trace.MessageEvent{Time: at, EventType: trace.MessageEventType(rng.IntN(3)), UncompressedByteSize: rng.Int64(), CompressedByteSize: rng.Int64()})
			}
		}
		if rng.IntN(3) == 0 {
			sd.Status.Message = text(txt, benign, "s")
		}
		if ended {
			i := rng.IntN(len(bands))
			lo, hi := bands[i].MinLatency, bands[i].MaxLatency
			if hi > time.Hour {
				hi = time.Hour
			}
			sd.EndTime = sd.StartTime.Add(lo + time.Duration(rng.Int64N(int64(hi-lo))))
			if k := rng.IntN(6); k == 0 { // on the edge
				sd.EndTime = sd.StartTime.Add(lo)
			} else if k == 1 {
				sd.EndTime = sd.StartTime.Add(hi - 1)
			}
			if rng.IntN(3) == 0 {
				sd.Status.Code = int32(rng.IntN(20)) - 1
				if sd.Status.Code == 18 {
					sd.Status.Code = math.MaxInt32 - int32(rng.IntN(2))
				}
			}
		}
		return sd
	}
	for n := 1 + rng.IntN(4); n > 0; n-- {
		name := text(txt, benign, fmt.Sprint("n", n))
		h.names = append(h.names, name)
		for k := rng.IntN(3); k > 0; k-- {
			h.active[name] = append(h.active[name], mk(name, false))
		}
		for k := rng.IntN(12); k > 0; k-- {
			h.ended[name] = append(h.ended[name], mk(name, true))
		}
	}
	return h
}

func get(r *mon.Run, h http.Handler, target string) (body string, ok bool) {
	req := httptest.NewRequest("GET", target, nil)
	w := httptest.NewRecorder()
	if !r.Do("GET "+target, func() { h.ServeHTTP(w, req) }) {
		return "", false
	}
	r.Count("pages", 1)
	if w.Code != 200 {
		r.Violate("status", "GET %s: status %d", target, w.Code)
		return "", false
	}
	if ct := w.Header().Get("Content-Type"); !strings.HasPrefix(ct, "text/html") {
		r.Violate("content-type", "GET %s: content type %q", target, ct)
	}
	return w.Body.String(), true
}

// shape is the page's sequence of tags with their attribute names, and
// attribute values other than link targets: what user strings must not affect.
func shape(page string) (out []string) {
	z := html.NewTokenizer(strings.NewReader(page))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			s := "<" + t.Data
			for _, a := range t.Attr {
				s += " " + a.Key
				if a.Key != "href" {
					s += "=" + a.Val
				}
			}
			out = append(out, s)
		case html.EndTagToken:
			out = append(out, "</"+z.Token().Data)
		case html.CommentToken:
			out = append(out, "comment")
		case html.DoctypeToken:
			out = append(out, "doctype")
		}
	}
}

type cell struct{ text, href string }

// rows gives the cells of every table row, and the page's whole text.
func rows(page string) (out [][]cell, all string) {
	z := html.NewTokenizer(strings.NewReader(page))
	in := false
	for {
		switch z.Next() {
		case html.ErrorToken:
			return
		case html.StartTagToken:
			t := z.Token()
			switch t.Data {
			case "tr":
				out = append(out, nil)
			case "td":
				if len(out) > 0 {
					out[len(out)-1] = append(out[len(out)-1], cell{})
					in = true
				}
			case "a":
				if in {
					cs := out[len(out)-1]
					for _, a := range t.Attr {
						if a.Key == "href" {
							cs[len(cs)-1].href = a.Val
						}
					}
				}
			}
		case html.EndTagToken:
			if t := z.Token(); t.Data == "td" || t.Data == "tr" {
				in = false
			}
		case html.TextToken:
			s := z.Token().Data
			all += s
			if in {
				cs := out[len(out)-1]
				cs[len(cs)-1].text += s
			}
		}
	}
}

// showable tells whether HTML can carry the string unchanged.
func showable(s string) bool { return utf8.ValidString(s) && !strings.ContainsAny(s, "\x00\r\f") }

func requests(all string) int {
	i := strings.Index(all, " Requests")
	if i < 0 {
		return -1
	}
	j := strings.LastIndexAny(all[:i], "\n >")
	n, err := strconv.Atoi(strings.TrimSpace(all[j+1 : i]))
	if err != nil {
		return -1
	}
	return n
}

func elapsed(s string) (float64, bool) {
	f, err := strconv.ParseFloat(strings.TrimSuffix(strings.ReplaceAll(strings.TrimLeft(strings.Replace(s, ".", "0.", 1), " "), " ", "0"), "s"), 64)
	if strings.TrimSpace(s[:max(0, strings.Index(s, "."))]) != "" {
		f, err = strconv.ParseFloat(strings.TrimSuffix(strings.ReplaceAll(strings.TrimSpace(s), " ", "0"), "s"), 64)
	}
	return f, err == nil
}

func ids(sds []*trace.SpanData) string {
	var s []string
	for _, sd := range sds {
		s = append(s, sd.TraceID.String()+"/"+sd.SpanID.String())
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// listed extracts the span identities of a listing.
func listed(all string) string {
	var s []string
	for _, p := range strings.Split(all, "trace_id: ")[1:] {
		f := strings.Fields(p)
		if len(f) >= 3 && f[1] == "span_id:" && len(f[0]) == 32 && len(f[2]) >= 16 {
			s = append(s, f[0]+"/"+f[2][:16])
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// summaryVsLinks reads the summary table and follows each of its links.
// want is what the store holds.
func summaryVsLinks(r *mon.Run, h http.Handler, prefix string, st store, ctx string) {
	page, ok := get(r, h, prefix+"tracez")
	if !ok {
		return
	}
	per := st.ReportSpansPerMethod()
	headings(r, html.UnescapeString(tags.ReplaceAllString(page, " ")), st)
	got, _ := rows(page)
	found := map[string]bool{}
	for _, cs := range got {
		if len(cs) < 3 || cs[2].href == "" {
			continue
		}
		u, err := url.Parse(cs[2].href)
		if !r.Check(err == nil, "link", "%s: link %q does not parse", ctx, cs[2].href) {
			continue
		}
		name := u.Query().Get("zspanname")
		sum, ok := per[name]
		if !ok {
			if utf8.ValidString(name) {
				r.Violate("summary-names", "%s: a row links to span name %q, which the store does not hold", ctx, name)
			}
			continue
		}
		found[name] = true
		if showable(name) {
			r.Check(cs[0].text == name, "summary-names", "%s: row of %q shows %q", ctx, name, cs[0].text)
		}
		follow := func(what string, c cell, n int, want []*trace.SpanData) {
			r.Count("links_followed", 1)
			r.Check(c.text == strconv.Itoa(n), "summary-count", "%s: %q: summary shows %s %s, store holds %d", ctx, name, c.text, what, n)
			sub, ok := get(r, h, prefix+c.href)
			if !ok {
				return
			}
			_, all := rows(sub)
			r.Check(requests(all) == n, "listing-count", "%s: %q: summary counts %d %s, its link lists %d", ctx, name, n, what, requests(all))
			if want != nil {
				if !strings.Contains(name, "trace_id") {
					r.Check(listed(all) == ids(want), "listing-spans", "%s: %q %s: lists %s, store holds %s", ctx, name, what, listed(all), ids(want))
				}
			}
		}
		var links []cell
		for _, c := range cs {
			if c.href != "" {
				links = append(links, c)
			}
		}
		if !r.Check(len(links) == len(sum.LatencyBuckets)+2, "summary-cells", "%s: %q: %d links", ctx, name, len(links)) {
			continue
		}
		follow("running", links[0], sum.Active, st.ReportActiveSpans(name))
		for i, b := range sum.LatencyBuckets {
			var in []*trace.SpanData
			for _, sd := range st.ReportSpansByLatency(name, 0, 0) {
				if d := sd.EndTime.Sub(sd.StartTime); d >= b.MinLatency && d < b.MaxLatency {
					in = append(in, sd)
				}
			}
			follow(fmt.Sprintf("in latency band %v", b.MinLatency), links[1+i], b.Size, in)
		}
		errs := 0
		for _, b := range sum.ErrorBuckets {
			errs += b.Size
			sub, ok := get(r, h, prefix+"tracez?"+url.Values{"zspanname": {name}, "ztype": {"2"}, "zsubtype": {fmt.Sprint(b.ErrorCode)}}.Encode())
			if ok {
				_, all := rows(sub)
				r.Check(requests(all) == b.Size, "error-code-listing", "%s: %q: %d spans with code %d, listing shows %d", ctx, name, b.Size, b.ErrorCode, requests(all))
				r.Count("error_code_listings", 1)
			}
		}
		follow("errors", links[len(links)-1], errs, st.ReportSpansByError(name, 0))
	}
	for name := range per {
		if utf8.ValidString(name) && !strings.Contains(name, "\x00") {
			r.Check(found[name], "summary-names", "%s: no row for span name %q", ctx, name)
		}
	}
}

var codes = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

func attrText(m map[string]any) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		if s, ok := m[k].(string); ok {
			out = append(out, fmt.Sprintf("%s=%q", k, s))
		} else {
			out = append(out, fmt.Sprintf("%s=%v", k, m[k]))
		}
	}
	return "Attributes:{" + strings.Join(out, ", ") + "}"
}

// spanRows is what a listing must say about one span, line by line: elapsed
// seconds (negative: none) and text.
type line struct {
	el float64
	s  string
}

func spanLines(sd *trace.SpanData) (out []line) {
	if sd.Status != (trace.Status{}) {
		c := fmt.Sprintf("error code %d", sd.Status.Code)
		if sd.Status.Code >= 0 && int(sd.Status.Code) < len(codes) {
			c = codes[sd.Status.Code]
		}
		out = append(out, line{-1, fmt.Sprintf("Status{canonicalCode=%s, description=%q}", c, sd.Status.Message)})
	}
	if len(sd.Attributes) > 0 {
		out = append(out, line{-1, attrText(sd.Attributes)})
	}
	type ev struct {
		t time.Time
		s string
	}
	var es []ev
	for _, a := range sd.Annotations {
		s := a.Message
		if len(a.Attributes) > 0 {
			s += "  " + attrText(a.Attributes)
		}
		es = append(es, ev{a.Time, s})
	}
	for _, m := range sd.MessageEvents {
		s := ""
		switch m.EventType {
		case trace.MessageEventTypeSent:
			s = fmt.Sprintf("sent message [%d bytes, %d compressed bytes]", m.UncompressedByteSize, m.CompressedByteSize)
		case trace.MessageEventTypeRecv:
			s = fmt.Sprintf("received message [%d bytes, %d compressed bytes]", m.UncompressedByteSize, m.CompressedByteSize)
		}
		es = append(es, ev{m.Time, s})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].t.Before(es[j].t) })
	last := sd.StartTime
	for _, e := range es {
		out = append(out, line{float64(e.t.Sub(last).Microseconds()) / 1e6, e.s})
		last = e.t
	}
	for i := range out {
		if len(out[i].s) > 1024 {
			out[i].s = out[i].s[:1024]
		}
	}
	return
}

// content checks the text listing against the spans, for texts that fit lines.
func content(r *mon.Run, sds []*trace.SpanData, kind, sub int, name string) {
	var buf bytes.Buffer
	r.Do("WriteTextTracezSpans", func() { zpages.WriteTextTracezSpans(&buf, name, kind, sub) })
	by := map[string]*trace.SpanData{}
	for _, sd := range sds {
		by[sd.SpanID.String()] = sd
	}
	var cur *trace.SpanData
	var want []line
	n := 0
	for i, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
		if i == 0 {
			continue
		}
		if k := strings.Index(l, "trace_id: "); k >= 0 {
			if len(want) > 0 {
				r.Violate("listing-content", "%q: span %v: missing %q in\n%s", name, cur.SpanID, want[0].s, buf.String())
			}
			f := strings.Fields(l[k:])
			cur = by[f[3]]
			if cur == nil || f[1] != cur.TraceID.String() {
				r.Violate("listing-content", "%q: unexpected line %q", name, l)
				return
			}
			if cur.ParentSpanID != (trace.SpanID{}) {
				r.Check(len(f) == 6 && f[5] == cur.ParentSpanID.String(), "listing-content", "%q: parent not shown: %q", name, l)
			} else {
				r.Check(len(f) == 4, "listing-content", "%q: parent shown for a root: %q", name, l)
			}
			r.Check(strings.HasPrefix(l, cur.StartTime.Format("2006/01/02-15:04:05.000000")), "listing-content", "%q: start time not shown: %q", name, l)
			if !cur.EndTime.IsZero() {
				el, ok := elapsed(strings.TrimSuffix(l[26:k], " "))
				d := cur.EndTime.Sub(cur.StartTime).Seconds()
				r.Check(ok && math.Abs(el-d) < 2e-6, "listing-elapsed", "%q: span took %vs, listing shows %q", name, d, l)
			}
			want = spanLines(cur)
			n++
			continue
		}
		if cur == nil || len(want) == 0 {
			r.Violate("listing-content", "%q: unexpected line %q", name, l)
			return
		}
		r.Check(strings.HasSuffix(l, want[0].s), "listing-content", "%q: span %v: line %q, want text %q", name, cur.SpanID, l, want[0].s)
		if want[0].el >= 0 && strings.HasSuffix(l, want[0].s) {
			head := strings.TrimSuffix(l, want[0].s)
			el := -1.0
			ok := false
			if len(head) > 26 {
				el, ok = elapsed(strings.TrimRight(head[26:], " "))
			}
			r.Check(ok && math.Abs(el-want[0].el) < 2e-6, "listing-elapsed", "%q: %vs after the event before, listing shows %q", name, want[0].el, l)
		}
		want = want[1:]
		r.Count("lines_checked", 1)
	}
	if len(want) > 0 {
		r.Violate("listing-content", "%q: span %v: missing %q", name, cur.SpanID, want[0].s)
	}
	r.Check(n == len(sds), "listing-count", "%q: text listing shows %d of %d spans", name, n, len(sds))
}

var tags = regexp.MustCompile("<[^>]*>")

// headings sees that a summary names the latency band of each of its columns.
func headings(r *mon.Run, page string, st store) {
	for _, s := range st.ReportSpansPerMethod() {
		at := 0
		for _, b := range s.LatencyBuckets {
			k := strings.Index(page[at:], fmt.Sprintf(">%v", b.MinLatency))
			if k < 0 {
				r.Violate("summary-headings", "the summary has no heading for latencies from %v", b.MinLatency)
				return
			}
			at += k + 1
		}
		k := strings.Index(page, "Error")
		r.Check(k >= 0, "summary-headings", "the summary has no heading for errors")
		r.Count("headings", 1)
		return // all names have the same bands
	}
}

func textSummary(r *mon.Run, st store) {
	var buf bytes.Buffer
	r.Do("WriteTextTracezSummary", func() { zpages.WriteTextTracezSummary(&buf) })
	headings(r, buf.String(), st)
	lines := strings.Split(buf.String(), "\n")
	for name, s := range st.ReportSpansPerMethod() {
		if name == "" || strings.ContainsFunc(name, unicode.IsSpace) || !utf8.ValidString(name) {
			continue
		}
		want := []string{name}
		put := func(n int) {
			if n == 0 {
				want = append(want, ".")
			} else {
				want = append(want, strconv.Itoa(n))
			}
		}
		put(s.Active)
		for _, b := range s.LatencyBuckets {
			put(b.Size)
		}
		e := 0
		for _, b := range s.ErrorBuckets {
			e += b.Size
		}
		put(e)
		n := 0
		for _, l := range lines {
			f := strings.Fields(l)
			if len(f) > 0 && f[0] == name {
				n++
				r.Check(strings.Join(f, " ") == strings.Join(want, " "), "text-summary", "text summary row %q, want %q", l, want)
			}
		}
		r.Check(n == 1, "text-summary", "text summary has %d rows for %q", n, name)
		r.Count("text_rows", 1)
	}
}

// written compares the writers for pages of other servers with the page served.
func written(r *mon.Run, page, name string, kind, sub int) {
	var all, sum, list bytes.Buffer
	r.Do("the writers", func() {
		zpages.WriteHTMLTracezPage(&all, name, kind, sub)
		zpages.WriteHTMLTracezSummary(&sum)
		zpages.WriteHTMLTracezSpans(&list, name, kind, sub)
	})
	i := strings.Index(page, sum.String())
	r.Check(sum.Len() > 0 && i > 0, "writers", "the page listing %q does not hold what WriteHTMLTracezSummary writes", name)
	if name == "" { // no listing is asked for
		return
	}
	r.Check(all.String() == page, "writers", "WriteHTMLTracezPage(%q, %d, %d) writes another page than the handler", name, kind, sub)
	r.Check(i >= 0 && strings.Contains(page[i+sum.Len():], list.String()) && list.Len() > 0, "writers", "the page does not hold, below the summary, what WriteHTMLTracezSpans(%q, %d, %d) writes", name, kind, sub)
	r.Count("writers_compared", 1)
}

func synthetic(r *mon.Run, mux http.Handler, prefix string, real store) {
	rng := r.Rand("synthetic")
	var bands []internal.LatencyBucketSummary
	_, sp := trace.StartSpan(context.Background(), "c07-bands")
	sp.End()
	for _, s := range real.ReportSpansPerMethod() {
		bands = append([]internal.LatencyBucketSummary{}, s.LatencyBuckets...)
	}
	for i := range bands {
		bands[i].Size = 0
	}
	defer func() { internal.Trace = real }()
	for c := 0; c < r.N(pick(20, 120), 20); c++ {
		r.Case("synthetic store %d", c)
		seed, tseed := rng.Uint64(), rng.Uint64()
		mk := func(benign bool) *held {
			return fill(rand.New(rand.NewPCG(seed, 1)), rand.New(rand.NewPCG(tseed, 2)), bands, benign)
		}
		hostile, benign := mk(false), mk(true)
		internal.Trace = hostile
		summaryVsLinks(r, mux, prefix, hostile, "hostile store")
		page, ok1 := get(r, mux, prefix+"tracez")
		internal.Trace = benign
		ref, ok2 := get(r, mux, prefix+"tracez")
		if ok1 && ok2 {
			r.Check(strings.Join(shape(page), "\n") == strings.Join(shape(ref), "\n"), "markup-injected", "summary: the markup depends on user strings; names %q\n%s", hostile.names, page)
		}
		summaryVsLinks(r, mux, prefix, benign, "benign store")
		textSummary(r, benign)
		for i := range hostile.names {
			for kind, subs := range map[int][]int{0: {0}, 1: {0, rng.IntN(9), 8}, 2: {0, 1 + rng.IntN(16)}} {
				for _, sub := range subs {
					q := func(n string) string {
						return prefix + "tracez?" + url.Values{"zspanname": {n}, "ztype": {fmt.Sprint(kind)}, "zsubtype": {fmt.Sprint(sub)}}.Encode()
					}
					internal.Trace = hostile
					page, ok1 := get(r, mux, q(hostile.names[i]))
					if ok1 {
						written(r, page, hostile.names[i], kind, sub)
					}
					internal.Trace = benign
					ref, ok2 := get(r, mux, q(benign.names[i]))
					if ok1 && ok2 {
						r.Count("markup_compared", 1)
						r.Check(strings.Join(shape(page), "\n") == strings.Join(shape(ref), "\n"), "markup-injected", "listing of %q: the markup depends on user strings\n%s", hostile.names[i], page)
						if _, all := rows(page); showable(hostile.names[i]) {
							r.Check(strings.Contains(all, hostile.names[i]), "name-shown", "listing of %q does not show the name", hostile.names[i])
						}
					}
					var want []*trace.SpanData
					n := benign.names[i]
					switch kind {
					case 0:
						want = benign.ReportActiveSpans(n)
					case 1:
						for _, sd := range benign.ended[n] {
							if sd.Status.Code == 0 && benign.band(sd.EndTime.Sub(sd.StartTime)) == sub {
								want = append(want, sd)
							}
						}
					case 2:
						want = benign.ReportSpansByError(n, int32(sub))
					}
					content(r, want, kind, sub, n)
				}
			}
		}
		r.Eval(fmt.Sprint("synthetic", seed))
		if c == 1 {
			r.Sample(map[string]any{"span_names": fmt.Sprintf("%q", hostile.names), "active": len(hostile.active), "ended": len(hostile.ended)})
		}
	}
}

func realStore(r *mon.Run, mux http.Handler, prefix string, st store) {
	rng := r.Rand("real")
	for c := 0; c < r.N(pick(1, 3), 4); c++ {
		var open []*trace.Span
		for i := 0; i < 12; i++ {
			name := text(rng, rng.IntN(3) == 0, fmt.Sprintf("real%d-%d", c, i))
			if i == 11 { // as of a request for a URL without a path
				name = ""
			}
			for k := rng.IntN(5); k > 0; k-- {
				_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.ProbabilitySampler(0.5)))
				if rng.IntN(3) == 0 {
					sp.SetStatus(trace.Status{Code: int32(rng.IntN(18)), Message: text(rng, false, "")})
				}
				sp.AddAttributes(trace.StringAttribute(text(rng, false, "k"), text(rng, false, "v")))
				sp.Annotate(nil, text(rng, false, "m"))
				if rng.IntN(4) == 0 {
					open = append(open, sp)
					continue
				}
				time.Sleep(time.Duration(math.Pow(10, 1+3*rng.Float64())) * time.Microsecond)
				sp.End()
			}
		}
		summaryVsLinks(r, mux, prefix, st, "real store")
		textSummary(r, st)
		for _, sp := range open {
			sp.End()
		}
		r.Eval(fmt.Sprint("real", c, len(st.ReportSpansPerMethod())))
	}
}

func requestsAny(r *mon.Run, mux http.Handler, prefix string) {
	rng := r.Rand("requests")
	vals := []string{"", "0", "1", "2", "3", "-1", "8", "9", "99999999999999999999", "x", "1.5", " 1", "0x1", "2147483648", "-2147483649", "4294967296"}
	for c := 0; c < r.N(pick(60, 300), 20); c++ {
		q := url.Values{}
		for _, k := range []string{"zspanname", "ztype", "zsubtype"} {
			for n := rng.IntN(3); n > 0; n-- {
				v := vals[rng.IntN(len(vals))]
				if k == "zspanname" {
					v = []string{"c07-bands", "missing", text(rng, false, ""), ""}[rng.IntN(4)]
				}
				q.Add(k, v)
			}
		}
		target := prefix + "tracez?" + q.Encode()
		if rng.IntN(6) == 0 {
			target += "&%zz=%"
		}
		r.Case("%s", target)
		if page, ok := get(r, mux, target); ok {
			for _, s := range shape(page) {
				r.Check(!strings.Contains(s, "script>") && s != "<img" && s != "<svg" && s != "comment", "markup-injected", "GET %s: page contains %s", target, s)
			}
		}
		r.Eval("request " + target)
	}
}

func links(r *mon.Run) {
	for _, p := range []string{"/", "/debug", "/debug/", "/a/b/c"} {
		mux := http.NewServeMux()
		zpages.Handle(mux, p)
		base, _ := url.Parse("http://x" + strings.TrimSuffix(p, "/") + "/tracez")
		for _, pg := range []string{"tracez", "rpcz"} {
			page, ok := get(r, mux, strings.TrimSuffix(p, "/")+"/"+pg)
			if !ok {
				continue
			}
			z := html.NewTokenizer(strings.NewReader(page))
			for {
				tt := z.Next()
				if tt == html.ErrorToken {
					break
				}
				t := z.Token()
				if tt != html.StartTagToken && tt != html.SelfClosingTagToken || t.Data != "link" && t.Data != "a" {
					continue
				}
				for _, a := range t.Attr {
					u, err := base.Parse(a.Val)
					if a.Key != "href" || err != nil || u.Host != "x" {
						continue
					}
					w := httptest.NewRecorder()
					mux.ServeHTTP(w, httptest.NewRequest("GET", u.RequestURI(), nil))
					r.Check(w.Code == 200, "dead-link", "pages at %q: link %q gives status %d", p, a.Val, w.Code)
					r.Count("page_links", 1)
				}
			}
		}
	}
}

type rpcTotals struct {
	n, errs uint64
	lat     float64
	in, out float64
	since   time.Duration // age of the process when the last one was recorded
}

var t0 = time.Now()

// rpcz records RPCs as the gRPC plugin does, and compares the page's totals.
func rpcz(r *mon.Run, mux http.Handler, prefix string) {
	rng := r.Rand("rpcz")
	view.SetReportingPeriod(10 * time.Millisecond)
	type key struct {
		dir    string
		method string
	}
	want := map[key]*rpcTotals{}
	methods := []string{"svc.A/M1", "svc.A/M2", "svc.<b>/M&3", "svc.B/'\"", "x"}
	statuses := []string{"OK", "OK", "OK", "UNKNOWN", "CANCELLED", "NOT_FOUND"}
	type rpc struct{ lat, in, out float64 }
	record := func(rng *rand.Rand) (key, string, rpc) {
		k := key{[]string{"Sent", "Received"}[rng.IntN(2)], methods[rng.IntN(len(methods))]}
		s := statuses[rng.IntN(len(statuses))]
		ms := float64(rng.IntN(5000)) / 7
		in, out := int64(rng.IntN(100_000_000)), int64(rng.IntN(100_000_000))
		var muts []tag.Mutator
		var meas []stats.Measurement
		if k.dir == "Sent" {
			muts = []tag.Mutator{tag.Upsert(ocgrpc.KeyClientMethod, k.method), tag.Upsert(ocgrpc.KeyClientStatus, s)}
			meas = []stats.Measurement{ocgrpc.ClientRoundtripLatency.M(ms), ocgrpc.ClientSentMessagesPerRPC.M(int64(rng.IntN(4))), ocgrpc.ClientReceivedMessagesPerRPC.M(int64(rng.IntN(4))),
				ocgrpc.ClientSentBytesPerRPC.M(out), ocgrpc.ClientReceivedBytesPerRPC.M(in)}
		} else {
			muts = []tag.Mutator{tag.Upsert(ocgrpc.KeyServerMethod, k.method), tag.Upsert(ocgrpc.KeyServerStatus, s)}
			meas = []stats.Measurement{ocgrpc.ServerLatency.M(ms), ocgrpc.ServerSentMessagesPerRPC.M(int64(rng.IntN(4))), ocgrpc.ServerReceivedMessagesPerRPC.M(int64(rng.IntN(4))),
				ocgrpc.ServerSentBytesPerRPC.M(out), ocgrpc.ServerReceivedBytesPerRPC.M(in)}
		}
		if err := stats.RecordWithTags(context.Background(), muts, meas...); err != nil {
			r.Broken("record: %v", err)
		}
		return k, s, rpc{ms, float64(in), float64(out)}
	}
	page := func() (map[key][6]string, bool) {
		p, ok := get(r, mux, prefix+"rpcz")
		if !ok {
			return nil, false
		}
		out := map[key][6]string{}
		dir := ""
		rs, _ := rows(p)
		for _, cs := range rs {
			if len(cs) == 1 && (cs[0].text == "Sent" || cs[0].text == "Received") {
				dir = cs[0].text
			}
			if len(cs) >= 24 {
				out[key{dir, cs[0].text}] = [6]string{cs[4].text, cs[8].text, cs[24].text, cs[12].text, cs[16].text, cs[20].text}
			}
		}
		return out, true
	}
	cnt := func(n uint64) string {
		if n == 0 {
			return " "
		}
		return fmt.Sprint(n)
	}
	rate := func(s string, x float64, since time.Duration) bool {
		v, err := strconv.ParseFloat(s, 64)
		// The age of the process at the export is only known within bounds.
		return err == nil && v <= x/since.Seconds()+0.001 && v >= x/(time.Since(t0).Seconds()+5)-0.001
	}
	matches := func(got map[key][6]string) string {
		for k, w := range want {
			g, ok := got[k]
			if !ok {
				return fmt.Sprintf("%v missing", k)
			}
			avg := w.lat / float64(w.n)
			a, err := strconv.ParseFloat(g[1], 64)
			if g[0] != cnt(w.n) || g[2] != cnt(w.errs) || err != nil || math.Abs(a-avg) > 1 {
				return fmt.Sprintf("%v shows count %q, average latency %q ms, errors %q; recorded %d, %.3f, %d", k, g[0], g[1], g[2], w.n, avg, w.errs)
			}
			if !rate(g[3], float64(w.n), w.since) || !rate(g[4], w.in/1e6, w.since) || !rate(g[5], w.out/1e6, w.since) {
				return fmt.Sprintf("%v shows rates %q, %v RPCs, %v bytes in, %v bytes out were recorded within %v..%v", k, g[3:], w.n, w.in, w.out, w.since, time.Since(t0))
			}
		}
		for k := range got {
			if want[k] == nil {
				return fmt.Sprintf("%v shown, never recorded", k)
			}
		}
		return ""
	}
	for c := 0; c < r.N(8, 10); c++ {
		for i := rng.IntN(200); i >= 0; i-- {
			k, s, c := record(rng)
			t := want[k]
			if t == nil {
				t = &rpcTotals{}
				want[k] = t
			}
			t.n++
			t.lat += c.lat
			t.in += c.in
			t.out += c.out
			t.since = time.Since(t0)
			if s != "OK" {
				t.errs++
			}
		}
		r.Case("rpcz round %d", c)
		diff := ""
		for try := 0; try < 600; try++ {
			got, ok := page()
			if !ok {
				return
			}
			if diff = matches(got); diff == "" {
				break
			}
			r.Progress()
			time.Sleep(time.Duration(5+try/10) * time.Millisecond)
		}
		if diff != "" {
			r.Violate("rpcz-totals", "rpcz never shows what was recorded: %s", diff)
			return
		}
		var tb bytes.Buffer
		zpages.WriteTextRpczPage(&tb)
		if heads := strings.Count(tb.String(), "Min"); heads != 2*6 {
			r.Violate("rpcz-text", "text page heads %d columns of minutes, its rows have 2*6:\n%s", heads, tb.String())
		}
		for k, w := range want {
			n, dir := 0, ""
			for _, l := range strings.Split(tb.String(), "\n") {
				if d, ok := strings.CutSuffix(strings.TrimSpace(l), ":"); ok && (d == "Sent" || d == "Received") {
					dir = d
				}
				f := strings.Fields(l)
				if len(f) == 19 && dir == k.dir && f[3] == fmt.Sprint(w.n) && f[0] == k.method && f[18] == fmt.Sprint(w.errs) {
					n++
				}
			}
			r.Check(n >= 1, "rpcz-text", "text page has no row under its direction with the totals of %v (%d RPCs, %d errors):\n%s", k, w.n, w.errs, tb.String())
		}
		r.Count("rpcz_totals_matched", len(want))
		r.Eval(fmt.Sprint("rpcz", c, len(want)))
	}
	// Recording, scraping and exporting at once; counts never go back.
	var stop atomic.Bool
	seeds := []uint64{rng.Uint64(), rng.Uint64()}
	var done atomic.Int32
	fs := []func(){}
	for i := 0; i < 2; i++ {
		fs = append(fs, func() {
			defer func() {
				if done.Add(1) == 2 {
					stop.Store(true)
				}
			}()
			rng := rand.New(rand.NewPCG(seeds[i], 3))
			for k := 0; k < 400; k++ {
				record(rng)
				if k%20 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		})
	}
	fs = append(fs, func() {
		last := map[key]int{}
		for !stop.Load() {
			got, ok := page()
			if !ok {
				return
			}
			for k, g := range got {
				n, _ := strconv.Atoi(strings.TrimSpace(g[0]))
				r.Check(n >= last[k], "rpcz-totals", "%v: total count went from %d to %d", k, last[k], n)
				last[k] = n
			}
			r.Count("rpcz_scrapes", 1)
		}
	}, func() {
		for !stop.Load() {
			zpages.WriteTextRpczPage(io.Discard)
			zpages.WriteTextTracezSummary(io.Discard)
		}
	})
	r.Go(fs...)
}

// scrape lists spans while they are being started, changed and ended.
func scrape(r *mon.Run, mux http.Handler, prefix string) {
	rng := r.Rand("scrape")
	for c := 0; c < r.N(5, 20); c++ {
		name := fmt.Sprintf("c07-scrape-%d-%d", r.Shard, c)
		var done atomic.Int32
		var started, ended atomic.Int64
		seeds := []uint64{rng.Uint64(), rng.Uint64(), rng.Uint64()}
		var fs []func()
		for i := range seeds {
			fs = append(fs, func() {
				defer done.Add(1)
				rng := rand.New(rand.NewPCG(seeds[i], 4))
				for k := 0; k < 60; k++ {
					started.Add(1)
					_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
					for j := rng.IntN(5); j > 0; j-- {
						sp.AddAttributes(trace.Int64Attribute(fmt.Sprint("k", rng.IntN(4)), 1))
						sp.Annotate([]trace.Attribute{trace.StringAttribute("a", "b")}, "m")
						sp.AddMessageSendEvent(1, 2, 3)
					}
					sp.End()
					ended.Add(1)
				}
			})
		}
		for i := 0; i < 2; i++ {
			fs = append(fs, func() {
				for done.Load() < 3 {
					e := ended.Load()
					page, ok := get(r, mux, prefix+"tracez?zspanname="+name+"&ztype=0")
					if !ok {
						return
					}
					_, all := rows(page)
					n := requests(all)
					s := started.Load()
					r.Check(n >= 0 && int64(n) <= s-e, "scrape-active", "%d spans listed as running, at most %d can be", n, s-e)
					get(r, mux, prefix+"tracez?zspanname="+name+"&ztype=1&zsubtype="+fmt.Sprint(n%9))
					get(r, mux, prefix+"rpcz")
					r.Count("scrapes", 1)
				}
			})
		}
		r.Go(fs...)
		r.Eval(fmt.Sprint("scrape", c))
	}
}

// stalled is a client that reads part of a page and then no more until it is
// released.
type stalled struct {
	hdr     http.Header
	left    int
	reached chan struct{}
	release chan struct{}
}

func (s *stalled) Header() http.Header { return s.hdr }
func (s *stalled) WriteHeader(int)     {}
func (s *stalled) Write(p []byte) (int, error) {
	if s.left >= 0 {
		if s.left -= len(p); s.left < 0 {
			close(s.reached)
			<-s.release
		}
	}
	return len(p), nil
}

// stall lets clients stop reading in the middle of a page, and meanwhile uses
// all the page shows: spans, recordings, exports and other pages.
func stall(r *mon.Run, mux http.Handler, prefix string, st store) {
	rng := r.Rand("stall")
	name := fmt.Sprintf("c07-stall-%d", r.Shard)
	_, running := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
	defer running.End()
	page := func(target string) func(w http.ResponseWriter) {
		return func(w http.ResponseWriter) { mux.ServeHTTP(w, httptest.NewRequest("GET", prefix+target, nil)) }
	}
	pages := []struct {
		what string
		f    func(w http.ResponseWriter)
	}{
		{"rpcz", page("rpcz")},
		{"WriteHTMLRpczSummary", func(w http.ResponseWriter) { zpages.WriteHTMLRpczSummary(w) }},
		{"WriteTextRpczPage", func(w http.ResponseWriter) { zpages.WriteTextRpczPage(w) }},
		{"tracez", page("tracez")},
		{"tracez listing", page("tracez?zspanname=" + name + "&ztype=0")},
		{"WriteTextTracezSummary", func(w http.ResponseWriter) { zpages.WriteTextTracezSummary(w) }},
		{"WriteTextTracezSpans", func(w http.ResponseWriter) { zpages.WriteTextTracezSpans(w, name, 0, 0) }},
	}
	for c := 0; c < r.N(14, 20); c++ {
		pg := pages[c%len(pages)]
		full := httptest.NewRecorder()
		pg.f(full)
		if full.Body.Len() == 0 {
			continue
		}
		at := rng.IntN(full.Body.Len())
		r.Case("a client of %s stops reading after %d of %d bytes", pg.what, at, full.Body.Len())
		w := &stalled{http.Header{}, at, make(chan struct{}), make(chan struct{})}
		done := make(chan struct{})
		go func() { defer close(done); pg.f(w) }()
		select {
		case <-w.reached:
			r.Count("stalled_clients", 1)
		case <-done:
			r.Count("stalled_clients_done", 1) // the page became shorter
			continue
		}
		var step atomic.Value
		other := make(chan struct{})
		method := fmt.Sprintf("stall.%d/M%d", r.Shard, c)
		go func() {
			defer close(other)
			step.Store("starting and ending spans")
			for i := 0; i < 20; i++ {
				_, sp := trace.StartSpan(context.Background(), name, trace.WithSampler(trace.AlwaysSample()))
				sp.Annotate(nil, "x")
				sp.End()
				running.Annotate(nil, "y")
			}
			step.Store("listing spans")
			st.ReportSpansPerMethod()
			st.ReportActiveSpans(name)
			st.ReportSpansByLatency(name, 0, 0)
			st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: name, MaxRequestsSucceeded: 5 + c, MaxRequestsErrors: 5}})
			step.Store("recording")
			stats.RecordWithTags(context.Background(), []tag.Mutator{tag.Upsert(ocgrpc.KeyClientMethod, method), tag.Upsert(ocgrpc.KeyClientStatus, "OK")},
				ocgrpc.ClientRoundtripLatency.M(1), ocgrpc.ClientSentMessagesPerRPC.M(1))
			step.Store("retrieving what was recorded")
			for _, v := range ocgrpc.DefaultClientViews {
				view.RetrieveData(v.Name)
			}
			step.Store("rendering other pages, until one shows the new RPC")
			for {
				var b bytes.Buffer
				zpages.WriteTextTracezSummary(&b)
				zpages.WriteHTMLTracezSummary(&b)
				zpages.WriteTextRpczPage(&b)
				if strings.Contains(b.String(), method) {
					break
				}
				select {
				case <-w.release:
					return
				case <-time.After(5 * time.Millisecond):
				}
			}
		}()
		heldUp := false
		for i := 0; ; i++ {
			select {
			case <-other:
			case <-time.After(time.Second):
				if r.Progress(); i < 30 {
					continue
				}
				heldUp = true
				r.Violate("held-up", "while a client of %s has stopped reading after %d bytes, %v does not finish in 30 s", pg.what, at, step.Load())
			}
			break
		}
		close(w.release)
		<-done
		<-other
		if heldUp {
			return
		}
		r.Eval(fmt.Sprint("stall", pg.what, c))
	}
}

// pick sizes a part for a process with or without the race detector.
func pick(race, plain int) int {
	if mon.Race {
		return race
	}
	return plain
}

func run(r *mon.Run) {
	os.Setenv("TZ", "UTC")
	real := internal.Trace.(store)
	prefix := []string{"/", "/debug/", "/a/b/"}[r.Shard%3]
	mux := http.NewServeMux()
	zpages.Handle(mux, prefix)
	if prefix == "/" {
		mux = http.NewServeMux()
		mux.Handle("/", zpages.Handler)
	}
	for _, k := range []string{"pages", "links_followed", "error_code_listings", "lines_checked", "text_rows", "markup_compared", "writers_compared", "page_links", "rpcz_totals_matched", "rpcz_scrapes", "scrapes", "stalled_clients"} {
		r.Require(k, 1)
	}
	// Without a multiplexer, the pages are in the default one.
	for _, def := range []bool{false, true} {
		m, at := mux, prefix
		if def {
			m, at = http.DefaultServeMux, "/verif/nil/"
			r.Do("zpages.Handle(nil, ...)", func() { zpages.Handle(nil, at) })
		}
		for _, pg := range []string{"tracez", "rpcz"} {
			w := httptest.NewRecorder()
			m.ServeHTTP(w, httptest.NewRequest("GET", at+pg, nil))
			r.Check(w.Code == 200, "no-page", "GET %s%s gives status %d (default multiplexer: %v)", at, pg, w.Code, def)
		}
	}
	_, first := trace.StartSpan(context.Background(), "first/of all", trace.WithSampler(trace.AlwaysSample()))
	first.End()
	if !r.Check(len(real.ReportSpansPerMethod()["first/of all"].LatencyBuckets) > 0, "store-off", "zpages.Handle was called; a span ended since is not in the span store") {
		return
	}
	links(r)
	synthetic(r, mux, prefix, real)
	requestsAny(r, mux, prefix)
	scrape(r, mux, prefix)
	rpcz(r, mux, prefix)
	stall(r, mux, prefix, real)
	realStore(r, mux, prefix, real)
}
