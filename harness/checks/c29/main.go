// C29: spans are tasks of the Go execution tracer.
//
// PRNG-made histories of starting and ending spans run in several goroutines
// while the execution tracer is switched on and off; marks written into the
// trace tie its tasks to the spans, and the trace is read by go tool trace.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	rt "runtime/trace"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
	"go.opencensus.io/verifmon/mon"
)

func main() { mon.Main("C29", run) }

// A node is a context: of a span, of a task of the program's own, or of a
// span put into another context.
type node struct {
	id      int
	what    string
	name    string
	ctx     context.Context
	span    *trace.Span
	own     *rt.Task
	parent  *node // whose task is the parent task, or is this context's own
	began   int   // session, 0 if it has no task of its own
	task    string
	endedIn int // session, -1 while it runs
	twice   bool
}

// taskOf is the node whose task is that of n's context.
func (n *node) taskOf() *node {
	for n != nil && n.began == 0 {
		n = n.parent
	}
	return n
}

func (n *node) taskID() string {
	if t := n.taskOf(); t != nil {
		return t.task
	}
	return "none"
}

type monitor struct {
	r       *mon.Run
	mu      sync.Mutex
	nodes   []*node
	session int // 0 while the tracer is off
}

const cat = "c29"

func (m *monitor) add(n *node) *node {
	m.mu.Lock()
	defer m.mu.Unlock()
	n.id, n.endedIn = len(m.nodes), -1
	m.nodes = append(m.nodes, n)
	return n
}

var names = []string{"", "a", "/path", "two words", "quote \" and \\", "line\nbreak", "é<b>&amp;", "ID=7 Type=\"x\"", strings.Repeat("long", 60)}

// step does one random thing; mine are the nodes only this goroutine ends.
func (m *monitor) step(rng *rand.Rand, all []*node, mine *[]*node) {
	from := &node{ctx: context.Background()}
	var parent *node
	if k := rng.IntN(len(all) + len(*mine) + 1); k < len(all) {
		from, parent = all[k], all[k]
	} else if k -= len(all); k < len(*mine) {
		from, parent = (*mine)[k], (*mine)[k]
	}
	mark := func(ctx context.Context, what string, n *node) { rt.Log(ctx, cat, fmt.Sprintf("%s %d", what, n.id)) }
	name := names[rng.IntN(len(names))]
	sampler := []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}[rng.IntN(3)]
	switch rng.IntN(12) {
	case 0, 1, 2, 3: // a span
		n := m.add(&node{what: "span", name: name, parent: parent, began: m.session})
		mark(from.ctx, "begin", n)
		if rng.IntN(3) == 0 {
			n.what = "span with a remote parent"
			n.ctx, n.span = trace.StartSpanWithRemoteParent(from.ctx, name, trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, TraceOptions: trace.TraceOptions(rng.IntN(2))}, trace.WithSampler(sampler), trace.WithSpanKind(rng.IntN(3)))
		} else {
			n.ctx, n.span = trace.StartSpan(from.ctx, name, trace.WithSampler(sampler), trace.WithSpanKind(rng.IntN(3)))
		}
		mark(n.ctx, "begun", n)
		*mine = append(*mine, n)
	case 4: // a task of the program's own
		n := m.add(&node{what: "task", name: name, parent: parent, began: m.session})
		if m.session == 0 {
			return
		}
		mark(from.ctx, "begin", n)
		n.ctx, n.own = rt.NewTask(from.ctx, name)
		mark(n.ctx, "begun", n)
		*mine = append(*mine, n)
	case 5: // a span put into another context keeps that context's task
		if parent == nil || len(*mine) == 0 {
			return
		}
		o := (*mine)[rng.IntN(len(*mine))]
		if o.span == nil {
			return
		}
		n := m.add(&node{what: "context", name: name, parent: parent})
		n.ctx = trace.NewContext(from.ctx, o.span)
		mark(n.ctx, "in", n)
		*mine = append(*mine, n)
	case 6: // what a context's task is
		if parent != nil {
			mark(from.ctx, "in", parent)
		}
	case 7: // a served request
		n := m.add(&node{what: "request", name: "/served", parent: parent, began: m.session})
		q := httptest.NewRequest("GET", "/served", nil).WithContext(from.ctx)
		mark(from.ctx, "begin", n)
		(&ochttp.Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			mark(q.Context(), "begun", n)
			mark(q.Context(), "end", n)
		}), StartOptions: trace.StartOptions{Sampler: sampler}}).ServeHTTP(httptest.NewRecorder(), q)
		n.endedIn = m.session
		mark(from.ctx, "ended", n)
	default: // an end
		if len(*mine) == 0 {
			return
		}
		n := (*mine)[rng.IntN(len(*mine))]
		if n.span == nil && n.own == nil {
			return
		}
		if n.endedIn >= 0 {
			if n.span != nil { // changes nothing
				n.span.End()
				m.r.Count("ended_again", 1)
			}
			return
		}
		n.endedIn = m.session
		mark(n.ctx, "end", n)
		if n.own != nil {
			n.own.End()
		} else if rng.IntN(4) == 0 {
			n.twice = true
			m.r.Go(n.span.End, n.span.End)
		} else {
			n.span.End()
		}
		mark(n.ctx, "ended", n)
	}
}

var (
	beginRE = regexp.MustCompile(` TaskBegin Time=\d+ ID=(\d+) Parent=(\d+) Type=(".*")$`)
	endRE   = regexp.MustCompile(` TaskEnd Time=\d+ ID=(\d+) `)
	logRE   = regexp.MustCompile(` Log Time=\d+ Task=(\d+) Category="c29" Message="(\w+) (\d+)"$`)
)

type begin struct {
	at           int
	parent, name string
}

type mark struct {
	at   int
	task string
}

func none(id string) string {
	if id == "0" || id == "18446744073709551615" {
		return "none"
	}
	return id
}

// judge reads the trace of a session.
func (m *monitor) judge(data []byte, session int) {
	r := m.r
	f, err := os.CreateTemp("", "c29")
	if err != nil {
		r.Broken("%v", err)
		return
	}
	defer os.Remove(f.Name())
	f.Write(data)
	f.Close()
	var stderr bytes.Buffer
	cmd := exec.Command("go", "tool", "trace", "-d=parsed", f.Name())
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		r.Broken("go tool trace: %v: %s", err, stderr.String())
		return
	}
	begins, ends, marks := map[string]begin{}, map[string][]int{}, map[string]mark{}
	ins := map[int][]string{}
	for i, l := range strings.Split(string(out), "\n") {
		if x := beginRE.FindStringSubmatch(l); x != nil {
			name, err := strconv.Unquote(x[3])
			if err != nil {
				r.Broken("%q: %v", l, err)
			}
			begins[x[1]] = begin{i, none(x[2]), name}
		} else if x := endRE.FindStringSubmatch(l); x != nil {
			ends[x[1]] = append(ends[x[1]], i)
		} else if x := logRE.FindStringSubmatch(l); x != nil {
			if x[2] == "in" {
				n, _ := strconv.Atoi(x[3])
				ins[n] = append(ins[n], none(x[1]))
			} else {
				marks[x[2]+" "+x[3]] = mark{i, none(x[1])}
			}
		}
	}
	r.Count("tasks_read", len(begins))
	known := map[string]*node{}
	for _, n := range m.nodes { // parents come before their children
		if n.began != session {
			continue
		}
		k := strconv.Itoa(n.id)
		begin, ok := marks["begin "+k]
		begun, ok2 := marks["begun "+k]
		if !ok || !ok2 {
			r.Broken("session %d has no marks of node %s (%s)", session, k, n.what)
			return
		}
		n.task = begun.task
		b, ok := begins[n.task]
		r.Count("tasks_of_"+strings.Fields(n.what)[0]+"s", 1)
		if !r.Check(ok && known[n.task] == nil, "task", "session %d: the %s %q runs in task %s, which is not its own (tasks begun: %d)", session, n.what, n.name, n.task, len(begins)) {
			continue
		}
		known[n.task] = n
		r.Check(b.name == n.name, "name", "session %d: the task of the %s %q is named %q", session, n.what, n.name, b.name)
		want := "none"
		if n.parent != nil {
			want = n.parent.taskID()
		}
		r.Check(b.parent == want, "parent", "session %d: the task of the %s %q has parent %s, that of its context is %s", session, n.what, n.name, b.parent, want)
		r.Check(b.at > begin.at && b.at < begun.at, "begin", "session %d: the task of the %s %q does not begin with it", session, n.what, n.name)
	}
	for id := range begins {
		r.Check(known[id] != nil, "stray-task", "session %d: task %s (%+v) belongs to no span", session, id, begins[id])
	}
	running := 0
	for _, n := range m.nodes {
		for _, id := range ins[n.id] {
			want := n.taskID()
			r.Check(id == want, "context", "session %d: a context of the %s %q has task %s, want %s", session, n.what, n.name, id, want)
			r.Count("contexts_checked", 1)
		}
		if n.began == 0 || n.task == "" {
			continue
		}
		at := ends[n.task]
		delete(ends, n.task)
		if n.endedIn != session {
			r.Check(len(at) == 0, "end", "session %d: the task of the %s %q ends, it %s", session, n.what, n.name, map[bool]string{true: "still runs", false: "ended in another session"}[n.endedIn < 0])
			running++
			continue
		}
		k := strconv.Itoa(n.id)
		if r.Check(len(at) == 1, "end", "session %d: the task of the %s %q ends %d times", session, n.what, n.name, len(at)) {
			// Marks of other goroutines are ordered by their clocks alone.
			r.Check(n.twice || at[0] > marks["end "+k].at && at[0] < marks["ended "+k].at, "end", "session %d: the task of the %s %q does not end with it", session, n.what, n.name)
			r.Count("ends_checked", 1)
		}
	}
	for id := range ends {
		r.Violate("stray-end", "session %d: task %s of no span ends", session, id)
	}
	r.Count("tasks_running_checked", running)
}

func (m *monitor) round(rng *rand.Rand) {
	r := m.r
	m.nodes = nil
	session := 0
	var shape []string
	for phase := 1 + rng.IntN(4); phase > 0; phase-- {
		m.session = 0
		var buf bytes.Buffer
		if rng.IntN(4) > 0 {
			session++
			m.session = session
			if err := rt.Start(&buf); err != nil {
				r.Broken("the execution tracer: %v", err)
				return
			}
		}
		before := append([]*node{}, m.nodes...)
		// Tasks a program cannot start without the tracer have no context.
		usable := before[:0:0]
		owned := make([][]*node, 4)
		for i, n := range before {
			if n.ctx == nil {
				continue
			}
			usable = append(usable, n)
			if n.endedIn < 0 {
				owned[i%4] = append(owned[i%4], n)
			}
		}
		seed := rng.Uint64()
		steps := 10 + rng.IntN(60)
		r.Par(4, func(g int) {
			rng := rand.New(rand.NewPCG(seed, uint64(g)))
			for i := 0; i < steps; i++ {
				m.step(rng, usable, &owned[g])
			}
		})
		shape = append(shape, fmt.Sprintf("%v/%d/%x", m.session > 0, steps, seed))
		if m.session > 0 {
			rt.Stop()
			m.judge(buf.Bytes(), m.session)
			r.Count("sessions", 1)
		} else {
			r.Count("phases_without_tracer", 1)
		}
	}
	for _, n := range m.nodes {
		if n.span != nil {
			n.span.End()
		}
	}
	r.Eval(strings.Join(shape, " "))
	r.Sample(map[string]any{"phases": shape, "contexts": len(m.nodes)})
}

func run(r *mon.Run) {
	rng := r.Rand("main")
	m := &monitor{r: r}
	end := time.Now().Add(time.Duration(r.N(12, 10)) * time.Second)
	for i := 0; i < 3 || time.Now().Before(end) && i < r.N(12, 20); i++ {
		r.Case("round %d", i)
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.ProbabilitySampler([]float64{0, 0.5, 1}[rng.IntN(3)])})
		m.round(rng)
		if r.Violated() > 0 {
			break
		}
	}
	for _, c := range []string{"sessions", "tasks_of_spans", "tasks_of_requests", "ends_checked", "contexts_checked", "ended_again", "tasks_running_checked"} {
		r.Require(c, 3)
	}
}
