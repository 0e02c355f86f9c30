// Package mon is the support library of the runtime monitors: it gives a
// monitor its deterministic case source, collects what it observed, and turns
// violated expectations, library panics and stable deadlocks into a result
// file that the supervisor (cmd/runcheck) judges.
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one refuted expectation, with its witness.
type Violation struct {
	Sig   string `json:"sig"`   // stable identification of what failed
	Msg   string `json:"msg"`   // the witness
	Case  string `json:"case"`  // the case being run
	Build string `json:"build"` // filled in by the supervisor
	Shard int    `json:"shard"` // filled in by the supervisor
	Stack string `json:"stack,omitempty"`
}

// Result is what a monitor process reports to the supervisor.
type Result struct {
	Done        bool             `json:"done"`
	Evaluations int64            `json:"evaluations"`
	Distinct    []uint64         `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Suppressed  int64            `json:"suppressed"` // violations beyond the cap
	Required    map[string]int64 `json:"required"`
	Broken      []string         `json:"broken"` // harness self-check failures
}

// Run is the state of one monitor process.
type Run struct {
	ID     string
	Tier   string
	Seed   int64
	Shard  int
	Shards int

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	sigs     map[string]int
	curCase  atomic.Value // string
	progress atomic.Int64
	out      string
}

// Race tells whether this process was built with the race detector.
var Race = raceEnabled

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// Main runs the monitor f and never returns.
func Main(id string, f func(r *Run)) {
	if os.Getenv("MON_PROBE") != "" {
		return // the program starts on this machine
	}
	r := &Run{
		ID:       id,
		Tier:     os.Getenv("VERIF_TIER"),
		Seed:     envInt("VERIF_SEED", 1),
		Shard:    int(envInt("MON_SHARD", 0)),
		Shards:   int(envInt("MON_SHARDS", 1)),
		out:      os.Getenv("MON_OUT"),
		distinct: map[uint64]struct{}{},
		sigs:     map[string]int{},
	}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	r.res.Counters = map[string]int64{}
	r.res.Required = map[string]int64{}
	r.curCase.Store("")
	go r.watch()
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				if frame := libraryFrame(st); frame != "" {
					r.addViolation(Violation{Sig: "panic:" + frame, Msg: fmt.Sprintf("panic in library code: %v", e), Stack: st})
					r.finish(false)
				}
				panic(e)
			}
		}()
		f(r)
	}()
	r.finish(true)
}

func (r *Run) finish(done bool) {
	r.mu.Lock()
	r.res.Done = done
	r.res.Distinct = r.res.Distinct[:0]
	for h := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, h)
	}
	sort.Slice(r.res.Distinct, func(i, j int) bool { return r.res.Distinct[i] < r.res.Distinct[j] })
	b, err := json.Marshal(r.res)
	if err != nil {
		r.res.Samples = nil
		b, err = json.Marshal(r.res)
	}
	if err == nil && r.out != "" {
		err = os.WriteFile(r.out, b, 0o644)
	} else if r.out == "" {
		for _, v := range r.res.Violations {
			fmt.Printf("violation %s [%s]: %s\n%s\n", v.Sig, v.Case, v.Msg, v.Stack)
		}
		fmt.Printf("evaluations=%d distinct=%d counters=%v broken=%v suppressed=%d\n", r.res.Evaluations, len(r.res.Distinct), r.res.Counters, r.res.Broken, r.res.Suppressed)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "mon: result:", err)
		os.Exit(2)
	}
	os.Exit(0)
}

// Thorough tells whether the thorough tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a quick case count: the thorough tier runs mult times as many.
func (r *Run) N(quick, mult int) int {
	if r.Thorough() {
		return quick * mult
	}
	return quick
}

// Rand is a deterministic generator for the given label, seed and shard.
func (r *Run) Rand(label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d|%s", r.ID, label, r.Seed, r.Shard, os.Getenv("MON_BUILD"))
	return rand.New(rand.NewPCG(uint64(r.Seed), h.Sum64()))
}

// Case announces the case being run; the text goes into witnesses.
func (r *Run) Case(format string, a ...any) {
	r.curCase.Store(fmt.Sprintf(format, a...))
	r.progress.Add(1)
}

// Progress tells the deadlock watch that something happened.
func (r *Run) Progress() { r.progress.Add(1) }

// Eval counts one evaluated case; key identifies it among the distinct
// non-trivial ones, "" marks it trivial.
func (r *Run) Eval(key string) {
	r.progress.Add(1)
	r.mu.Lock()
	r.res.Evaluations++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.res.Counters[name] += int64(n)
	r.mu.Unlock()
}

// Require makes the run inconclusive unless the counter reaches min.
func (r *Run) Require(name string, min int64) {
	r.mu.Lock()
	r.res.Required[name] = min
	r.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.res.Samples) < 6 {
		r.res.Samples = append(r.res.Samples, v)
	}
	r.mu.Unlock()
}

// Broken records a failed self-check of the harness (inconclusive, never a violation).
func (r *Run) Broken(format string, a ...any) {
	r.mu.Lock()
	r.res.Broken = append(r.res.Broken, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

func (r *Run) addViolation(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.sigs[v.Sig]++
	if r.sigs[v.Sig] > 3 || len(r.res.Violations) > 60 {
		r.res.Suppressed++
		return
	}
	v.Case, _ = r.curCase.Load().(string)
	if len(v.Msg) > 6000 {
		v.Msg = v.Msg[:6000] + "..."
	}
	r.res.Violations = append(r.res.Violations, v)
}

// Violate records a violation. sig identifies what failed, independent of the input.
func (r *Run) Violate(sig, format string, a ...any) {
	r.addViolation(Violation{Sig: sig, Msg: fmt.Sprintf(format, a...)})
}

// Check records a violation unless ok.
func (r *Run) Check(ok bool, sig, format string, a ...any) bool {
	if !ok {
		r.Violate(sig, format, a...)
	}
	return ok
}

// Violated tells how many violations have been recorded.
func (r *Run) Violated() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations)
}

// Do runs f, turning a panic of library code into a violation.
// It reports whether f returned normally.
func (r *Run) Do(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			frame := libraryFrame(st)
			if frame == "" {
				panic(fmt.Sprintf("%v\n%s", e, st))
			}
			r.addViolation(Violation{Sig: "panic:" + frame, Msg: fmt.Sprintf("%s: panic: %v", what, e), Stack: st})
			ok = false
		}
	}()
	f()
	return true
}

// Go runs the functions concurrently, released together, and waits for them.
func (r *Run) Go(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r.Do("concurrent step", f)
			r.progress.Add(1)
		}()
	}
	close(start)
	wg.Wait()
}

// Par runs n copies of f concurrently.
func (r *Run) Par(n int, f func(i int)) {
	fs := make([]func(), n)
	for i := range fs {
		fs[i] = func() { f(i) }
	}
	r.Go(fs...)
}

var frameRE = regexp.MustCompile(`(?m)^(go\.opencensus\.io/?[^\s(]*[^\n]*)\([^\n]*\)$`)

// libraryFrame finds the innermost frame of library (non-harness) code in a
// stack dump, looking only at what is above the harness frame that recovered.
func libraryFrame(stack string) string {
	// Look below the last "panic(" line: those are the frames that panicked.
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") {
			continue
		}
		if strings.HasPrefix(line, "go.opencensus.io/verifmon") || strings.HasPrefix(line, "main.") {
			return ""
		}
		if strings.HasPrefix(line, "go.opencensus.io") {
			if i := strings.LastIndex(line, "("); i > 0 {
				line = line[:i]
			}
			return line
		}
	}
	return ""
}

// fresh tells whether anything but known findings has been recorded.
func (r *Run) fresh(known []string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for sig := range r.sigs {
		if !slices.Contains(known, sig) {
			return true
		}
	}
	return false
}

// watch looks for a stable deadlock: no progress for a long stretch, no
// goroutine able to run, identical stacks in repeated dumps, and a call from
// the harness into library code blocked in all of them.
func (r *Run) watch() {
	last, since := int64(-1), 0
	var prev []byte
	same := 0
	known := strings.Split(os.Getenv("MON_KNOWN"), "\n")
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	grace := 45
	if r.Thorough() {
		grace = 500
	}
	for {
		time.Sleep(time.Second)
		// What was broken may make the rest run for ever, or out of memory:
		// report what was found while there is time.
		if r.fresh(known) {
			grace--
			metrics.Read(heap)
			if grace < 0 || heap[0].Value.Uint64() > 2<<30 {
				r.finish(false)
			}
		}
		p := r.progress.Load()
		if p != last {
			last, since, prev, same = p, 0, nil, 0
			continue
		}
		since++
		if since < 25 || since%3 != 0 {
			continue
		}
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		blocked, norm := stuck(buf)
		if blocked == "" {
			prev, same = nil, 0
			continue
		}
		if prev != nil && bytes.Equal(prev, norm) {
			same++
		} else {
			same = 0
		}
		prev = norm
		if same >= 3 {
			r.addViolation(Violation{Sig: "deadlock:" + blocked, Msg: "stable deadlock: a call into the library never returns", Stack: string(buf)})
			r.finish(false)
		}
	}
}

var (
	gRE    = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)[^\]]*\]:$`)
	addrRE = regexp.MustCompile(`0x[0-9a-f]+\??`)
	numRE  = regexp.MustCompile(`, \d+ minutes`)
)

// stuck reports the innermost library function in which a harness call is
// blocked ("" when some goroutine can still run), and the normalised dump.
func stuck(dump []byte) (string, []byte) {
	var norm bytes.Buffer
	blocked := ""
	for _, g := range bytes.Split(dump, []byte("\n\n")) {
		m := gRE.FindSubmatch(g)
		if m == nil {
			continue
		}
		if bytes.Contains(g, []byte("mon.(*Run).watch")) {
			continue
		}
		state := string(m[1])
		switch state {
		case "running", "runnable", "syscall", "sleep", "IO wait":
			return "", nil
		}
		norm.Write(numRE.ReplaceAll(g, nil))
		lib := ""
		for _, line := range strings.Split(string(g), "\n")[1:] {
			if strings.HasPrefix(line, "\t") {
				continue
			}
			if strings.HasPrefix(line, "go.opencensus.io/verifmon") || strings.HasPrefix(line, "main.") {
				if lib != "" && blocked == "" {
					blocked = lib
				}
				break
			}
			if strings.HasPrefix(line, "created by") {
				break
			}
			if lib == "" && strings.HasPrefix(line, "go.opencensus.io") {
				lib = line[:strings.LastIndex(line, "(")]
			}
		}
	}
	return blocked, norm.Bytes()
}
