// Command runcheck builds the monitor of one property against the working
// tree of /repo, runs it, judges what the monitor and the race detector
// observed, and writes the evidence file.
//
// Exit status: 0 the property held on everything explored, 1 with a
// "VIOLATION property=<id> replay=<path>" line otherwise, 2 inconclusive.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"go.opencensus.io/verifmon/mon"
)

const repo = "/repo"

type build struct {
	name    string
	race    bool
	perturb []string // packages of the library whose schedule is perturbed
	arch    string   // GOARCH, if not the machine's own
	quick   int      // processes in the quick tier
	deep    int      // processes in the thorough tier
}

var verifDir = "/verif"

type raceReport struct {
	Sig, Text string
	Library   bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: runcheck ID [tier]")
		os.Exit(2)
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	if d, err := os.Getwd(); err == nil {
		verifDir = filepath.Dir(d)
	}
	os.Exit(check(id, tier, seed))
}

func check(id, tier string, seed int64) int {
	t0 := time.Now()
	sp, ok := specs[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	var notes []string
	type job struct {
		b     build
		bin   string
		shard int
		n     int
	}
	var jobs []job
	points := map[string]int{}
	type built struct {
		bin string
		err error
	}
	outs := make([]built, len(sp.builds))
	var bwg sync.WaitGroup
	var nmu sync.Mutex
	for i, b := range sp.builds {
		bwg.Add(1)
		go func() {
			defer bwg.Done()
			bin := filepath.Join(scratch, "bin-"+b.name)
			var err error
			if len(b.perturb) > 0 {
				var ov string
				var n int
				ov, n, err = perturb(repo, filepath.Join(scratch, "ov-"+b.name), b.perturb)
				if err == nil {
					err = gobuild(bin, b, ov, sp.pkg)
				}
				nmu.Lock()
				points[b.name] = n
				if err != nil {
					notes = append(notes, "build "+b.name+": schedule perturbation not applicable to this tree: "+err.Error())
					points[b.name] = 0
				}
				nmu.Unlock()
			}
			if len(b.perturb) == 0 || err != nil {
				err = gobuild(bin, b, "", sp.pkg)
			}
			outs[i] = built{bin, err}
		}()
	}
	bwg.Wait()
	for i, b := range sp.builds {
		if outs[i].err == nil && b.arch != "" {
			// A kernel may be without the foreign instruction set.
			probe := exec.Command(outs[i].bin)
			probe.Env = append(os.Environ(), "MON_PROBE=1")
			err := probe.Start()
			if err == nil {
				probe.Wait()
			} else {
				notes = append(notes, "build "+b.name+" does not run here and was left out: "+err.Error())
				continue
			}
		}
		if outs[i].err != nil {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: build failed:", outs[i].err)
			return 2
		}
		n := b.quick
		if tier == "thorough" {
			n = b.deep
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, job{b, outs[i].bin, s, n})
		}
	}
	buildS := time.Since(t0).Seconds()

	type outcome struct {
		job    job
		res    mon.Result
		haveR  bool
		races  []raceReport
		stderr string
		err    error
		killed bool
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	} else {
		limit -= time.Since(t0)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	known, knownErr := loadKnown(filepath.Join(verifDir, "known_findings.txt"), id)
	var sigs []string
	for s := range known {
		sigs = append(sigs, s)
	}
	// Once something is found the rest is not worth waiting long for: it may
	// be spinning on what is broken.
	var foundOnce sync.Once
	found := func(res mon.Result, races []raceReport, stderr string) {
		hit := false
		for _, v := range res.Violations {
			_, k := known[v.Sig]
			hit = hit || !k
		}
		for _, rr := range races {
			_, k := known[rr.Sig]
			hit = hit || rr.Library && !k
		}
		if !res.Done && !hit {
			sig, _ := crash(stderr)
			_, k := known[sig]
			hit = sig != "" && !k
		}
		if hit {
			foundOnce.Do(func() {
				grace := 60 * time.Second
				if tier == "thorough" {
					grace = 10 * time.Minute
				}
				time.AfterFunc(grace, cancel)
			})
		}
	}
	results := make([]outcome, len(jobs))
	par := sp.par
	if par == 0 {
		par = 8
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			dir := filepath.Join(scratch, fmt.Sprintf("run-%s-%d", j.b.name, j.shard))
			os.MkdirAll(dir, 0o755)
			out := filepath.Join(dir, "result.json")
			cmd := exec.CommandContext(ctx, j.bin)
			cmd.Dir = dir
			cmd.Env = append(os.Environ(),
				"VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed),
				fmt.Sprintf("MON_SHARD=%d", j.shard), fmt.Sprintf("MON_SHARDS=%d", j.n),
				"MON_OUT="+out, "MON_BUILD="+j.b.name, "MON_SCRATCH="+dir,
				"MON_KNOWN="+strings.Join(sigs, "\n"),
				"GOTRACEBACK=all",
				"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
			if j.b.arch != "" {
				// Few processors and a busy collector: other interleavings, emptier pools.
				cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", 2+j.shard%3), "GOGC=25")
			}
			ef, _ := os.Create(filepath.Join(dir, "stderr"))
			cmd.Stderr = ef
			cmd.Stdout = ef
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			err := cmd.Run()
			ef.Close()
			o := outcome{job: j, err: err, killed: ctx.Err() != nil}
			if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &o.res) == nil {
				o.haveR = true
			}
			if b, e := os.ReadFile(filepath.Join(dir, "stderr")); e == nil {
				if len(b) > 4<<20 {
					b = b[:4<<20]
				}
				o.stderr = string(b)
			}
			logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
			for _, l := range logs {
				if b, e := os.ReadFile(l); e == nil {
					o.races = append(o.races, parseRaces(string(b))...)
				}
			}
			results[i] = o
			found(o.res, o.races, o.stderr)
		}()
	}
	wg.Wait()

	// Judge.
	var violations []mon.Violation
	var inconclusive []string
	if knownErr != nil {
		inconclusive = append(inconclusive, "known findings: "+knownErr.Error())
	}
	distinct := map[uint64]struct{}{}
	counters := map[string]int64{}
	required := map[string]int64{}
	var samples []any
	var evals, suppressed int64
	raceSigs := map[string]int{}
	for _, o := range results {
		where := fmt.Sprintf("%s/%d", o.job.b.name, o.job.shard)
		if o.haveR {
			evals += o.res.Evaluations
			suppressed += o.res.Suppressed
			for _, h := range o.res.Distinct {
				distinct[h] = struct{}{}
			}
			for k, v := range o.res.Counters {
				counters[k] += v
			}
			for k, v := range o.res.Required {
				if required[k] < v {
					required[k] = v
				}
			}
			if len(samples) < 6 {
				samples = append(samples, o.res.Samples...)
			}
			for _, v := range o.res.Violations {
				v.Build, v.Shard = o.job.b.name, o.job.shard
				violations = append(violations, v)
			}
			for _, b := range o.res.Broken {
				inconclusive = append(inconclusive, where+": harness: "+b)
			}
		}
		if !o.haveR || (!o.res.Done && len(o.res.Violations) == 0) {
			if sig, txt := crash(o.stderr); sig != "" {
				violations = append(violations, mon.Violation{Sig: sig, Msg: "the process crashed in library code", Stack: txt, Build: o.job.b.name, Shard: o.job.shard})
			} else if o.killed {
				inconclusive = append(inconclusive, where+": watchdog: monitor did not finish")
			} else {
				inconclusive = append(inconclusive, where+": monitor ended without a result: "+fmt.Sprint(o.err)+"\n"+tail(o.stderr, 4000))
			}
		}
		for _, rr := range o.races {
			raceSigs[rr.Sig]++
			if raceSigs[rr.Sig] > 1 {
				continue
			}
			if rr.Library {
				violations = append(violations, mon.Violation{Sig: rr.Sig, Msg: "data race", Stack: rr.Text, Build: o.job.b.name, Shard: o.job.shard})
			} else {
				inconclusive = append(inconclusive, where+": data race outside the library:\n"+rr.Text)
			}
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = []any{"(no sample recorded)"}
	}
	for k, v := range required {
		if counters[k] < v {
			inconclusive = append(inconclusive, fmt.Sprintf("observed too little: %s=%d, want at least %d", k, counters[k], v))
		}
	}
	if evals == 0 {
		inconclusive = append(inconclusive, "nothing was evaluated")
	}

	var fresh []mon.Violation
	said := map[string]bool{}
	for _, v := range violations {
		if d, ok := known[v.Sig]; ok {
			if !said[v.Sig] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, d, v.Sig)
			}
			said[v.Sig] = true
			continue
		}
		fresh = append(fresh, v)
	}

	replay := filepath.Join(verifDir, "evidence", id+".replay.json")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	if len(fresh) > 0 {
		b, _ := json.MarshalIndent(map[string]any{
			"property": id, "tier": tier, "seed": seed,
			"replay":     fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", seed, tier, id),
			"violations": fresh, "suppressed": suppressed,
		}, "", "  ")
		os.WriteFile(replay, b, 0o644)
	}
	bn := []string{}
	for _, b := range sp.builds {
		s := b.name
		if b.race {
			s += " (race detector)"
		}
		if b.arch != "" {
			s += " (32-bit, GOARCH=" + b.arch + ")"
		}
		if points[b.name] > 0 {
			s += fmt.Sprintf(" (%d schedule perturbation points)", points[b.name])
		}
		bn = append(bn, s)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": sp.rule,
			"samples": samples, "observed": counters, "builds": bn, "processes": len(jobs),
			"race_reports": len(raceSigs), "build_s": buildS, "notes": notes, "inconclusive": inconclusive,
		},
		"assumptions": sp.assume,
		"violations":  len(fresh),
		"wall_s":      time.Since(t0).Seconds(),
	}
	if sp.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err == nil {
		err = os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		inconclusive = append(inconclusive, "evidence: "+err.Error())
	}

	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d processes, %.1fs\n", id, tier, evals, len(distinct), len(jobs), time.Since(t0).Seconds())
	for _, k := range keys {
		fmt.Printf("  observed %s = %d\n", k, counters[k])
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(fresh) > 0 {
		seen := map[string]bool{}
		for _, v := range fresh {
			if seen[v.Sig] {
				continue
			}
			seen[v.Sig] = true
			fmt.Printf("violated [%s] (%s/%d): %s\n  case: %s\n", v.Sig, v.Build, v.Shard, tail(v.Msg, 1500), v.Case)
			if v.Stack != "" {
				fmt.Println(head(v.Stack, 3000))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	fmt.Printf("OK property=%s\n", id)
	return 0
}

func gobuild(bin string, b build, overlay, pkg string) error {
	args := []string{"build", "-o", bin}
	if b.race {
		args = append(args, "-race")
	}
	if overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	if b.arch != "" {
		cmd.Env = append(os.Environ(), "GOARCH="+b.arch, "CGO_ENABLED=0")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, tail(string(out), 4000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// isLib tells whether a function name belongs to the library under test.
func isLib(fn string) bool {
	return strings.HasPrefix(fn, "go.opencensus.io") && !strings.HasPrefix(fn, "go.opencensus.io/verifmon")
}

func isHarness(fn string) bool {
	return strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "go.opencensus.io/verifmon")
}

// owner finds whether the innermost frame that is not of a dependency is the library's.
func owner(frames []string) (fn string, lib bool) {
	for _, f := range frames {
		if isHarness(f) {
			return f, false
		}
		if isLib(f) {
			return f, true
		}
	}
	return "", false
}

func parseRaces(log string) []raceReport {
	var out []raceReport
	for _, blk := range strings.Split(log, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var stacks [][]string
		var cur []string
		n := 0
		for _, line := range strings.Split(blk, "\n") {
			t := strings.TrimSpace(line)
			switch {
			case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous "), strings.HasPrefix(t, "Atomic "), strings.HasPrefix(t, "Concurrent "):
				if n > 0 {
					stacks = append(stacks, cur)
				}
				cur, n = nil, n+1
			case strings.HasPrefix(t, "Goroutine "):
				if n > 0 {
					stacks = append(stacks, cur)
				}
				n = 0
			case n > 0 && strings.HasSuffix(t, ")") && !strings.HasPrefix(line, "      "):
				cur = append(cur, strings.TrimSuffix(t, "()"))
			}
		}
		if n > 0 {
			stacks = append(stacks, cur)
		}
		var names []string
		lib := false
		for _, s := range stacks {
			fn, l := owner(s)
			if fn == "" {
				fn = "?"
			}
			names = append(names, fn)
			lib = lib || l
		}
		sort.Strings(names)
		out = append(out, raceReport{Sig: "race:" + strings.Join(names, "|"), Text: head(blk, 5000), Library: lib})
	}
	return out
}

var goHdr = regexp.MustCompile(`(?m)^goroutine \d+ `)

// crash attributes a fatal error or an unrecovered panic to library code.
func crash(stderr string) (sig, txt string) {
	i := strings.Index(stderr, "\npanic: ")
	if j := strings.Index(stderr, "\nfatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		if strings.HasPrefix(stderr, "panic: ") || strings.HasPrefix(stderr, "fatal error: ") {
			i = 0
		} else {
			return "", ""
		}
	}
	s := strings.TrimLeft(stderr[i:], "\n")
	if strings.HasPrefix(s, "fatal error: out of memory") || strings.HasPrefix(s, "fatal error: runtime: out of memory") {
		return "", ""
	}
	first := s
	if j := strings.Index(s, "\n"); j > 0 {
		first = s[:j]
	}
	loc := goHdr.FindStringIndex(s)
	if loc == nil {
		return "", ""
	}
	g := s[loc[0]:]
	if j := strings.Index(g, "\n\n"); j > 0 {
		g = g[:j]
	}
	var frames []string
	lines := strings.Split(g, "\n")
	start := 1
	for k, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = k + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "created by ") {
			break
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		frames = append(frames, l)
	}
	fn, lib := owner(frames)
	if !lib {
		return "", ""
	}
	return "crash:" + fn, head(first+"\n"+g, 5000)
}

var knownRE = regexp.MustCompile(`^finding: property=(\S+) sig=(\S+) (.*)$`)

// loadKnown reads the known findings of a property: signature -> description.
func loadKnown(path, id string) (map[string]string, error) {
	out := map[string]string{}
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := knownRE.FindStringSubmatch(sc.Text()); m != nil && m[1] == id {
			out[m[2]] = m[3]
		}
	}
	return out, sc.Err()
}
