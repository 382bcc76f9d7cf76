package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/prop"
	"verif/sim"
)

// ReplayFile is what a reported violation leaves behind.
type ReplayFile struct {
	Case
	Verdict  sim.Verdict `json:"verdict"`
	LogHash  uint64      `json:"log_hash"`
	Original struct {
		Workload int `json:"workload_choices"`
		Schedule int `json:"schedule_choices"`
		Faults   int `json:"fault_choices"`
	} `json:"before_minimization"`
	Deterministic bool     `json:"reproduced_exactly"`
	Desc          []string `json:"desc,omitempty"`
	Trace         []string `json:"trace,omitempty"`
	Race          []string `json:"race_report,omitempty"`
}

var self string

func childEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") {
			env = append(env, e)
		}
	}
	return append(env, "GOMAXPROCS=1", "GORACE=exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+os.DevNull, "GOGC=400")
}

func raceTo(cmd *exec.Cmd, path string) {
	for i, e := range cmd.Env {
		cmd.Env[i] = strings.Replace(e, "log_path="+os.DevNull, "log_path="+path, 1)
	}
}

type execResult struct {
	reply
	died   bool
	stuck  bool
	stderr string
	race   []string
}

// raceSummary keeps the accesses of the first race report.
func raceSummary(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRight(l, " ")
		if strings.HasPrefix(l, "====") {
			if len(out) > 0 {
				break
			}
			continue
		}
		if l != "" && len(out) < 60 {
			out = append(out, l)
		}
	}
	return out
}

// execChild runs one case in a fresh process.
func execChild(c *Case, tracing bool) execResult {
	args := []string{"exec"}
	if tracing {
		args = append(args, "trace")
	}
	cmd := exec.Command(self, args...)
	cmd.Env = childEnv()
	d, err := os.MkdirTemp("", "simrun")
	if err == nil {
		defer os.RemoveAll(d)
	}
	logs := filepath.Join(d, "race")
	raceTo(cmd, logs)
	b, _ := json.Marshal(c)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limited{b: &errb, n: 20000}
	err = cmd.Run()
	var r execResult
	r.stderr = errb.String()
	if tracing {
		files, _ := filepath.Glob(logs + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			r.race = append(r.race, raceSummary(string(b))...)
		}
	}
	if err != nil {
		r.died = true
		r.stuck = cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 3
		return r
	}
	if json.Unmarshal(out.Bytes(), &r.reply) != nil {
		r.died = true
	}
	return r
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func driver(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	runs := fs.Int("runs", 0, "override the number of runs")
	wall := fs.Float64("wall", 0, "override the wall-clock cap (seconds)")
	tmp := fs.String("tmp", os.TempDir(), "")
	nw := fs.Int("workers", 8, "")
	fs.Parse(args)
	self, _ = os.Executable()
	m := prop.MetaOf(*id)
	if m == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	start := time.Now()
	n := m.Runs[*tier]
	if *runs > 0 {
		n = *runs
	}
	limit := 45.0
	if *tier == "thorough" {
		limit = 700
	}
	if *wall > 0 {
		limit = *wall
	}
	var mu sync.Mutex
	total := &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}}
	hashes, inter := map[uint64]bool{}, map[uint64]bool{}
	var vs []*violation
	trouble := ""
	froms := make([]int, *nw)
	for k := range froms {
		froms[k] = k
	}
	// explore runs the workers until they are done or one of them saw a violation.
	explore := func() {
		var wg sync.WaitGroup
		type proc struct {
			cmd   *exec.Cmd
			out   io.Reader
			errb  *bytes.Buffer
			state string
		}
		var procs []proc
		for k := 0; k < *nw; k++ {
			state := filepath.Join(*tmp, fmt.Sprintf("state-%s-%d", *id, k))
			a := []string{"worker", "-prop", *id, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(froms[k]), "-step", fmt.Sprint(*nw), "-count", fmt.Sprint(n), "-wall", fmt.Sprint(limit - time.Since(start).Seconds()), "-state", state}
			if *tier == "thorough" {
				a = append(a, "-thorough")
			}
			cmd := exec.Command(self, a...)
			cmd.Env = childEnv()
			raceTo(cmd, filepath.Join(*tmp, "race-"+*id))
			out, _ := cmd.StdoutPipe()
			var errb bytes.Buffer
			cmd.Stderr = &limited{b: &errb, n: 20000}
			if err := cmd.Start(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			procs = append(procs, proc{cmd, out, &errb, state})
		}
		for _, pr := range procs {
			cmd, out, errb, state := pr.cmd, pr.out, pr.errb, pr.state
			wg.Add(1)
			go func() {
				defer wg.Done()
				dec := json.NewDecoder(out)
				sawStats := false
				for {
					var msg message
					if err := dec.Decode(&msg); err != nil {
						break
					}
					mu.Lock()
					switch msg.Kind {
					case "violation":
						vs = append(vs, msg.V)
						// one violation is enough: stop the other workers soon
						for _, p := range procs {
							if p.cmd != cmd {
								p.cmd.Process.Signal(os.Interrupt)
							}
						}
					case "stats":
						sawStats = true
						merge(total, msg.S, hashes, inter)
					}
					mu.Unlock()
				}
				io.Copy(io.Discard, out)
				err := cmd.Wait()
				mu.Lock()
				defer mu.Unlock()
				if err != nil && len(vs) == 0 && !sawStats {
					b, _ := os.ReadFile(state)
					idx, perr := strconv.Atoi(strings.TrimSpace(string(b)))
					code := cmd.ProcessState.ExitCode()
					if perr != nil || code == 3 {
						trouble = fmt.Sprintf("worker stuck or failed (exit %d) at run %s: %s", code, strings.TrimSpace(string(b)), tail(errb.String()))
						return
					}
					vs = append(vs, &violation{Case: Case{Prop: *id, Seed: seedOf(*seed, *id, idx), Index: idx, Thorough: *tier == "thorough"},
						Verdict: &sim.Verdict{Class: "process-death", Msg: "the process died: " + tail(errb.String())}})
				}
			}()
		}
		wg.Wait()
		for k, pr := range procs {
			b, _ := os.ReadFile(pr.state)
			if i, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil {
				froms[k] = i + *nw
			} else {
				froms[k] = n
			}
		}
	}
	// A violation counts only if a fresh process shows it again, exactly, from its
	// choices; the search goes on after one that does not.
	path := ""
	lost := []string{}
	for round := 0; ; round++ {
		vs = nil
		explore()
		sort.Slice(vs, func(i, j int) bool { return vs[i].Case.Index < vs[j].Case.Index })
		for i := 0; i < len(vs) && i < 3 && path == ""; i++ {
			if path = report(vs[i], *replays); path == "" {
				lost = append(lost, vs[i].Verdict.Class+": "+vs[i].Verdict.Msg)
			}
		}
		left := false
		for _, f := range froms {
			left = left || f < n
		}
		if path != "" || len(vs) == 0 || trouble != "" || !left || round == 12 || time.Since(start).Seconds() > limit {
			break
		}
	}
	if path == "" && len(lost) > 0 && trouble == "" {
		// What failed may depend on where objects lie in memory: look for a run that
		// fails in a process of its own.
		path = freshSearch(*id, *seed, n, *tier == "thorough", *replays)
	}
	hard := 0
	for _, l := range lost {
		if !strings.HasPrefix(l, "data-race") {
			hard++
		}
	}
	if path == "" && hard > 2 {
		trouble = "violations that no other process shows again: " + lost[0]
	}
	explored := time.Since(start).Seconds()
	// Known findings
	var kn []string
	if b, err := os.ReadFile(*known); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "known: property="+*id+" ") {
				kn = append(kn, strings.TrimPrefix(l, "known: property="+*id+" "))
			}
		}
	}
	for _, l := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, l)
	}
	exit := 0
	// Determinism self-check: the same seeds in a second process give the same logs.
	mismatch, compared := 0, 0
	if path == "" && trouble == "" {
		cnt := 64
		if n < cnt {
			cnt = n
		}
		a, b := logsOf(*id, *seed, cnt, *tier == "thorough"), logsOf(*id, *seed, cnt, *tier == "thorough")
		compared = len(a)
		if len(b) < compared {
			compared = len(b)
		}
		for i := 0; i < compared; i++ {
			if a[i] != b[i] {
				mismatch++
			}
		}
	}
	if path != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
		exit = 1
	}
	for _, l := range lost {
		fmt.Println("not reproduced, not counted:", l)
	}
	// Evidence
	var real, stub []string
	for _, sc := range prop.For(*id) {
		real = append(real, sc.Real)
		stub = append(stub, sc.Stub)
	}
	samples := []any{}
	for i, s := range total.Samples {
		if i < 4 {
			samples = append(samples, s)
		}
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": exit, "not_reproduced": lost,
		"assumptions": append([]string{
			"the simulated primitives (scheduler, locks, channels, atomics, clocks, timers, pools, random sources, files, signals) behave as Go's do",
			"goroutines are switched only at synchronization operations, calls into the simulator and loop steps; data races in between are found by the race detector where the check is race-instrumented",
		}, m.Assume...),
		"coverage": map[string]any{
			"evaluations": total.Runs, "distinct_nontrivial": len(hashes), "rule": m.Rule, "samples": samples,
			"simulated_runs": total.Runs, "runs_per_hour": int(float64(total.Runs) / explored * 3600), "seeds_per_hour": int(float64(total.Runs) / explored * 3600),
			"simulated_seconds":      total.SimNs / 1e9,
			"scheduling_steps":       total.Steps,
			"preemptions":            total.Preempts,
			"distinct_interleavings": len(inter), "interleaving_measure": "distinct hashes of the sequence of (task, operation) pairs at all scheduling points of a run",
			"faults_injected": total.Faults, "probes": total.Probes, "runs_by_scenario": total.Scenarios,
			"determinism_check":  map[string]int{"runs_repeated_in_second_process": compared, "different": mismatch},
			"components_real":    real,
			"components_stubbed": stub,
			"race_instrumented":  sim.RaceBuild,
		},
	}
	if *evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial, %d interleavings), %.1fs simulated, %d steps in %.1fs; faults %v; nondeterministic %d/%d\n", *id, *tier, total.Runs, len(hashes), len(inter),
		total.SimNs/1e9, total.Steps, explored, total.Faults, mismatch, compared)
	if len(total.Probes) > 0 {
		fmt.Printf("  probes %v\n", total.Probes)
	}
	if exit == 0 && trouble != "" {
		fmt.Fprintln(os.Stderr, "TROUBLE:", trouble)
		exit = 2
	}
	if exit == 0 && total.Runs == 0 {
		exit = 2
	}
	os.Exit(exit)
}

func tail(s string) string {
	s = strings.TrimSpace(s)
	l := strings.Split(s, "\n")
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, "\n")
}

func merge(t, s *Stats, hashes, inter map[uint64]bool) {
	t.Runs += s.Runs
	t.Nontrivial += s.Nontrivial
	t.Steps += s.Steps
	t.Preempts += s.Preempts
	t.SimNs += s.SimNs
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Scenarios {
		t.Scenarios[k] += v
	}
	for _, h := range s.Hashes {
		hashes[h] = true
	}
	for _, h := range s.Inter {
		inter[h] = true
	}
	t.Samples = append(t.Samples, s.Samples...)
}

func logsOf(id string, seed uint64, n int, thorough bool) []uint64 {
	a := []string{"worker", "-logs", "-prop", id, "-seed", fmt.Sprint(seed), "-from", "0", "-step", "1", "-count", fmt.Sprint(n), "-wall", "20"}
	if thorough {
		a = append(a, "-thorough")
	}
	cmd := exec.Command(self, a...)
	cmd.Env = childEnv()
	if d, err := os.MkdirTemp("", "simrun"); err == nil {
		defer os.RemoveAll(d)
		raceTo(cmd, filepath.Join(d, "race"))
	}
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	var m message
	json.Unmarshal(out, &m)
	return m.Logs
}

// report confirms, minimizes and writes a violation; it returns the replay path.
// freshSearch executes the first runs in one fresh process each.
func freshSearch(id string, seed uint64, n int, thorough bool, dir string) string {
	deadline := time.Now().Add(25 * time.Second)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var found *violation
	next := 0
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := found != nil || i >= n || i >= 1000 || time.Now().After(deadline)
				mu.Unlock()
				if stop {
					return
				}
				c := Case{Prop: id, Seed: seedOf(seed, id, i), Index: i, Thorough: thorough}
				r := execChild(&c, false)
				if r.died || r.Outcome == nil || r.Outcome.Verdict == nil {
					continue
				}
				mu.Lock()
				if found == nil || i < found.Case.Index {
					found = &violation{Case: c, Verdict: r.Outcome.Verdict}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if found == nil {
		return ""
	}
	return report(found, dir)
}

func report(v *violation, dir string) string {
	deadline := time.Now().Add(90 * time.Second)
	c := v.Case
	class := v.Verdict.Class
	fails := func(r execResult) (string, bool) {
		if r.stuck {
			return "", false
		}
		if r.died {
			return "process-death", true
		}
		if r.Outcome != nil && r.Outcome.Verdict != nil {
			return r.Outcome.Verdict.Class, true
		}
		return "", false
	}
	// confirm in a fresh process
	r := execChild(&c, false)
	cl, ok := fails(r)
	exact := ok && cl == class
	if !ok && c.Recorded {
		// a run that depends on more than the recorded choices: try again from its seed
		for i := 0; i < 6 && !ok; i++ {
			c2 := Case{Prop: c.Prop, Seed: c.Seed, Index: c.Index, Thorough: c.Thorough}
			if i%2 == 1 {
				c2 = c
			}
			r = execChild(&c2, false)
			if cl, ok = fails(r); ok {
				c = c2
			}
		}
	}
	if !ok {
		return ""
	}
	class = cl
	rf := ReplayFile{Case: c}
	best := r
	if !r.died && exact {
		if !c.Recorded {
			c.Recorded, c.Workload, c.Schedule, c.Faults = true, r.W, r.S, r.F
		}
		rf.Original.Workload, rf.Original.Schedule, rf.Original.Faults = len(r.W), len(r.S), len(r.F)
		min := &minimizer{class: class, deadline: deadline, best: r, c: c}
		min.run()
		c, best = min.c, min.best
	}
	rf.Case = c
	final := execChild(&c, true)
	rf.Race = final.race
	if cl, ok := fails(final); ok && !final.died {
		best = final
		_ = cl
	}
	second := execChild(&c, false)
	if cl2, ok2 := fails(second); ok2 && cl2 == class && (second.died || final.died || second.Outcome.LogHash == final.Outcome.LogHash) {
		rf.Deterministic = true
	}
	if best.Outcome != nil && best.Outcome.Verdict != nil {
		rf.Verdict = *best.Outcome.Verdict
		rf.LogHash = best.Outcome.LogHash
		rf.Desc = best.Outcome.Desc
		rf.Trace = best.Outcome.Trace
		rf.Scenario = best.Outcome.Scenario
	} else {
		rf.Verdict = *v.Verdict
	}
	if len(rf.Trace) > 600 {
		rf.Trace = append(rf.Trace[:300:300], rf.Trace[len(rf.Trace)-300:]...)
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, c.Index))
	b, _ := json.MarshalIndent(rf, "", " ")
	if os.WriteFile(path, append(b, '\n'), 0o644) != nil {
		return ""
	}
	fmt.Printf("violated: %s: %s\n", rf.Verdict.Class, rf.Verdict.Msg)
	for _, d := range rf.Desc {
		fmt.Println("  case:", d)
	}
	t := rf.Trace
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	for _, l := range t {
		fmt.Println("  " + l)
	}
	for i, l := range rf.Race {
		if i < 24 {
			fmt.Println("  race: " + l)
		}
	}
	return path
}
