// Command simrun explores, replays and minimizes simulated runs.
//
//	simrun check -prop C01 -tier quick -seed 1 ...   drive workers, write evidence
//	simrun worker ...                                 explore a share of the seeds
//	simrun replay FILE                                re-execute a recorded run
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"sort"
	"syscall"
	"time"

	"verif/prop"
	"verif/sim"
)

// Case identifies one run: by seed, or by its recorded choices.
type Case struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Thorough bool     `json:"thorough,omitempty"`
	Recorded bool     `json:"recorded"`
	Workload []uint32 `json:"workload,omitempty"`
	Schedule []uint32 `json:"schedule,omitempty"`
	Faults   []uint32 `json:"faults,omitempty"`
}

// Outcome of executing a case.
type Outcome struct {
	Verdict    *sim.Verdict   `json:"verdict,omitempty"`
	Steps      int            `json:"steps"`
	Preempts   int            `json:"preempts"`
	SimTime    int64          `json:"sim_ns"`
	FP         uint64         `json:"fp"`
	LogHash    uint64         `json:"log_hash"`
	Faults     map[string]int `json:"fault_counts,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Desc       []string       `json:"desc,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
	Scenario   string         `json:"scenario"`
	W, S, F    []uint32       `json:"-"`
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func seedOf(base uint64, propID string, idx int) uint64 {
	return sim.Mix(sim.Mix(base^hashStr(propID)) + uint64(idx))
}

func execute(c *Case, tracing bool) *Outcome {
	var w, s, f *sim.Stream
	if c.Recorded {
		w, s, f = sim.ReplayStream(c.Workload), sim.ReplayStream(c.Schedule), sim.ReplayStream(c.Faults)
	} else {
		w, s, f = sim.GenStream(sim.Mix(c.Seed)), sim.GenStream(sim.Mix(c.Seed+1)), sim.GenStream(sim.Mix(c.Seed+2))
	}
	scs := prop.For(c.Prop)
	e := &prop.Env{Prop: c.Prop, W: w, Thorough: c.Thorough}
	tot := 0
	for _, x := range scs {
		tot += x.Weight
	}
	k := w.Int(tot)
	var sc *prop.Scenario
	for _, x := range scs {
		if k < x.Weight {
			sc = x
			break
		}
		k -= x.Weight
	}
	e.Size = w.Int(101)
	if !c.Thorough && e.Size > 60 {
		e.Size = 60
	}
	cfg := e.Config(sc)
	r := sim.Run(cfg, s, f, tracing, func() {
		sim.ResetAll()
		sc.Run(e)
	})
	return &Outcome{Verdict: r.Verdict, Steps: r.Steps, Preempts: r.Preempts, SimTime: r.SimTime, FP: r.FP, LogHash: r.LogHash, Faults: r.Faults, Probes: r.Probes,
		Trace: r.Trace, Desc: append([]string{fmt.Sprintf("scenario=%s strategy=%d stepcost=%dns faultp=%d pool=%d", sc.Name, cfg.Strategy, cfg.StepCost, cfg.FaultP, cfg.PoolMode)}, e.Desc()...), Nontrivial: e.Nontrivial,
		Scenario: sc.Name, W: w.Vals(), S: s.Vals(), F: f.Vals()}
}

// answers is where a worker reports; what the code under test prints goes nowhere.
var answers = os.Stdout

func quiet() {
	fd, err := syscall.Dup(1)
	null, err2 := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil || err2 != nil {
		return
	}
	syscall.CloseOnExec(fd)
	answers = os.NewFile(uintptr(fd), "answers")
	syscall.Dup2(int(null.Fd()), 1)
	os.Stdout, os.Stderr = null, null
}

func main() {
	log.SetOutput(io.Discard)
	time.Local = time.FixedZone("SIM", 9*3600)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun check|worker|replay|exec ...")
		os.Exit(2)
	}
	if os.Args[1] != "check" && os.Args[1] != "replay" {
		quiet()
	}
	switch os.Args[1] {
	case "check":
		driver(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "exec": // execute one case given on stdin, print the outcome
		var c Case
		if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		watchdog("exec")
		o := execute(&c, len(os.Args) > 2)
		json.NewEncoder(answers).Encode(reply{Outcome: o, W: o.W, S: o.S, F: o.F})
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		quiet := fs.Bool("quiet", false, "no trace")
		fs.Parse(os.Args[2:])
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		watchdog("replay")
		o := execute(&rf.Case, true)
		for _, d := range o.Desc {
			fmt.Println("case:", d)
		}
		if !*quiet {
			for _, t := range o.Trace {
				fmt.Println(t)
			}
		}
		if o.Verdict == nil {
			fmt.Println("replay: no violation")
			os.Exit(0)
		}
		fmt.Printf("replay: %s: %s\n", o.Verdict.Class, o.Verdict.Msg)
		same := o.Verdict.Class == rf.Verdict.Class && (o.LogHash == rf.LogHash || rf.LogHash == 0)
		fmt.Println("replay: same execution as recorded:", same)
		os.Exit(1)
	case "list":
		for _, m := range prop.Metas() {
			fmt.Println(m.ID, m.Race, m.Runs["quick"], m.Runs["thorough"])
		}
	default:
		os.Exit(2)
	}
}

type reply struct {
	Outcome *Outcome `json:"o"`
	W       []uint32 `json:"w"`
	S       []uint32 `json:"s"`
	F       []uint32 `json:"f"`
}

// watchdog ends the process when nothing moves for a long time (a blocking
// operation the simulator does not know about).
func watchdog(what string) {
	go func() {
		last, n := int64(-1), 0
		for {
			time.Sleep(time.Second)
			p := sim.Progress.Load()
			if p != last {
				last, n = p, 0
				continue
			}
			if n++; n > 45 {
				fmt.Fprintf(os.Stderr, "simrun %s: no progress for 45s; blocked outside the simulator\n", what)
				os.Exit(3)
			}
		}
	}()
}

// Stats accumulates what a worker explored.
type Stats struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	Preempts   int64          `json:"preempts"`
	SimNs      float64        `json:"sim_ns"`
	Faults     map[string]int `json:"faults"`
	Probes     map[string]int `json:"probes"`
	Scenarios  map[string]int `json:"scenarios"`
	Hashes     []uint64       `json:"hashes"`
	Inter      []uint64       `json:"inter"`
	Samples    []Sample       `json:"samples"`
	LogSum     uint64         `json:"log_sum"`
}

type Sample struct {
	Seed     uint64         `json:"seed"`
	Case     []string       `json:"case"`
	Steps    int            `json:"steps"`
	SimNs    int64          `json:"sim_ns"`
	Faults   map[string]int `json:"faults,omitempty"`
	LastLogs []string       `json:"events,omitempty"`
}

type violation struct {
	Case    Case         `json:"case"`
	Verdict *sim.Verdict `json:"verdict"`
	LogHash uint64       `json:"log_hash"`
}

type message struct {
	Kind string     `json:"kind"` // violation, stats, logs
	V    *violation `json:"v,omitempty"`
	S    *Stats     `json:"s,omitempty"`
	Logs []uint64   `json:"logs,omitempty"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	count := fs.Int("count", 1, "total number of runs (over all workers)")
	wall := fs.Float64("wall", 60, "seconds")
	thorough := fs.Bool("thorough", false, "")
	state := fs.String("state", "", "file that names the run in progress")
	logs := fs.Bool("logs", false, "only report the log hash of each run")
	fs.Parse(args)
	watchdog("worker")
	var sf *os.File
	if *state != "" {
		sf, _ = os.Create(*state)
	}
	enc := json.NewEncoder(answers)
	st := &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]int{}}
	hs := map[uint64]bool{}
	inter := map[uint64]bool{}
	var lh []uint64
	start := time.Now()
	stop := make(chan os.Signal, 1)
	signal.Notify(stop, os.Interrupt)
	for i := *from; i < *count; i += *step {
		if len(stop) > 0 || time.Since(start).Seconds() > *wall {
			break
		}
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		c := &Case{Prop: *id, Seed: seedOf(*seed, *id, i), Index: i, Thorough: *thorough}
		sampling := !*logs && len(st.Samples) < 2 && i >= *step*3
		o := execute(c, sampling)
		if *logs {
			lh = append(lh, o.LogHash^o.FP)
			continue
		}
		st.Runs++
		st.Steps += int64(o.Steps)
		st.Preempts += int64(o.Preempts)
		st.SimNs += float64(o.SimTime)
		for k, v := range o.Faults {
			st.Faults[k] += v
		}
		for k, v := range o.Probes {
			st.Probes[k] += v
		}
		st.Scenarios[o.Scenario]++
		h := o.FP
		inter[h] = true
		for _, v := range o.W {
			h = (h ^ uint64(v)) * 1099511628211
		}
		for _, v := range o.F {
			h = (h ^ uint64(v)) * 1099511628211
		}
		if o.Nontrivial {
			st.Nontrivial++
			hs[h] = true
			if sampling {
				t := o.Trace
				if len(t) > 40 {
					t = append(append([]string{}, t[:20]...), append([]string{fmt.Sprintf("... %d events ...", len(t)-40)}, t[len(t)-20:]...)...)
				}
				st.Samples = append(st.Samples, Sample{Seed: c.Seed, Case: o.Desc, Steps: o.Steps, SimNs: o.SimTime, Faults: o.Faults, LastLogs: t})
			}
		}
		if o.Verdict != nil {
			c.Recorded, c.Scenario = true, o.Scenario
			c.Workload, c.Schedule, c.Faults = o.W, o.S, o.F
			enc.Encode(message{Kind: "violation", V: &violation{Case: *c, Verdict: o.Verdict, LogHash: o.LogHash}})
			break
		}
	}
	if *logs {
		enc.Encode(message{Kind: "logs", Logs: lh})
		return
	}
	for h := range hs {
		st.Hashes = append(st.Hashes, h)
	}
	for h := range inter {
		st.Inter = append(st.Inter, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	enc.Encode(message{Kind: "stats", S: st})
}
