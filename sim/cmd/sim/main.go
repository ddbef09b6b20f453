// Command sim runs the deterministic simulation.
//
//	sim check -prop C01 -tier quick -seed 1 ...   explore, minimise, report (driver)
//	sim worker ...                                one session of runs (child of check)
//	sim exec                                      run plans given on stdin (child of check)
//	sim replay FILE                               repeat a recorded violation
//	sim trace -prop C01 -seed N                   print the log of one generated run
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"

	"verifsim/core"
	"verifsim/simrt"
)

func init() {
	core.EntQLBool = os.Getenv("SIM_ENTQL_BOOL") == "1"
	core.NotBetweenAnd = os.Getenv("SIM_NOT_BETWEEN_AND") == "1"
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim check|worker|exec|replay|trace")
	}
	args := os.Args[2:]
	if os.Args[1] != "check" && os.Args[1] != "replay" {
		if core.RaceBuild {
			runtime.GOMAXPROCS(8) // a parked task keeps its thread
		} else {
			runtime.GOMAXPROCS(1)
		}
		debug.SetGCPercent(400)
	}
	switch os.Args[1] {
	case "check":
		checkMain(args)
	case "worker":
		workerMain(args)
	case "exec":
		execMain()
	case "replay":
		replayMain(args)
	case "trace":
		traceMain(args)
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

// planProp names the generator of the runs of a build.
func planProp(prop string, race bool) string {
	if race {
		return prop + "race"
	}
	return prop
}

// Found is a violation found by a worker.
type Found struct {
	Session int              `json:"session"`
	Index   int              `json:"index"`
	Plan    *core.Plan       `json:"plan"`
	V       core.Violation   `json:"v"`
	Sched   []simrt.Decision `json:"sched"`
}

// Summary is the result of a session.
type Summary struct {
	Session    int              `json:"session"`
	Runs       int              `json:"runs"`
	Ops        int              `json:"ops"`
	Stmts      int              `json:"stmts"`
	Nontrivial int              `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Blocks     int64            `json:"blocks"`
	SimNS      int64            `json:"sim_ns"`
	FaultRuns  int              `json:"fault_runs"`
	Counts     map[string]int   `json:"counts"`
	Keys       []uint64         `json:"keys"`
	Scheds     []uint64         `json:"scheds"`
	Hash       uint64           `json:"hash"`
	Hashes     []uint64         `json:"hashes,omitempty"`
	HarnessErr string           `json:"harness_err,omitempty"`
	Found      []Found          `json:"found,omitempty"`
	Samples    []map[string]any `json:"samples,omitempty"`
	Clients    map[string]int   `json:"clients"`
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	session := fs.Int("session", 0, "")
	runs := fs.Int("runs", 100, "")
	from := fs.Int("from", 0, "")
	deep := fs.Bool("deep", false, "")
	hashes := fs.Bool("hashes", false, "")
	maxFound := fs.Int("max-found", 3, "")
	fs.Parse(args)
	out := bufio.NewWriter(os.Stdout)
	s := &Summary{Session: *session, Counts: map[string]int{}, Clients: map[string]int{}}
	keys, scheds := map[uint64]bool{}, map[uint64]bool{}
	classes := map[string]int{}
	for i := *from; i < *runs; i++ {
		fmt.Fprintf(out, "run %d\n", i)
		out.Flush()
		p := core.SessionPlan(planProp(*prop, core.RaceBuild), *base, *prop, *session, i, *deep)
		r := core.Execute(p, false)
		s.Runs++
		s.Ops += r.Ops
		s.Stmts += r.Stmts
		s.Nontrivial += r.Nontrivial
		s.Steps += r.Steps
		s.Switches += r.Switches
		s.Blocks += r.Blocks
		s.SimNS += r.SimNS
		if p.Profile == "faults" {
			s.FaultRuns++
		}
		s.Clients[fmt.Sprint(len(p.Clients))]++
		for k, v := range r.Counts {
			s.Counts[k] += v
		}
		for _, k := range r.Keys {
			keys[k] = true
		}
		if r.Switches > 0 {
			scheds[r.SchedHash^p.Seed] = true
		}
		s.Hash = (s.Hash ^ r.Hash) * 0x100000001b3
		if *hashes {
			s.Hashes = append(s.Hashes, r.Hash)
		}
		if i < 2 && *session < 3 {
			s.Samples = append(s.Samples, map[string]any{"session": *session, "run": i, "seed": p.Seed, "plan": p, "ops": r.Ops, "steps": r.Steps, "switches": r.Switches, "statements": r.Stmts, "counts": r.Counts})
		}
		if r.HarnessErr != "" {
			s.HarnessErr = fmt.Sprintf("session %d run %d: %s", *session, i, r.HarnessErr)
			break
		}
		for _, v := range r.Violations {
			if v.Has(*prop) && classes[v.Class] < *maxFound {
				classes[v.Class]++
				s.Found = append(s.Found, Found{*session, i, p, v, r.Decisions})
				break
			}
		}
		if r.Deadlock {
			break // the process keeps abandoned goroutines
		}
	}
	for k := range keys {
		s.Keys = append(s.Keys, k)
	}
	for k := range scheds {
		s.Scheds = append(s.Scheds, k)
	}
	b, err := json.Marshal(s)
	if err != nil {
		fatal("%v", err)
	}
	fmt.Fprintf(out, "summary %s\n", b)
	out.Flush()
}

// Exec is a request to run plans one after the other in one fresh process.
type Exec struct {
	Prop  string       `json:"prop"`
	Plans []*core.Plan `json:"plans"`
	Log   bool         `json:"log"`
}

// ExecResult is the outcome of the last plan.
type ExecResult struct {
	Result *core.Result     `json:"result"`
	Sched  []simrt.Decision `json:"sched"`
	Log    []string         `json:"log"`
}

func runPlans(plans []*core.Plan, log bool) (*ExecResult, error) {
	var last *core.Result
	for i, p := range plans {
		last = core.Execute(p, log && i == len(plans)-1)
		if last.HarnessErr != "" {
			return nil, fmt.Errorf("%s", last.HarnessErr)
		}
		if last.Deadlock && i < len(plans)-1 {
			return nil, fmt.Errorf("deadlock in plan %d", i)
		}
	}
	return &ExecResult{Result: last, Sched: last.Decisions, Log: last.Log}, nil
}

func execMain() {
	var e Exec
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&e); err != nil {
		fatal("exec: %v", err)
	}
	r, err := runPlans(e.Plans, e.Log)
	if err != nil {
		fatal("exec: %v", err)
	}
	if err := json.NewEncoder(os.Stdout).Encode(r); err != nil {
		fatal("exec: %v", err)
	}
}

func traceMain(args []string) {
	fs := flag.NewFlagSet("trace", flag.ExitOnError)
	prop := fs.String("prop", "C02", "")
	base := fs.Uint64("base", 1, "")
	session := fs.Int("session", 0, "")
	run := fs.Int("run", 0, "")
	seed := fs.Uint64("seed", 0, "")
	deep := fs.Bool("deep", false, "")
	fs.Parse(args)
	p := core.SessionPlan(planProp(*prop, core.RaceBuild), *base, *prop, *session, *run, *deep)
	if *seed != 0 {
		p = core.MakePlan(planProp(*prop, core.RaceBuild), *seed, *deep)
	}
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	r := core.Execute(p, true)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	b, _ = json.Marshal(r)
	fmt.Println(string(b))
}
