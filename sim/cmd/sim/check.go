package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/core"
)

type checker struct {
	prop, tier, evidence, known, raceBin string
	seed                                 uint64
	sessions, runs, workers              int
	budget                               time.Duration
	deep                                 bool
	start                                time.Time
	env                                  []string
	printed                              map[string]bool
	discarded                            map[string]int
	execs                                int
	mu                                   sync.Mutex
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	d := &checker{start: time.Now(), printed: map[string]bool{}, discarded: map[string]int{}}
	fs.StringVar(&d.prop, "prop", "", "")
	fs.StringVar(&d.tier, "tier", "quick", "")
	fs.Uint64Var(&d.seed, "seed", 1, "")
	fs.StringVar(&d.evidence, "evidence", "", "")
	fs.StringVar(&d.known, "known", "", "")
	fs.StringVar(&d.raceBin, "race", "", "")
	fs.IntVar(&d.sessions, "sessions", 0, "")
	fs.IntVar(&d.runs, "runs", 0, "")
	fs.IntVar(&d.workers, "workers", 8, "")
	fs.DurationVar(&d.budget, "budget", 0, "")
	fs.Parse(args)
	d.deep = d.tier == "thorough"
	if d.runs == 0 {
		d.runs = 150
	}
	if d.budget == 0 {
		d.budget = 50 * time.Second
		if d.deep {
			d.budget = 420 * time.Second
		}
	}
	if d.sessions == 0 {
		d.sessions = 400
		if d.deep {
			d.sessions = 100000
		}
	}
	d.env = workerEnv()
	code := d.run()
	os.Exit(code)
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

type sessionResult struct {
	sum   *Summary
	crash *crash
	err   error
}

// crash is the death of a worker process.
type crash struct {
	session, index int
	msg            string
}

func (d *checker) command(ctx context.Context, bin string, args ...string) *exec.Cmd {
	c := exec.CommandContext(ctx, bin, args...)
	c.Env = d.env
	if bin == d.raceBin {
		// the detector appends the process id; reports are read by the child itself
		c.Env = append(append([]string(nil), d.env...), raceEnv(filepath.Dir(bin))...)
	}
	return c
}

func raceEnv(dir string) []string {
	log := filepath.Join(dir, "race")
	return []string{"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path=" + log, "SIM_RACE_LOG=" + log}
}

func (d *checker) session(bin string, n int, timeout time.Duration) sessionResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args := []string{"worker", "-prop", d.prop, "-base", fmt.Sprint(d.seed), "-session", fmt.Sprint(n), "-runs", fmt.Sprint(d.runs)}
	if d.deep {
		args = append(args, "-deep")
	}
	c := d.command(ctx, bin, args...)
	var errb bytes.Buffer
	c.Stderr = &errb
	pipe, err := c.StdoutPipe()
	if err != nil {
		return sessionResult{err: err}
	}
	if err := c.Start(); err != nil {
		return sessionResult{err: err}
	}
	r := bufio.NewReaderSize(pipe, 1<<20)
	last := -1
	var sum *Summary
	for {
		line, err := r.ReadString('\n')
		if strings.HasPrefix(line, "run ") {
			fmt.Sscanf(line, "run %d", &last)
		} else if strings.HasPrefix(line, "summary ") {
			sum = &Summary{}
			if e := json.Unmarshal([]byte(line[8:]), sum); e != nil {
				return sessionResult{err: e}
			}
		}
		if err != nil {
			break
		}
	}
	err = c.Wait()
	if ctx.Err() != nil {
		return sessionResult{err: fmt.Errorf("session %d timed out in run %d", n, last)}
	}
	if sum == nil || err != nil {
		return sessionResult{crash: &crash{n, last, tailOf(errb.String(), 3000)}}
	}
	return sessionResult{sum: sum}
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// total is the merged outcome of all sessions.
type total struct {
	Summary
	keys, scheds map[uint64]bool
	sessions     int
	samples      []map[string]any
	found        []Found
	crash        *crash
	err          error
	wall         time.Duration
}

func (t *total) merge(s *Summary) {
	t.sessions++
	t.Runs += s.Runs
	t.Ops += s.Ops
	t.Stmts += s.Stmts
	t.Nontrivial += s.Nontrivial
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Blocks += s.Blocks
	t.SimNS += s.SimNS
	t.FaultRuns += s.FaultRuns
	for k, v := range s.Counts {
		t.Counts[k] += v
	}
	for k, v := range s.Clients {
		t.Clients[k] += v
	}
	for _, k := range s.Keys {
		t.keys[k] = true
	}
	for _, k := range s.Scheds {
		t.scheds[k] = true
	}
	if len(t.samples) < 6 {
		t.samples = append(t.samples, s.Samples...)
	}
	t.found = append(t.found, s.Found...)
}

func newTotal() *total {
	t := &total{keys: map[uint64]bool{}, scheds: map[uint64]bool{}}
	t.Counts, t.Clients = map[string]int{}, map[string]int{}
	return t
}

// explore runs sessions first..first+n-1 until the deadline or until something is
// found; the sessions already running are finished so that the lowest one wins.
func (d *checker) explore(bin string, first, n int, deadline time.Time) (*total, int) {
	t := newTotal()
	begin := time.Now()
	var mu sync.Mutex
	next := first
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < d.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= first+n || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				s := next
				next++
				mu.Unlock()
				r := d.session(bin, s, 240*time.Second)
				mu.Lock()
				switch {
				case r.err != nil:
					stop = true
					if t.err == nil {
						t.err = r.err
					}
				case r.crash != nil:
					stop = true
					if t.crash == nil || r.crash.session < t.crash.session {
						t.crash = r.crash
					}
				default:
					if r.sum.HarnessErr != "" {
						stop = true
						if t.err == nil {
							t.err = fmt.Errorf("%s", r.sum.HarnessErr)
						}
					}
					if len(r.sum.Found) > 0 {
						stop = true
					}
					t.merge(r.sum)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	t.wall = time.Since(begin)
	sort.Slice(t.found, func(i, j int) bool {
		a, b := t.found[i], t.found[j]
		if a.Session != b.Session {
			return a.Session < b.Session
		}
		return a.Index < b.Index
	})
	return t, next
}

// Replay is a recorded violation.
type Replay struct {
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`
	Session  int            `json:"session"`
	Index    int            `json:"run"`
	Expect   core.Violation `json:"expect"`
	History  bool           `json:"history"` // earlier plans are needed in the same process
	Minimal  bool           `json:"minimised"`
	Trace    []string       `json:"trace"`
	Plans    []*core.Plan   `json:"plans"`
	Crash    string         `json:"crash,omitempty"`
	Race     bool           `json:"race,omitempty"`
}

// exec runs plans in a fresh process. crashed reports the death of the process.
func (d *checker) exec(bin string, plans []*core.Plan, log bool) (res *ExecResult, crashed string, err error) {
	d.mu.Lock()
	d.execs++
	d.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := d.command(ctx, bin, "exec")
	in, err := json.Marshal(Exec{Prop: d.prop, Plans: plans, Log: log})
	if err != nil {
		return nil, "", err
	}
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	e := c.Run()
	if ctx.Err() != nil {
		return nil, "", fmt.Errorf("exec timed out")
	}
	if e != nil {
		if x, ok := e.(*exec.ExitError); ok && strings.HasPrefix(errb.String(), "sim: ") && x.ExitCode() == 2 {
			return nil, "", fmt.Errorf("%s", strings.TrimSpace(errb.String()))
		}
		return nil, tailOf(errb.String(), 2000), nil
	}
	var r ExecResult
	if e := json.NewDecoder(&out).Decode(&r); e != nil && e != io.EOF {
		return nil, "", e
	}
	return &r, "", nil
}

func (d *checker) run() int {
	known, code := d.probe()
	if code != 0 {
		return code
	}
	deadline := d.start.Add(d.budget)
	all := newTotal()
	first, raceFirst := 0, 0
	raceT := newTotal()
	useRace := d.raceBin != ""
	for {
		end := deadline
		n := d.sessions - first
		if useRace {
			// alternate: a part of the budget belongs to the race-detecting build
			n = min(n, 40)
		}
		t, next := d.explore(self(), first, n, end)
		first = next
		mergeTotals(all, t)
		if code := d.settle(self(), t, all, raceT); code != 0 {
			return code
		}
		if useRace && time.Now().Before(deadline) {
			t, next := d.explore(d.raceBin, raceFirst, 16, deadline)
			raceFirst = next
			mergeTotals(raceT, t)
			if code := d.settle(d.raceBin, t, all, raceT); code != 0 {
				return code
			}
		}
		if first >= d.sessions || time.Now().After(deadline) {
			break
		}
	}
	_ = known
	d.writeEvidence(all, raceT, 0)
	fmt.Printf("property %s held: %d runs in %d sessions, %d operations, %d statements, %d switches, %d discarded (other property)\n", d.prop, all.Runs+raceT.Runs, all.sessions+raceT.sessions, all.Ops+raceT.Ops, all.Stmts, all.Switches+raceT.Switches, sum(d.discarded))
	return 0
}

// settle reports the first finding that repeats and belongs to the property. A
// finding that does not repeat, and any other trouble, is an error of the check
// unless another finding does repeat.
func (d *checker) settle(bin string, t, all, raceT *total) int {
	bad := t.err
	for _, f := range t.found {
		rep, err := d.confirm(bin, f)
		if err != nil {
			if bad == nil {
				bad = err
			}
			continue
		}
		if rep != nil {
			return d.report(all, raceT, rep)
		}
	}
	if t.crash != nil {
		if rep := d.confirmCrash(bin, t.crash); rep != nil {
			return d.report(all, raceT, rep)
		}
		if bad == nil {
			bad = fmt.Errorf("worker died in session %d run %d and the crash does not repeat:\n%s", t.crash.session, t.crash.index, t.crash.msg)
		}
	}
	if bad == nil {
		return 0
	}
	if bin == d.raceBin {
		bad = fmt.Errorf("race build: %w", bad)
	}
	fmt.Fprintf(os.Stderr, "sim: %v\n", bad)
	d.writeEvidence(all, raceT, 0)
	return 2
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func mergeTotals(a, t *total) {
	n := a.sessions
	s := t.Summary
	for k := range t.keys {
		s.Keys = append(s.Keys, k)
	}
	for k := range t.scheds {
		s.Scheds = append(s.Scheds, k)
	}
	s.Samples = t.samples
	a.merge(&s)
	a.sessions = n + t.sessions
	a.wall += t.wall
}

// confirm repeats a finding in fresh processes, decides whether it belongs to the
// property, and minimises it. nil means it does not belong.
func (d *checker) confirm(bin string, f Found) (*Replay, error) {
	m := &minimiser{d: d, bin: bin, v: f.V, deadline: time.Now().Add(100 * time.Second)}
	plans := []*core.Plan{f.Plan}
	ok, err := m.try(plans)
	if err != nil {
		return nil, err
	}
	rep := &Replay{Property: d.prop, Seed: d.seed, Session: f.Session, Index: f.Index, Race: bin == d.raceBin}
	if !ok {
		// needs what earlier runs left behind in the process
		plans = nil
		for i := 0; i <= f.Index; i++ {
			plans = append(plans, core.SessionPlan(planProp(d.prop, rep.Race), d.seed, d.prop, f.Session, i, d.deep))
		}
		ok, err = m.try(plans)
		if err != nil {
			return nil, err
		}
		if !ok {
			return nil, fmt.Errorf("violation of session %d run %d does not repeat: %s", f.Session, f.Index, f.V.Msg)
		}
		rep.History = true
	} else {
		mine, err := d.attribute(bin, f.Plan, m.v)
		if err != nil {
			return nil, err
		}
		if !mine {
			d.discarded[f.V.Class]++
			return nil, nil
		}
		m.keepMine = true
	}
	plans, err = m.minimise(plans)
	if err != nil {
		return nil, err
	}
	return d.finishReplay(bin, rep, plans, m)
}

func (d *checker) finishReplay(bin string, rep *Replay, plans []*core.Plan, m *minimiser) (*Replay, error) {
	r1, crashed, err := d.exec(bin, plans, true)
	if err != nil {
		return nil, err
	}
	if crashed != "" {
		return nil, fmt.Errorf("minimised plan crashes: %s", crashed)
	}
	v := m.pick(r1.Result)
	if v == nil {
		return nil, fmt.Errorf("minimised plan does not repeat")
	}
	r2, _, err := d.exec(bin, plans, true)
	if err != nil {
		return nil, err
	}
	if r2 == nil || r1.Result.Hash != r2.Result.Hash || strings.Join(r1.Log, "\n") != strings.Join(r2.Log, "\n") {
		return nil, fmt.Errorf("minimised plan is not deterministic")
	}
	rep.Plans, rep.Expect, rep.Trace, rep.Minimal = plans, *v, clipLog(r1.Log), true
	return rep, nil
}

func clipLog(l []string) []string {
	var out []string
	for _, s := range l {
		if len(s) > 2000 {
			s = s[:2000] + "…"
		}
		out = append(out, s)
	}
	return out
}

// confirmCrash repeats the death of a worker.
func (d *checker) confirmCrash(bin string, c *crash) *Replay {
	if c.index < 0 {
		return nil
	}
	race := bin == d.raceBin
	p := core.SessionPlan(planProp(d.prop, race), d.seed, d.prop, c.session, c.index, d.deep)
	m := &minimiser{d: d, bin: bin, crash: true, deadline: time.Now().Add(60 * time.Second)}
	ok, err := m.try([]*core.Plan{p})
	if err != nil || !ok {
		return nil
	}
	if ok2, _ := m.try([]*core.Plan{p}); !ok2 {
		return nil
	}
	plans, err := m.minimise([]*core.Plan{p})
	if err != nil {
		plans = []*core.Plan{p}
	}
	_, msg, _ := d.exec(bin, plans, false)
	return &Replay{Property: d.prop, Seed: d.seed, Session: c.session, Index: c.index, Plans: plans, Crash: msg, Minimal: err == nil, Race: race,
		Expect: core.Violation{Props: []string{"*"}, Class: "crash", Msg: "the process died: " + firstLine(msg)}}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (d *checker) report(all, raceT *total, rep *Replay) int {
	dir := filepath.Join(filepath.Dir(d.evidence), "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-s%d-r%d.json", d.prop, d.seed, rep.Session, rep.Index))
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	d.writeEvidence(all, raceT, 1)
	fmt.Printf("%s: %s\n", rep.Expect.Class, rep.Expect.Msg)
	for _, p := range rep.Plans {
		n, dec := 0, 0
		for _, c := range p.Clients {
			n += len(c.Ops)
		}
		if p.Schedule != nil {
			dec = len(*p.Schedule)
		}
		fmt.Printf("minimised run: %d clients, %d operations, %d schedule decisions, %d faults\n", len(p.Clients), n, dec, countFaults(p))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
	return 1
}

func countFaults(p *core.Plan) int {
	n := 0
	var walk func(l []core.Op)
	walk = func(l []core.Op) {
		for i := range l {
			n += len(l[i].Faults)
			if l[i].FailAt > 0 {
				n++
			}
			walk(l[i].Sub)
		}
	}
	for _, c := range p.Clients {
		walk(c.Ops)
	}
	return n
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	d := &checker{printed: map[string]bool{}, discarded: map[string]int{}}
	fs.StringVar(&d.known, "known", "", "")
	fs.StringVar(&d.raceBin, "race", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fatal("usage: sim replay [-known FILE] [-race BINARY] FILE")
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal("%v", err)
	}
	bin := self()
	if rep.Race {
		if bin = d.raceBin; bin == "" {
			fatal("this violation needs the race detector: run replay.sh")
		}
	}
	d.prop = rep.Property
	d.env = workerEnv()
	if _, code := d.probe(); code != 0 {
		os.Exit(code)
	}
	r, crashed, err := d.exec(bin, rep.Plans, true)
	if err != nil {
		fatal("%v", err)
	}
	if crashed != "" {
		fmt.Println(crashed)
		if rep.Crash == "" {
			fatal("the process died, which it did not when this was recorded")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, fs.Arg(0))
		os.Exit(1)
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	same := strings.Join(clipLog(r.Log), "\n") == strings.Join(rep.Trace, "\n")
	for _, v := range r.Result.Violations {
		if v.Has(rep.Property) && v.Class == rep.Expect.Class {
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
			fmt.Printf("trace identical to the recorded one: %v\n", same)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, fs.Arg(0))
			os.Exit(1)
		}
	}
	fmt.Println("not reproduced")
}

func workerEnv() []string {
	return append(os.Environ(), "GODEBUG=randautoseed=0", "GOMEMLIMIT=3GiB")
}
