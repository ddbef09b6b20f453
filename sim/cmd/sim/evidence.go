package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifsim/core"
)

var realParts = []string{
	"all packages of the repository (miniquery incl. the generated parser, gormq, entmq), rebuilt from /repo with a scheduling point before every statement",
	"gorm.io/gorm, the sqlite dialector, entgo.io/ent sql builder and sqlgraph, database/sql (pool, retries, transactions)",
	"SQLite engine (modernc) executing every statement",
}
var stubParts = []string{
	"the database connection: an in-process driver with seeded latency, connection loss, I/O errors, server crashes, cancelled contexts",
	"the scheduler: client goroutines run one at a time, switched only by seeded decisions",
	"clock: simulated time; gorm's NowFunc is frozen",
	"Postgres and MySQL: their statement text is checked and translated to SQLite (placeholders, quoting, casts)",
}

func (d *checker) writeEvidence(t, race *total, violations int) {
	if d.evidence == "" {
		return
	}
	faults, probes := map[string]int{}, map[string]int{}
	for k, v := range t.Counts {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] += v
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] += v
		}
	}
	wall := time.Since(d.start).Seconds()
	hours := (t.wall + race.wall).Hours()
	perHour := 0.0
	if hours > 0 {
		perHour = float64(t.Runs+race.Runs) / hours
	}
	cov := map[string]any{
		"evaluations":         t.Ops + race.Ops,
		"distinct_nontrivial": len(t.keys) + len(race.keys),
		"rule": "evaluations are client operations executed in simulated runs generated from the seed; an operation is non-trivial when its oracle compared something that can fail " +
			"(a read whose expected rows are neither none nor all, a write, a refusal, a transaction, a literal check, a visitor walk with callbacks, a parsed tree, a repeated result); distinct by " +
			"(kind, model, handle, refused, fault explains error, error, driver calls, inside transaction, filter shape without literals, planned faults, text of library-only operations)",
		"samples":                         t.samples,
		"simulated_runs":                  t.Runs + race.Runs,
		"runs_with_faults":                t.FaultRuns,
		"runs_fault_free":                 t.Runs - t.FaultRuns,
		"sessions_fresh_processes":        t.sessions + race.sessions,
		"seeds_per_hour":                  int64(perHour),
		"simulated_runs_per_hour":         int64(perHour),
		"simulated_time_covered_s":        float64(t.SimNS) / 1e9,
		"faults_fired":                    faults,
		"probes":                          probes,
		"library_steps":                   t.Steps + race.Steps,
		"preemptions":                     t.Switches + race.Switches,
		"blocking_waits":                  t.Blocks,
		"statements_at_driver":            t.Stmts,
		"distinct_interleavings":          len(t.scheds) + len(race.scheds),
		"distinct_interleavings_rule":     "distinct hashes of the sequence (step, task chosen) over runs with at least one preemption",
		"clients_per_run":                 t.Clients,
		"operations_nontrivial":           t.Nontrivial + race.Nontrivial,
		"real_components":                 realParts,
		"stub_components":                 stubParts,
		"violations_of_other_properties":  d.discarded,
		"confirmation_and_minimiser_runs": d.execs,
	}
	if d.raceBin != "" {
		cov["race_build_runs"] = race.Runs
		cov["race_build_preemptions"] = race.Switches
	}
	ev := map[string]any{
		"property":    d.prop,
		"tier":        d.tier,
		"seed":        d.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": []string{"switches happen between statements of the repository's packages and at driver calls, not inside third-party code", "the reference evaluator of the language and the SQLite engine agree on the generated values (cross-checked by every run)"},
		"wall_s":      wall,
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.MkdirAll(filepath.Dir(d.evidence), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(d.evidence, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// knownProbe is a run that shows a known finding.
type knownProbe struct {
	id    string
	props []string
	plan  *core.Plan
	env   string // set for the workers when the finding is present
	what  string
}

func entPlan(kind, text string) *core.Plan {
	return &core.Plan{Seed: 2, DataSeed: 1, DataSize: 12, Clients: []core.Client{{Ops: []core.Op{{Kind: kind, Model: "accounts", Text: text, Dialect: "sqlite", NoCast: true}}}}}
}

var knownProbes = []knownProbe{
	{"ent-not-between", []string{"C08", "C04", "C05", "C06", "C10"}, entPlan("entsql", "age not between 2 and 3"), "SIM_NOT_BETWEEN_AND=1", "MiniQLToEntSQLBuilder renders `x not between a and b` as `x < a AND x > b`, which selects nothing"},
	{"entql-not-between", []string{"C09", "C04", "C05", "C06", "C10"}, entPlan("entql", "age not between 2 and 3"), "SIM_NOT_BETWEEN_AND=1", "BuildEntQL turns `x not between a and b` into `x < a && x > b`, which selects nothing"},
	{"entql-bool", []string{"C09", "C04", "C05", "C06", "C10"}, entPlan("entql", "true and false"), "SIM_ENTQL_BOOL=1", "BuildEntQL builds a predicate from two bare booleans joined by and/or, on which ent panics when it is evaluated"},
}

// probe looks which known findings are present. A finding that is present but not
// listed in the file is a violation.
func (d *checker) probe() (map[string]bool, int) {
	present := map[string]bool{}
	listed := map[string]string{}
	if d.known != "" {
		b, err := os.ReadFile(d.known)
		if err != nil {
			fatal("%v", err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "known: ") {
				f := strings.Fields(l)
				id := ""
				for _, x := range f {
					if strings.HasPrefix(x, "id=") {
						id = x[3:]
					}
				}
				listed[id] = l
			}
		}
	}
	for _, k := range knownProbes {
		use := false
		for _, p := range k.props {
			use = use || p == d.prop
		}
		if !use || listed[k.id] == "" {
			continue
		}
		r, crashed, err := d.exec(self(), []*core.Plan{k.plan}, false)
		if err != nil {
			fmt.Fprintf(os.Stderr, "sim: probe %s: %v\n", k.id, err)
			return nil, 2
		}
		if crashed == "" && len(r.Result.Violations) == 0 {
			continue
		}
		present[k.id] = true
		if k.props[0] == d.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", d.prop, k.what, k.id)
		}
		if k.env != "" {
			d.env = append(d.env, k.env)
		}
	}
	return present, 0
}
