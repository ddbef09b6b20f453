package core

import (
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"time"

	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"

	"verifsim/simrt"
)

// This file runs plans under the race detector. Tasks keep everything they find to
// themselves until all of them are finished: the harness adds no happens-before
// edge between tasks, and touches no memory they share.

// noDB is a dialector for dry runs.
type noDB struct{}

func (noDB) Name() string { return "sqlite" }
func (noDB) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{})
	return nil
}
func (noDB) Migrator(*gorm.DB) gorm.Migrator                     { return nil }
func (noDB) DataTypeOf(*schema.Field) string                     { return "" }
func (noDB) DefaultValueOf(*schema.Field) clause.Expression      { return clause.Expr{SQL: "DEFAULT"} }
func (noDB) BindVarTo(w clause.Writer, _ *gorm.Statement, _ any) { w.WriteByte('?') }
func (noDB) QuoteTo(w clause.Writer, s string) {
	w.WriteString("`" + strings.ReplaceAll(s, ".", "`.`") + "`")
}
func (noDB) Explain(sql string, vars ...any) string { return logger.ExplainSQL(sql, nil, "'", vars...) }

type raceWorld struct {
	plan     *Plan
	db       *gorm.DB
	handles  map[string]*gorm.DB
	shared   []func(*gorm.DB) *gorm.DB
	trees    []*miniquery.Node
	visitors []*miniquery.Visitor
	lists    [][]string
	graph    *entWorld
}

func newRaceWorld(p *Plan) (*raceWorld, error) {
	w := &raceWorld{plan: p, graph: &entWorld{graph: newGraph("")}}
	db, err := gorm.Open(noDB{}, &gorm.Config{Logger: logger.Discard, DryRun: true, DisableAutomaticPing: true, SkipDefaultTransaction: true, NowFunc: func() time.Time { return frozen }})
	if err != nil {
		return nil, err
	}
	w.db = db
	w.handles = map[string]*gorm.DB{
		"":      db,
		"sess":  db.Session(&gorm.Session{}),
		"model": db.Model(&Account{}).Session(&gorm.Session{}),
		"where": db.Model(&Account{}).Where("`accounts`.`tenant_id` = ?", 1).Session(&gorm.Session{}),
		"dry":   db.Session(&gorm.Session{DryRun: true}),
	}
	for _, u := range p.Shared {
		w.shared = append(w.shared, makeScope(u, copyList))
	}
	const slots = 16
	w.trees = make([]*miniquery.Node, slots)
	w.visitors = make([]*miniquery.Visitor, slots)
	w.lists = make([][]string, slots)
	for _, c := range p.Clients {
		for i := range c.Ops {
			o := &c.Ops[i]
			s := o.Share % slots
			if s == 0 {
				continue
			}
			switch {
			case o.Kind == "string" && w.trees[s] == nil:
				simrt.Solo(soloSteps, func() { w.trees[s], _ = miniquery.Parse(o.Text) })
			case o.Kind == "visit" && w.visitors[s] == nil:
				w.visitors[s] = raceVisitor(o.Cbs)
			case o.Kind == "join" && w.lists[s] == nil:
				w.lists[s] = append([]string(nil), o.Texts...)
			}
		}
	}
	return w, nil
}

type raceRecKey struct{}

type raceRec struct{ seen []string }

// raceVisitor hands every callback to the recorder of the caller's context.
func raceVisitor(cbs []string) *miniquery.Visitor {
	v := &miniquery.Visitor{}
	for _, c := range cbs {
		f := func(ctx context.Context, n *miniquery.Node) error {
			if r, ok := ctx.Value(raceRecKey{}).(*raceRec); ok {
				r.seen = append(r.seen, c+":"+clipStr(Canon(n), 40))
			}
			return nil
		}
		setCallback(v, c, f)
	}
	v.Init()
	return v
}

// do performs one operation and describes its result.
func (w *raceWorld) do(op *Op) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if st, ok := r.(simrt.Stall); ok {
				res = fmt.Sprintf("stall after %d steps", st.Steps)
				return
			}
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	s := op.Share % 16
	switch op.Kind {
	case "parse":
		n, err := miniquery.Parse(op.Text)
		if err != nil {
			return "error"
		}
		res = Canon(n)
		if op.Mutate {
			mutate(n)
		}
		return res
	case "string":
		n := w.trees[s]
		if s == 0 {
			n, _ = miniquery.Parse(op.Text)
		}
		if n == nil {
			return "error"
		}
		return n.String() + " / " + miniquery.Build(n)
	case "join":
		l := op.Texts
		if s > 0 {
			l = w.lists[s]
		}
		return miniquery.Join(l)
	case "normalize":
		return miniquery.NormalizeOperation(op.Text)
	case "entrender", "entsql":
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: op.Text, DisableTypeCasting: op.NoCast, Graph: w.graph.graph}
		for _, n := range w.graph.graph.Nodes {
			if n.Type == op.Model {
				mb.Node = n
			}
		}
		mb.SetDialect(entDialect(op))
		q, args := mb.Query()
		if mb.Err() != nil {
			return "error"
		}
		return fmt.Sprintf("%s %v", q, args)
	case "entqlbuild", "entql":
		p, err := entmq.BuildEntQL(op.Text)
		if err != nil {
			return "error"
		}
		if nilP(p) {
			return "nil"
		}
		return p.String()
	case "visit":
		n, err := miniquery.Parse(op.Text)
		if err != nil {
			return "error"
		}
		v := w.visitors[s]
		if s == 0 {
			v = raceVisitor(op.Cbs)
		}
		r := &raceRec{}
		err = v.Visit(context.WithValue(context.Background(), raceRecKey{}, r), n)
		return fmt.Sprintf("%v %v", r.seen, err)
	}
	return w.gorm(op)
}

func (w *raceWorld) gorm(op *Op) string {
	db := w.handles[op.Handle]
	if db == nil {
		db = w.db
	}
	db = db.Model(newModel(op.Model))
	for _, u := range op.Uses {
		switch {
		case u.Shared > 0 && u.Shared <= len(w.shared):
			db = db.Scopes(w.shared[u.Shared-1])
		case u.Via == "wire":
			for _, x := range u.Texts {
				db = gormq.WireMiniQuery(db, x)
			}
		default:
			db = db.Scopes(makeScope(u, copyList))
		}
	}
	switch op.Kind {
	case "update":
		db = db.Updates(map[string]any{"hits": op.Set})
	case "delete":
		db = db.Delete(newModel(op.Model))
	case "count":
		var n int64
		db = db.Count(&n)
	default:
		db = db.Find(newSlice(op.Model))
	}
	if db.Error != nil {
		return "error"
	}
	return fmt.Sprintf("%s %v", db.Statement.SQL.String(), db.Statement.Vars)
}

// executeRace performs one run under the race detector.
func executeRace(p *Plan, keepLog bool) *Result {
	res := &Result{Counts: map[string]int{}}
	w, err := newRaceWorld(p)
	if err != nil {
		res.HarnessErr = err.Error()
		return res
	}
	var dec simrt.Decider
	if p.Schedule != nil {
		dec = &simrt.ReplayDecider{D: *p.Schedule}
	} else {
		dec = &simrt.RandomDecider{R: simrt.NewRand(p.Seed ^ 0x5c4ed), Mean: p.SchedMean, Shy: p.SchedShy}
	}
	s := simrt.New(dec)
	s.Early = p.Prop == "C05" || p.Prop == "C10"
	got := make([][]string, len(p.Clients))
	for i := range p.Clients {
		ops := p.Clients[i].Ops
		out := make([]string, len(ops))
		got[i] = out
		s.Add(func() {
			for j := range ops {
				simrt.Cur().SetLimit(1_600_000 + stepLimit(p, &ops[j]))
				out[j] = w.do(&ops[j])
				simrt.Cur().SetLimit(0)
				simrt.Point()
			}
		})
	}
	races := raceErrors()
	ok := s.Run()
	races = raceErrors() - races
	h := fnv.New64a()
	log := func(f string, a ...any) {
		l := fmt.Sprintf(f, a...)
		h.Write([]byte(l))
		if keepLog {
			res.Log = append(res.Log, l)
		}
	}
	violate := func(class string, client int, op, f string, a ...any) {
		v := Violation{Props: []string{"C05"}, Class: class, Client: client, Op: op, Msg: fmt.Sprintf(f, a...)}
		log("VIOLATION %s %s", class, v.Msg)
		res.Violations = append(res.Violations, v)
	}
	if races > 0 {
		lib, own, harness := raceReports()
		if len(lib) > 0 {
			violate("data-race", -1, "", "data race between concurrent callers: %s", strings.Join(lib, "; "))
		}
		if harness != "" {
			res.HarnessErr = "data race in the harness: " + harness
		}
		res.Counts["probe:gorm-own-race"] += own
	}
	res.Deadlock = !ok
	if !ok {
		violate("deadlock", -1, "", "clients wait for each other")
	} else {
		for i := range p.Clients {
			for j := range p.Clients[i].Ops {
				op := &p.Clients[i].Ops[j]
				res.Ops++
				res.Nontrivial++
				log("c%d.%d %s %s", i, j, op.Kind, got[i][j])
				k := fnv.New64a()
				fmt.Fprint(k, op.Kind, op.Text, op.Texts, op.Uses, op.Share)
				res.Keys = append(res.Keys, k.Sum64())
				var solo string
				if !simrt.Solo(soloSteps, func() { solo = w.do(op) }) {
					violate("stall", i, fmt.Sprintf("c%d.%d %s", i, j, op.Kind), "a call made when all others had ended did not return")
				} else if solo != got[i][j] {
					violate("solo-diff", i, fmt.Sprintf("c%d.%d %s", i, j, op.Kind), "%s of %q %q: %q, alone afterwards %q", op.Kind, op.Text, op.Texts, got[i][j], solo)
				}
			}
		}
	}
	res.Hash = h.Sum64()
	res.SchedHash = s.SchedHash
	res.Steps = simrt.Steps()
	res.Switches, res.Blocks = s.Switches, s.Blocks
	res.Decisions = s.Decisions
	return res
}

var raceLogAt = 0

// raceReports reads what the detector wrote since the last call and sorts it: races
// of the callers of the library, races gorm has by itself, races of the harness.
func raceReports() (lib []string, own int, harness string) {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("SIM_RACE_LOG"), os.Getpid()))
	if err != nil || len(b) <= raceLogAt {
		return nil, 0, "the detector's report is missing"
	}
	text := string(b[raceLogAt:])
	raceLogAt = len(b)
	set := map[string]bool{}
	for _, block := range strings.Split(text, "WARNING: DATA RACE\n")[1:] {
		ends := raceStacks(block)
		inner, gormOwn := false, false
		var names []string
		for _, st := range ends {
			if len(st.frames) == 0 {
				continue
			}
			f := st.frames[0]
			switch {
			case strings.HasPrefix(f, "verifsim/"):
				harness = clipStr(block, 3000)
			case strings.Contains(f, "go-miniquery/"):
				inner = true
			case strings.HasPrefix(f, "gorm.io/gorm/schema.(*Schema).parseRelation"):
				// gorm publishes the inverse of a relation in another schema, under a lock
				// that its own readers do not take
				gormOwn = true
			}
			name := f
			for _, x := range st.frames {
				if strings.Contains(x, "go-miniquery/") {
					name = x
					break
				}
			}
			names = append(names, st.kind+" in "+name[strings.LastIndex(name, "/")+1:])
		}
		if gormOwn && !inner {
			own++
			continue
		}
		sort.Strings(names)
		set[strings.Join(names, " against ")] = true
	}
	for k := range set {
		lib = append(lib, k)
	}
	sort.Strings(lib)
	return lib, own, harness
}

type raceStack struct {
	kind   string
	frames []string // functions outside the standard library, innermost first
}

// raceStacks returns the stacks of the two accesses of a report.
func raceStacks(block string) []raceStack {
	var l []raceStack
	for _, line := range strings.Split(block, "\n") {
		t := strings.TrimSpace(line)
		switch {
		case strings.Contains(t, " at 0x") && strings.Contains(t, " by "):
			kind := strings.ToLower(strings.TrimPrefix(t[:strings.Index(t, " at 0x")], "Previous "))
			l = append(l, raceStack{kind: kind})
		case strings.HasPrefix(t, "Goroutine "), strings.HasPrefix(t, "===="):
			return l
		case strings.HasSuffix(t, "()") && len(l) > 0:
			// packages of the standard library have no dot in the first element
			if i := strings.IndexByte(t, '/'); strings.HasPrefix(t, "verifsim/") || i > 0 && strings.Contains(t[:i], ".") {
				l[len(l)-1].frames = append(l[len(l)-1].frames, t)
			}
		}
	}
	return l
}
