package core

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"time"

	"verifsim/ref"
	"verifsim/simrt"
)

// Violation is a broken oracle.
type Violation struct {
	Props  []string `json:"props"`
	Class  string   `json:"class"`
	Client int      `json:"client"`
	Op     string   `json:"op"`
	Msg    string   `json:"msg"`
}

func (v Violation) Has(p string) bool {
	for _, x := range v.Props {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}

// Result is the outcome of one run.
type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	HarnessErr string           `json:"harness_err,omitempty"`
	Deadlock   bool             `json:"deadlock,omitempty"`
	Hash       uint64           `json:"hash"`
	SchedHash  uint64           `json:"sched_hash"`
	Steps      int64            `json:"steps"`
	Switches   int64            `json:"switches"`
	Blocks     int64            `json:"blocks"`
	SimNS      int64            `json:"sim_ns"`
	Ops        int              `json:"ops"`
	Stmts      int              `json:"stmts"`
	Nontrivial int              `json:"nontrivial"` // operations whose oracle compared something that can fail
	Counts     map[string]int   `json:"counts"`     // faults fired and probes
	Keys       []uint64         `json:"keys"`       // distinct state keys
	Decisions  []simrt.Decision `json:"-"`
	Log        []string         `json:"-"`
	Known      []string         `json:"known,omitempty"`
}

// World is one running simulation.
type World struct {
	plan    *Plan
	sched   *simrt.Sched
	srv     *Server
	db      *sql.DB
	cur     []*OpRun // innermost operation per task
	viol    []Violation
	loans   []loan
	herr    string
	counts  map[string]int
	connSeq int
	logs    []string
	keep    bool
	hash    uint64
	ops     int
	stmts   int
	nontriv int
	keys    []uint64
	g       *gormWorld
	e       *entWorld
	p       *pureWorld
	opSeq   int
	known   map[string]bool
	runs    []*OpRun
}

// OpRun is a running operation.
type OpRun struct {
	w      *World
	Op     *Op
	Client int
	Path   string
	Seq    int

	calls      int
	excused    bool  // an injected fault explains an error
	kept       bool  // the change of the session is reported
	touched    []Row // rows of the write as they are after it
	bare       bool  // a write without any condition
	explained  bool  // a refused part of a transaction explains an error
	badN       int   // connection failures that should be retried transparently
	ambig      bool  // the outcome of the commit was lost
	Committed  int
	Execs      int // writes executed and not undone
	attempts   int
	executed   int // statements that ran
	Err        error
	V          Verdict
	snaps      []snap
	ctx        *simCtx
	end        context.CancelFunc
	parent     *OpRun // enclosing transaction
	txConn     *Conn
	txID       int
	aborted    bool // the transaction failed inside
	rows       []Row
	n          int64
	affected   int64
	done       bool
	sqls       []string
	concurrent bool
	epoch      int
	dbErr      error // error reported by the engine itself
	loose      bool  // the engine content was taken over after an undefined statement
	useNo      int
	nontriv    bool
	related    [][]Row // related rows per parent
	parentRow  Row
}

type snap struct {
	rows []Row // expected rows in order
	txt  string
}

func (o *OpRun) undone() {
	if o.Execs > 0 {
		o.Execs--
	}
}

func (o *OpRun) name() string { return fmt.Sprintf("%s %s", o.Path, o.Op.Kind) }

type ctxKey struct{}

// simCtx is a context whose cancellation is decided by the simulation. Done is
// nil so that no goroutine outside the scheduler waits for it.
type simCtx struct {
	context.Context
	marker    string
	cancelled bool
	due       int64
}

func (c *simCtx) Deadline() (t time.Time, ok bool) {
	if c.due != 0 {
		return time.Unix(0, c.due), true
	}
	return
}

func (c *simCtx) Done() <-chan struct{} { return nil }
func (c *simCtx) Err() error {
	if c.cancelled {
		return context.Canceled
	}
	return nil
}
func (c *simCtx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c.marker
	}
	return nil
}

func (w *World) log(f string, a ...any) {
	s := fmt.Sprintf("t%d @%d ", simrt.CurTask(), simrt.Steps()) + fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.hash = w.hash*0x100000001b3 ^ h.Sum64()
	if w.keep {
		w.logs = append(w.logs, s)
	}
}

func (w *World) violate(o *OpRun, class string, props []string, f string, a ...any) {
	v := Violation{Props: props, Class: class, Client: -1, Msg: printable(fmt.Sprintf(f, a...))}
	if o != nil {
		v.Client, v.Op = o.Client, o.name()
	}
	w.log("VIOLATION %s %v %s", class, props, v.Msg)
	if len(w.viol) < 50 {
		w.viol = append(w.viol, v)
	}
}

// printable makes a message that can be printed in one piece.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 127 {
			return '\uFFFD'
		}
		return r
	}, s)
}

func (w *World) harnessErr(f string, a ...any) {
	if w.herr == "" {
		w.herr = fmt.Sprintf(f, a...)
	}
}

func (w *World) fired(kind string) {
	w.counts["fault:"+kind]++
	w.log("fault %s", kind)
}

// non records that the oracle of the operation compared something that can fail.
func (w *World) non(o *OpRun) {
	w.nontriv++
	if o != nil {
		o.nontriv = true
	}
}

func (w *World) probe(kind string) { w.counts["probe:"+kind]++ }

func (w *World) curOp() *OpRun {
	t := simrt.CurTask()
	if t < 0 || t >= len(w.cur) {
		return nil
	}
	return w.cur[t]
}

// callStart accounts a driver call, yields, and returns the fault planned for it.
func (w *World) callStart(c *Conn, kind string, noYield bool) *Fault {
	o := w.curOp()
	if o == nil {
		return nil
	}
	o.calls++
	n := o.calls
	if !noYield {
		simrt.Point()
		if l := w.plan.Cfg.LatencyNS; l > 0 {
			h := simrt.NewRand(w.plan.Seed ^ uint64(o.Client)<<40 ^ uint64(o.Seq)<<20 ^ uint64(n))
			simrt.Sleep(int64(h.Uint64() % uint64(2*l)))
		}
	}
	w.log("call %s conn=%d %s", o.Path, connID(c), kind)
	for i := range o.Op.Faults {
		f := &o.Op.Faults[i]
		if f.Call == n {
			if f.Kind == "latency" {
				w.fired("latency")
				if !noYield {
					simrt.Sleep(int64(50_000_000))
				}
				return nil
			}
			return f
		}
	}
	return nil
}

func connID(c *Conn) int {
	if c == nil {
		return -1
	}
	return c.id
}

// excuse records that an error of the current operation is explained.
func (w *World) excuse() {
	for o := w.curOp(); o != nil; o = o.parent {
		o.excused = true
	}
}

func (w *World) excuseRetry() {
	if o := w.curOp(); o != nil {
		o.badN++
		if o.parent != nil || o.badN > 2 {
			w.excuse()
		}
	}
}

func (w *World) excuseTx(c *Conn) {
	if o := w.curOp(); o != nil {
		o.badN++
		if o.badN > 2 || o.parent != nil || o.Op.Kind == "txn" || o.txConn == c {
			w.excuse()
		}
	}
}

func (w *World) ambiguous() {
	for o := w.curOp(); o != nil; o = o.parent {
		o.ambig = true
	}
}

func (w *World) cancelCur() {
	if o := w.curOp(); o != nil && o.ctx != nil {
		o.ctx.cancelled = true
		for p := o; p != nil; p = p.parent {
			p.excused = true
		}
	}
}

// ownsTx reports whether the current client owns the transaction on c.
func (w *World) ownsTx(c *Conn) bool {
	for o := w.curOp(); o != nil; o = o.parent {
		if o.txConn == c && c.inTx && o.txID == c.txID {
			return true
		}
	}
	return false
}

func (w *World) txBegan(c *Conn, ctx context.Context) {
	if o := w.curOp(); o != nil {
		o.txConn, o.txID = c, c.txID
		w.checkCtx(o, ctx, "begin")
	}
}

func (w *World) checkCtx(o *OpRun, ctx context.Context, what string) {
	if o.ctx == nil {
		return
	}
	if m, _ := ctx.Value(ctxKey{}).(string); m != o.ctx.marker {
		w.violate(o, "context", []string{"C12"}, "%s reached the driver with context %q, caller's is %q", what, m, o.ctx.marker)
	}
}

func isWrite(q string) bool {
	u := strings.ToUpper(q)
	return strings.HasPrefix(u, "UPDATE") || strings.HasPrefix(u, "DELETE") || strings.HasPrefix(u, "INSERT")
}

func isSave(q string) bool {
	u := strings.ToUpper(q)
	return strings.HasPrefix(u, "SAVEPOINT") || strings.HasPrefix(u, "ROLLBACK TO") || strings.HasPrefix(u, "RELEASE")
}

// attempt sees every statement before it runs, including those that fail.
func (w *World) attempt(c *Conn, ctx context.Context, q string, args []driver.NamedValue) {
	o := w.curOp()
	if o == nil {
		return
	}
	if isSave(q) {
		return
	}
	o.attempts++
	w.stmts++
	w.log("stmt %s %s %v", o.Path, q, argVals(args))
	if o.V.Reject && len(o.snaps) >= o.relPhase() {
		props := []string{"C01"}
		if o.V.ListReject && o.Op.Rel == "" {
			props = append(props, "C07")
		}
		if strings.HasPrefix(o.Op.Kind, "ent") {
			props = []string{"C08"}
			if o.Op.Kind != "entsql" {
				props = []string{"C09"}
			}
		}
		if len(w.plan.Clients) > 1 {
			props = append(props, "C05")
		}
		w.violate(o, "refused-executed", props, "filter %q must be refused (%s) but %q reached the database", o.texts(), o.V.Why, q)
	}
	if o.Op.Handle == "dry" {
		w.violate(o, "dryrun", []string{"C12"}, "dry-run statement %q reached the database", q)
	}
	if o.Op.PreErr {
		w.violate(o, "pre-error", []string{"C12"}, "statement %q reached the database although the session already had an error", q)
	}
	w.checkCtx(o, ctx, "statement")
	if p := o.parent; p != nil && p.txConn != nil && !c.dead {
		if !(c == p.txConn && c.inTx && c.txID == p.txID) && !(p.txConn.dead || !p.txConn.inTx || p.txConn.txID != p.txID) {
			w.violate(o, "outside-tx", []string{"C12"}, "statement %q ran on connection %d, its transaction is on %d", q, c.id, p.txConn.id)
		}
	}
	if args != nil || countParams(q) == 0 {
		w.checkSQL(o, q, args)
	}
}

func argVals(args []driver.NamedValue) []any {
	var l []any
	for _, a := range args {
		l = append(l, a.Value)
	}
	return l
}

// engineErr records an error reported by the engine itself.
func (w *World) engineErr(o *OpRun, err error) error {
	if o != nil {
		o.dbErr = err
		w.log("engine error %v", err)
	}
	return err
}

func (w *World) translate(o *OpRun, q string, args []driver.NamedValue) (string, []driver.NamedValue, error) {
	args = prepareArgs(args)
	if o != nil && o.Op.schema() != "" {
		q = inOther(q)
	}
	if o != nil && (o.Op.Dialect == "postgres" || w.plan.Cfg.PG) {
		nq, err := fromPostgres(q, args, o.Op.Kind == "entsql" && !o.Op.NoCast)
		return nq, args, err
	}
	return q, args, nil
}

type result struct{ n int64 }

func (r result) LastInsertId() (int64, error) { return 0, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

// execute runs a statement without rows.
func (w *World) execute(c *Conn, q string, args []driver.NamedValue) (driver.Result, error) {
	o := w.curOp()
	s := w.srv
	if isSave(q) {
		return w.savepoint(c, q)
	}
	nq, nargs, err := w.translate(o, q, args)
	if err != nil {
		return nil, w.engineErr(o, err)
	}
	if o == nil {
		return s.rawExec(nq, nargs)
	}
	o.executed++
	want, changed, ok := w.expectWrite(o)
	r, err := s.rawExec(nq, nargs)
	if err != nil {
		return nil, w.engineErr(o, err)
	}
	n, _ := r.RowsAffected()
	w.log("exec %s affected %d", o.Path, n)
	if isWrite(q) {
		w.wrote(c, o, n, want, changed, ok)
	}
	return result{n}, nil
}

// wrote checks a write statement that the engine has carried out on n rows.
func (w *World) wrote(c *Conn, o *OpRun, n int64, want []Row, changed int, ok bool) {
	s := w.srv
	t := Tables[o.Op.Model]
	if !ok {
		// undefined semantics: take over what the engine did
		rows, err := s.Dump(t.Name)
		if err != nil {
			w.harnessErr("dump: %v", err)
		}
		s.state[t.Name] = rows
		o.loose = true
	} else {
		s.state[t.Name] = want
		if o.Execs > 0 {
			w.violate(o, "applied-twice", []string{"C03"}, "the write was executed again although it already took effect")
		}
		if d := s.Diff(t.Name); d != "" {
			w.violate(o, "write-rows", w.rowProps(o, "C03"), "filter %q on %s: %s", o.texts(), o.desc(), d)
			rows, _ := s.Dump(t.Name)
			s.state[t.Name] = rows
			o.loose = true
		} else if n != int64(changed) {
			w.violate(o, "affected", []string{"C03"}, "filter %q: statement reports %d rows, %d rows match", o.texts(), n, changed)
		}
	}
	o.affected = n
	o.Execs++
	if c.inTx {
		s.pending = append(s.pending, o)
	} else {
		o.Committed++
	}
}

func (w *World) savepoint(c *Conn, q string) (driver.Result, error) {
	s := w.srv
	f := strings.Fields(q)
	name := f[len(f)-1]
	if _, err := s.rawExec(q, nil); err != nil {
		return nil, w.engineErr(w.curOp(), err)
	}
	switch {
	case strings.HasPrefix(strings.ToUpper(q), "SAVEPOINT"):
		s.saves = append(s.saves, savepoint{name, s.state.Clone(), len(s.pending)})
		w.probe("savepoint")
	case strings.HasPrefix(strings.ToUpper(q), "ROLLBACK TO"):
		for i := len(s.saves) - 1; i >= 0; i-- {
			if s.saves[i].name == name {
				s.state = s.saves[i].state.Clone()
				for _, o := range s.pending[s.saves[i].pending:] {
					o.undone()
				}
				s.pending = s.pending[:s.saves[i].pending]
				s.saves = s.saves[:i+1]
				break
			}
		}
		w.probe("rollback_to_savepoint")
		if d := s.Diff("accounts", "devices"); d != "" {
			w.violate(w.curOp(), "rollback", []string{"C03", "C12"}, "after rollback to savepoint %s", d)
			s.state["accounts"], _ = s.Dump("accounts")
			s.state["devices"], _ = s.Dump("devices")
		}
	}
	return result{0}, nil
}

// query runs a statement with rows.
func (w *World) query(c *Conn, q string, args []driver.NamedValue) (*memRows, error) {
	o := w.curOp()
	nq, nargs, err := w.translate(o, q, args)
	if err != nil {
		return nil, w.engineErr(o, err)
	}
	if o == nil {
		return w.srv.rawQuery(nq, nargs)
	}
	o.executed++
	if isWrite(q) {
		want, changed, ok := w.expectWrite(o)
		m, err := w.srv.rawQuery(nq, nargs)
		if err != nil {
			return nil, w.engineErr(o, err)
		}
		w.log("exec %s returned %d rows", o.Path, len(m.rows))
		w.wrote(c, o, int64(len(m.rows)), want, changed, ok)
		return m, nil
	}
	w.expectRead(o)
	m, err := w.srv.rawQuery(nq, nargs)
	if err != nil {
		return nil, w.engineErr(o, err)
	}
	w.log("query %s -> %d rows", o.Path, len(m.rows))
	return m, nil
}

// rowProps lists the properties a wrong row set of the operation breaks.
func (w *World) rowProps(o *OpRun, own string) []string {
	p := []string{own}
	for _, u := range o.Op.Uses {
		if o.Op.Rel == "" && (u.Via == "list" && len(u.Texts) > 1 || len(o.Op.Uses) > 1) {
			p = append(p, "C07")
			break
		}
	}
	p = append(p, "C12")
	if o.useNo > 1 || o.Op.Fork != "" {
		p = append(p, "C06")
	}
	if len(w.plan.Clients) > 1 {
		p = append(p, "C05")
	}
	return p
}

func (o *OpRun) texts() []string {
	var l []string
	for _, u := range o.Op.Uses {
		if u.Shared > 0 && u.Shared <= len(o.w.plan.Shared) {
			u = o.w.plan.Shared[u.Shared-1]
		}
		l = append(l, u.Texts...)
	}
	if o.Op.Text != "" {
		l = append(l, o.Op.Text)
	}
	return append(l, o.Op.Texts...)
}

func (o *OpRun) desc() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", o.Op.Model)
	if o.Op.Handle != "" {
		b.WriteString(" handle=" + o.Op.Handle)
	}
	for _, c := range o.Op.Conds {
		fmt.Fprintf(&b, " %s(%d)", c.K, c.N)
	}
	if o.Op.Unscoped {
		b.WriteString(" unscoped")
	}
	if o.Op.Order != "" {
		b.WriteString(" order=" + o.Op.Order)
	}
	if o.Op.Limit > 0 {
		fmt.Fprintf(&b, " limit=%d offset=%d", o.Op.Limit, o.Op.Offset)
	}
	if len(o.Op.Joins) > 0 {
		fmt.Fprintf(&b, " joins=%v", o.Op.Joins)
	}
	if o.Op.Alias {
		b.WriteString(" alias")
	}
	if o.Op.Schema {
		b.WriteString(" schema")
	}
	if o.Op.NoModel != "" {
		b.WriteString(" model=" + o.Op.NoModel)
	}
	if len(o.Op.Sess) > 0 {
		b.WriteString(" session=" + strings.Join(o.Op.Sess, ","))
	}
	if o.Op.Rel != "" {
		fmt.Fprintf(&b, " relation=%s", o.Op.Rel)
	}
	for _, u := range o.Op.Uses {
		if u.Via != "apply" && u.Shared == 0 {
			b.WriteString(" via=" + u.Via)
		}
	}
	if o.Op.Compose != "" {
		b.WriteString(" compose=" + o.Op.Compose)
	}
	if o.Op.Dialect != "" {
		b.WriteString(" dialect=" + o.Op.Dialect)
	}
	return b.String()
}

// Execute performs one run.
func Execute(p *Plan, keepLog bool) (res *Result) {
	simrt.SeedRuntime(p.Seed)
	if p.Profile == "race" {
		return executeRace(p, keepLog)
	}
	w := &World{plan: p, counts: map[string]int{}, keep: keepLog, known: map[string]bool{}}
	res = &Result{Counts: w.counts}
	size := p.DataSize
	if size <= 0 {
		size = 8
	}
	needDB := planNeedsDB(p)
	if needDB {
		srv, err := NewServer(w, NewState(p.DataSeed, size))
		if err != nil {
			res.HarnessErr = err.Error()
			return res
		}
		w.srv = srv
		defer srv.Close()
		w.db = sql.OpenDB(connector{srv})
		defer w.db.Close()
		w.db.SetMaxIdleConns(16)
		if p.Cfg.MaxIdle > 0 {
			w.db.SetMaxIdleConns(p.Cfg.MaxIdle)
		}
		if err := w.openGorm(); err != nil {
			res.HarnessErr = "gorm: " + err.Error()
			return res
		}
		w.openEnt()
	}
	w.openPure()
	var dec simrt.Decider
	if p.Schedule != nil {
		dec = &simrt.ReplayDecider{D: *p.Schedule}
	} else {
		dec = &simrt.RandomDecider{R: simrt.NewRand(p.Seed ^ 0x5c4ed), Mean: p.SchedMean, Shy: p.SchedShy}
	}
	s := simrt.New(dec)
	s.Wall = p.WallNS
	s.Early = p.Prop == "C05" || p.Prop == "C10"
	w.sched = s
	w.cur = make([]*OpRun, len(p.Clients))
	for i := range p.Clients {
		i := i
		s.Add(func() { w.client(i) })
	}
	w.boundMemory()
	ok := s.Run()
	res.Deadlock = !ok
	if !ok && w.herr == "" {
		var what []string
		for i, o := range w.cur {
			if o != nil {
				what = append(what, fmt.Sprintf("client %d in %s", i, o.name()))
			}
		}
		w.viol = append(w.viol, Violation{Props: []string{"*"}, Class: "deadlock", Client: -1, Msg: "clients wait for each other: " + strings.Join(what, ", ")})
	}
	if ok {
		w.finish()
	}
	res.Violations = w.viol
	res.HarnessErr = w.herr
	res.Hash = w.hash
	res.SchedHash = s.SchedHash
	res.Steps = simrt.Steps()
	res.Switches, res.Blocks = s.Switches, s.Blocks
	res.SimNS = s.Now() - 1_000_000_000
	res.Ops, res.Stmts, res.Nontrivial = w.ops, w.stmts, w.nontriv
	res.Keys = w.keys
	res.Decisions = s.Decisions
	res.Log = w.logs
	for k := range w.known {
		res.Known = append(res.Known, k)
	}
	sort.Strings(res.Known)
	return res
}

func planNeedsDB(p *Plan) bool {
	for _, c := range p.Clients {
		for _, o := range c.Ops {
			switch o.Kind {
			case "parse", "visit", "join", "normalize", "entrender", "entqlbuild", "string":
			default:
				return true
			}
		}
	}
	return false
}

// finish checks the final state.
func (w *World) finish() {
	w.finishPure()
	if w.srv == nil {
		return
	}
	if w.srv.owner != nil {
		w.violate(nil, "tx-left-open", []string{"C12"}, "a transaction was left open")
		w.srv.rollback()
	}
	if d := w.srv.Diff(tableOrder...); d != "" {
		w.violate(nil, "final-state", []string{"C03"}, "at the end %s", d)
	}
	w.checkHandles()
	w.checkLoans()
	w.checkLocks(nil)
}

func (w *World) client(i int) {
	for j := range w.plan.Clients[i].Ops {
		op := &w.plan.Clients[i].Ops[j]
		if op.PauseNS > 0 {
			w.fired("client_pause")
			simrt.Sleep(op.PauseNS)
		}
		w.runOp(i, fmt.Sprintf("c%d.%d", i, j), op, nil, nil)
		if w.herr != "" {
			return
		}
	}
}

// boundMemory lets the run end as stalled when it allocates far more than its texts
// can justify: copying is not counted as steps.
func (w *World) boundMemory() {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	limit := m[0].Value.Uint64()
	for _, c := range w.plan.Clients {
		for i := range c.Ops {
			limit += 64_000_000 + uint64(stepLimit(w.plan, &c.Ops[i]))*64
		}
	}
	w.sched.CheckEvery = 100_000
	w.sched.Check = func() bool {
		metrics.Read(m)
		return m[0].Value.Uint64() > limit
	}
}

// stepLimit bounds one operation: a constant plus a part linear in the text.
func stepLimit(p *Plan, op *Op) int64 {
	n := len(op.Text) + len(op.Reuse)
	for _, t := range op.Texts {
		n += len(t)
	}
	for _, u := range op.Uses {
		if u.Shared > 0 && u.Shared <= len(p.Shared) {
			u = p.Shared[u.Shared-1]
		}
		for _, t := range u.Texts {
			n += len(t)
		}
	}
	for i := range op.Sub {
		n += int(stepLimit(p, &op.Sub[i])) / 4_000
	}
	if op.Kind == "wear" {
		n = (n+100)*(op.Repeat+1) + 30*op.Many
	}
	return 400_000 + int64(n)*int64(4_000)
}

// runOp runs one operation with panics and stalls caught at the client boundary.
func (w *World) runOp(client int, path string, op *Op, parent *OpRun, env any) *OpRun {
	w.opSeq++
	o := &OpRun{w: w, Op: op, Client: client, Path: path, Seq: w.opSeq, parent: parent}
	if parent != nil {
		o.ctx = parent.ctx
	}
	if op.Ctx && o.ctx == nil {
		o.ctx = &simCtx{Context: context.Background(), marker: path}
		if op.DueNS > 0 {
			o.ctx.due = simrt.WallNow() + op.DueNS
			w.fired("context_deadline")
		}
	}
	w.runs = append(w.runs, o)
	prev := w.cur[client]
	w.cur[client] = o
	w.ops++
	if parent == nil {
		w.sched.SetLimit(stepLimit(w.plan, op))
	}
	start := simrt.Steps()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if st, ok := r.(simrt.Stall); ok {
					w.violate(o, "stall", []string{"*"}, "filter %s: still running after %d steps", clip(o.texts()), st.Steps-start)
					o.Err = errStall
					return
				}
				if h, ok := r.(harnessPanic); ok {
					w.harnessErr("%s", string(h))
					return
				}
				if r == errTxPanic {
					panic(r)
				}
				w.violate(o, "panic", []string{"*"}, "filter %s: panic: %v\n%s", clip(o.texts()), r, shortStack())
				o.Err = fmt.Errorf("panic: %v", r)
			} else if w.sched.Stalled() {
				w.violate(o, "stall", []string{"*"}, "filter %s: went on after %d steps", clip(o.texts()), simrt.Steps()-start)
			}
		}()
		w.dispatch(o, env)
	}()
	o.done = true
	w.cur[client] = prev
	if parent == nil {
		w.sched.SetLimit(0)
	}
	w.log("end %s err=%s", o.name(), errText(o.Err))
	w.key(o)
	return o
}

type harnessPanic string

var errStall = errors.New("stalled")
var errTxPanic = errors.New("sim: client panics inside its transaction")

func clip(l []string) string {
	s := fmt.Sprintf("%q", l)
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

// errText is the error without run-dependent parts.
func errText(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "go-miniquery") && strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/src/"); i > 0 {
				l = l[i+5:]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// key records what kind of situation the operation covered.
func (w *World) key(o *OpRun) {
	if !o.nontriv {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%v%v%s", o.Op.Joins, o.Op.Alias, o.Op.NoModel+o.Op.Rel+strings.Join(o.Op.Sess, ","))
	for _, u := range o.Op.Uses {
		h.Write([]byte(u.Via))
	}
	fmt.Fprintf(h, "%s|%s|%s|%v|%v|%v|%d|%v", o.Op.Kind, o.Op.Model, o.Op.Handle, o.V.Reject, o.excused, o.Err != nil, min(o.calls, 9), o.parent != nil)
	for _, e := range o.V.Conds {
		h.Write([]byte(e.Shape()))
	}
	for _, f := range o.Op.Faults {
		fmt.Fprintf(h, "%d%s", f.Call, f.Kind)
	}
	if o.Op.Text != "" {
		h.Write([]byte(o.Op.Text))
	}
	for _, t := range o.Op.Texts {
		h.Write([]byte(t))
	}
	w.keys = append(w.keys, h.Sum64())
}

func (w *World) dispatch(o *OpRun, env any) {
	switch o.Op.Kind {
	case "find", "first", "last", "take", "count", "pluck", "rows", "batches", "update", "delete", "txn",
		"maps", "scan", "groupby", "firstinit", "create", "save", "firstcreate", "preload", "assoc", "assoccount":
		w.gormOp(o, env)
	case "wear":
		w.wearOp(o)
	case "shape":
		w.shapeOp(o)
	case "entsql", "entql", "entqllist":
		w.entOp(o)
	default:
		w.pureOp(o)
	}
}

var _ = ref.Null
