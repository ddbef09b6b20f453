package core

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"verifsim/ref"
	"verifsim/simrt"
)

// OpenReal opens the embedded SQL engine of the simulated server.
var OpenReal func() (driver.Conn, error)

// ErrInjected is the error of injected I/O failures.
var ErrInjected = errors.New("sim: injected i/o error")

// ErrReset is the error of a connection lost during a call.
var ErrReset = errors.New("sim: connection reset by peer")

// Server is the simulated database: one real in-memory SQL engine, executing one
// statement at a time, behind simulated connections. A transaction holds the
// whole database; other connections wait in simulated time.
type Server struct {
	w     *World
	real  driver.Conn
	owner *Conn
	state State // what the engine must contain now
	base  State // content at the begin of the open transaction
	saves []savepoint
	conns []*Conn
	txSeq int
	// pending are the writes of the open transaction
	pending []*OpRun
}

type savepoint struct {
	name    string
	state   State
	pending int
}

// Conn is a simulated connection.
type Conn struct {
	s    *Server
	id   int
	dead bool
	inTx bool
	txID int
}

// NewServer loads the state into a fresh engine.
func NewServer(w *World, st State) (*Server, error) {
	real, err := OpenReal()
	if err != nil {
		return nil, err
	}
	s := &Server{w: w, real: real, state: st}
	setup := append(CreateSQL(""), st.InsertSQL("")...)
	if p := w.plan; p.usesSchema() {
		setup = append(setup, "ATTACH ':memory:' AS `other`")
		setup = append(setup, CreateSQL("`other`.")...)
		setup = append(setup, NewState(p.DataSeed+1, p.DataSize).InsertSQL("`other`.")...)
	}
	for _, q := range setup {
		if _, err := s.rawExec(q, nil); err != nil {
			return nil, fmt.Errorf("setup %q: %w", q, err)
		}
	}
	return s, nil
}

func (s *Server) Close() { _ = s.real.Close() }

func (s *Server) rawExec(q string, args []driver.NamedValue) (driver.Result, error) {
	return s.real.(driver.ExecerContext).ExecContext(context.Background(), q, args)
}

type memRows struct {
	cols  []string
	rows  [][]driver.Value
	i     int
	errAt int
	err   error
	c     *Conn
}

func (r *memRows) Columns() []string { return r.cols }
func (r *memRows) Close() error      { return nil }
func (r *memRows) Next(dest []driver.Value) error {
	if r.errAt >= 0 && r.i == r.errAt {
		r.c.kill()
		r.c.s.w.fired("rowerr")
		return r.err
	}
	if r.i >= len(r.rows) {
		return io.EOF
	}
	copy(dest, r.rows[r.i])
	r.i++
	return nil
}

func (s *Server) rawQuery(q string, args []driver.NamedValue) (*memRows, error) {
	rows, err := s.real.(driver.QueryerContext).QueryContext(context.Background(), q, args)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	m := &memRows{cols: append([]string(nil), rows.Columns()...), errAt: -1}
	for {
		d := make([]driver.Value, len(m.cols))
		err := rows.Next(d)
		if err == io.EOF {
			return m, nil
		}
		if err != nil {
			return nil, err
		}
		m.rows = append(m.rows, d)
	}
}

const timeFormat = "2006-01-02 15:04:05"

func toVal(v driver.Value) (ref.Val, error) {
	switch x := v.(type) {
	case nil:
		return ref.Null, nil
	case int64:
		return ref.Int(x), nil
	case bool:
		return ref.Bool(x), nil
	case string:
		return ref.Text(x), nil
	case []byte:
		return ref.Text(string(x)), nil
	case time.Time:
		return ref.Text(x.UTC().Format(timeFormat)), nil
	}
	return ref.Null, fmt.Errorf("unexpected value %T", v)
}

// Dump reads a table of the engine.
func (s *Server) Dump(table string) ([]Row, error) {
	m, err := s.rawQuery("SELECT * FROM `"+table+"` ORDER BY 1", nil)
	if err != nil {
		return nil, err
	}
	var out []Row
	for _, r := range m.rows {
		row := make(Row, len(r))
		for i, v := range r {
			if row[i], err = toVal(v); err != nil {
				return nil, err
			}
		}
		out = append(out, row)
	}
	return out, nil
}

// Diff compares the engine with the model, "" when equal.
func (s *Server) Diff(tables ...string) string {
	for _, t := range tables {
		got, err := s.Dump(t)
		if err != nil {
			return "dump " + t + ": " + err.Error()
		}
		want := s.state[t]
		if len(got) != len(want) {
			return fmt.Sprintf("table %s has %d rows, model has %d", t, len(got), len(want))
		}
		for i := range got {
			if got[i].String() != want[i].String() {
				return fmt.Sprintf("table %s row %s, model %s", t, got[i], want[i])
			}
		}
	}
	return ""
}

// rollback undoes the open transaction.
func (s *Server) rollback() {
	if s.owner == nil {
		return
	}
	_, err := s.rawExec("ROLLBACK", nil)
	if err != nil {
		s.w.harnessErr("engine rollback: %v", err)
	}
	s.state = s.base
	for _, o := range s.pending {
		o.undone()
	}
	s.endTx()
	if d := s.Diff("accounts", "devices"); d != "" {
		s.w.violate(nil, "rollback", []string{"C03", "C12"}, "after rollback %s", d)
	}
}

func (s *Server) endTx() {
	s.owner.inTx = false
	s.owner, s.base, s.saves, s.pending = nil, nil, nil, nil
}

// crash kills all connections; the open transaction is lost.
func (s *Server) crash() {
	s.rollback()
	for _, c := range s.conns {
		c.dead = true
		c.inTx = false
	}
	s.conns = nil
	s.w.log("server crash")
}

func (c *Conn) kill() {
	if c.s.owner == c {
		c.s.rollback()
	}
	c.dead = true
}

// connector

type connector struct{ s *Server }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not used") }

func (k connector) Driver() driver.Driver { return drv{} }
func (k connector) Connect(ctx context.Context) (driver.Conn, error) {
	s := k.s
	w := s.w
	if !simrt.Active() {
		c := &Conn{s: s, id: len(s.conns)}
		s.conns = append(s.conns, c)
		return c, nil
	}
	f := w.callStart(nil, "connect", w.plan.Cfg.PrepareStmt)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if f != nil {
		switch f.Kind {
		case "ioerr", "badconn":
			w.fired("connect_" + f.Kind)
			if f.Kind == "badconn" {
				w.excuseRetry()
				return nil, driver.ErrBadConn
			}
			w.excuse()
			return nil, ErrInjected
		case "crash_before", "crash_after":
			w.fired(f.Kind)
			s.crash()
			w.excuse()
			return nil, ErrReset
		}
	}
	w.connSeq++
	c := &Conn{s: s, id: w.connSeq}
	s.conns = append(s.conns, c)
	return c, nil
}

func (c *Conn) Close() error {
	if c.s.owner == c {
		c.s.rollback()
	}
	c.dead = true
	for i, x := range c.s.conns {
		if x == c {
			c.s.conns = append(c.s.conns[:i:i], c.s.conns[i+1:]...)
			break
		}
	}
	return nil
}

func (c *Conn) Begin() (driver.Tx, error) { return nil, errors.New("not used") }

func (c *Conn) IsValid() bool { return !c.dead || c.s.w.plan.Cfg.MaxIdle == 1 }

// enter performs the part common to all calls: scheduling point, latency, faults
// before execution, waiting for the database. It returns the fault to apply
// after execution, if any.
func (c *Conn) enter(ctx context.Context, kind string, noYield bool) (*Fault, error) {
	w := c.s.w
	if !simrt.Active() {
		return nil, nil
	}
	f := w.callStart(c, kind, noYield)
	if f != nil && f.Kind == "cancel" {
		w.fired("cancel")
		w.cancelCur()
	}
	if c.dead {
		w.excuseTx(c)
		return nil, driver.ErrBadConn
	}
	if ctx != nil {
		if err := ctx.Err(); err != nil {
			w.excuse()
			return nil, err
		}
	}
	if f != nil {
		switch f.Kind {
		case "badconn":
			w.fired(kind + "_badconn")
			inTx := c.inTx
			c.kill()
			if inTx {
				w.excuse()
			}
			w.excuseRetry()
			return nil, driver.ErrBadConn
		case "ioerr":
			w.fired(kind + "_ioerr")
			w.excuse()
			if kind == "commit" || kind == "rollback" {
				c.kill()
			}
			return nil, ErrInjected
		case "crash_before":
			w.fired(kind + "_crash_before")
			c.s.crash()
			w.excuse()
			return nil, ErrReset
		}
	}
	// wait for the open transaction of another connection
	if c.s.owner != nil && c.s.owner != c {
		if w.ownsTx(c.s.owner) {
			// the same client holds the database: it can never be released
			return nil, errors.New("sim: statement outside the open transaction of its client")
		}
		if noYield {
			w.harnessErr("call %s would wait inside a no-yield section", kind)
			return nil, ErrInjected
		}
		simrt.Block(func() bool { return c.s.owner == nil || c.dead })
		if c.dead {
			w.excuseRetry()
			return nil, driver.ErrBadConn
		}
		if ctx != nil {
			if err := ctx.Err(); err != nil {
				w.excuse()
				return nil, err
			}
		}
	}
	return f, nil
}

// after applies the faults that strike after the effect.
func (c *Conn) after(f *Fault, kind string) error {
	if f == nil {
		return nil
	}
	w := c.s.w
	switch f.Kind {
	case "ioerr_after":
		w.fired(kind + "_ioerr_after")
		w.excuse()
		if kind == "exec" && !c.inTx || kind == "commit" {
			w.ambiguous()
		}
		return ErrInjected
	case "crash_after":
		w.fired(kind + "_crash_after")
		if kind == "exec" && !c.inTx || kind == "commit" {
			w.ambiguous()
		}
		c.s.crash()
		w.excuse()
		return ErrReset
	}
	return nil
}

func (c *Conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	f, err := c.enter(ctx, "begin", false)
	if err != nil {
		return nil, err
	}
	s := c.s
	if s.owner != nil {
		return nil, errors.New("sim: nested transaction")
	}
	if _, err := s.rawExec("BEGIN", nil); err != nil {
		return nil, err
	}
	s.owner = c
	s.base = s.state.Clone()
	s.txSeq++
	c.inTx, c.txID = true, s.txSeq
	s.w.txBegan(c, ctx)
	if err := c.after(f, "begin"); err != nil {
		c.kill()
		return nil, err
	}
	return &tx{c: c, id: c.txID}, nil
}

type tx struct {
	c  *Conn
	id int
}

func (t *tx) Commit() error {
	c := t.c
	f, err := c.enter(nil, "commit", false)
	if err != nil {
		return err
	}
	if !c.inTx || c.txID != t.id {
		return errors.New("sim: commit without transaction")
	}
	if _, err := c.s.rawExec("COMMIT", nil); err != nil {
		return err
	}
	for _, o := range c.s.pending {
		o.Committed++
	}
	c.s.endTx()
	c.s.w.log("commit")
	return c.after(f, "commit")
}

func (t *tx) Rollback() error {
	c := t.c
	f, err := c.enter(nil, "rollback", false)
	if err != nil {
		return err
	}
	if !c.inTx || c.txID != t.id {
		return nil
	}
	c.s.rollback()
	return c.after(f, "rollback")
}

func (c *Conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	w := c.s.w
	w.attempt(c, ctx, q, args)
	f, err := c.enter(ctx, "exec", false)
	if err != nil {
		return nil, err
	}
	r, err := w.execute(c, q, args)
	if err != nil {
		return nil, err
	}
	if err := c.after(f, "exec"); err != nil {
		return nil, err
	}
	return r, nil
}

func (c *Conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	w := c.s.w
	w.attempt(c, ctx, q, args)
	kind := "query"
	if isWrite(q) {
		kind = "exec"
	}
	f, err := c.enter(ctx, kind, false)
	if err != nil {
		return nil, err
	}
	m, err := w.query(c, q, args)
	if err != nil {
		return nil, err
	}
	m.c = c
	if f != nil && f.Kind == "rowerr" {
		m.errAt = 0
		if len(m.rows) > 0 {
			m.errAt = f.Row % (len(m.rows) + 1)
		}
		m.err = ErrInjected
		w.excuse()
	}
	if err := c.after(f, kind); err != nil {
		return nil, err
	}
	return m, nil
}

func (c *Conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *Conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	w := c.s.w
	w.attempt(c, ctx, q, nil)
	if _, err := c.enterPrepare(ctx); err != nil {
		return nil, err
	}
	return &stmt{c: c, q: q, n: countParams(q)}, nil
}

// enterPrepare never yields: gorm holds locks while it prepares.
func (c *Conn) enterPrepare(ctx context.Context) (*Fault, error) {
	if c.dead {
		return nil, driver.ErrBadConn
	}
	return nil, nil
}

type stmt struct {
	c *Conn
	q string
	n int
}

func (s *stmt) Close() error                                    { return nil }
func (s *stmt) NumInput() int                                   { return s.n }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) { return nil, errors.New("not used") }
func (s *stmt) Query(args []driver.Value) (driver.Rows, error)  { return nil, errors.New("not used") }
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, args)
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, args)
}

func countParams(q string) int {
	n := 0
	for _, t := range lexSQL(q) {
		if t.kind == tkParam {
			n++
		}
	}
	return n
}

// prepareArgs converts arguments for the engine.
func prepareArgs(args []driver.NamedValue) []driver.NamedValue {
	out := make([]driver.NamedValue, len(args))
	for i, a := range args {
		if t, ok := a.Value.(time.Time); ok {
			a.Value = t.UTC().Format(timeFormat)
		}
		out[i] = a
	}
	return out
}

// fromPostgres rewrites Postgres statement text for the engine and checks the
// casts the way Postgres would.
func fromPostgres(q string, args []driver.NamedValue, casts bool) (string, error) {
	var b strings.Builder
	toks := lexSQL(q)
	if casts {
		if err := pgUntyped(toks, args); err != nil {
			return "", err
		}
	}
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch {
		case t.kind == tkIdent && strings.HasPrefix(t.text, `"`):
			b.WriteString("`" + strings.ReplaceAll(t.text[1:len(t.text)-1], `""`, `"`) + "`")
		case t.kind == tkParam && strings.HasPrefix(t.text, "$"):
			n := 0
			fmt.Sscanf(t.text, "$%d", &n)
			if n < 1 || n > len(args) {
				return "", fmt.Errorf("sim: there is no parameter %s", t.text)
			}
			b.WriteString("?" + t.text[1:])
			if i+1 < len(toks) && toks[i+1].text == "::" {
				if i+2 >= len(toks) {
					return "", errors.New("sim: syntax error at ::")
				}
				typ := strings.ToLower(toks[i+2].text)
				i += 2
				if err := pgCast(typ, args[n-1].Value); err != nil {
					return "", err
				}
			}
		default:
			b.WriteString(t.text)
		}
	}
	return b.String(), nil
}

// pgUntyped looks for comparisons of two parameters without a type. Postgres takes
// them as texts, and the driver then cannot pass a number or boolean.
func pgUntyped(toks []tok, args []driver.NamedValue) error {
	var l []tok
	for _, t := range toks {
		if t.kind != tkSpace {
			l = append(l, t)
		}
	}
	isText := func(t tok) bool {
		n := 0
		fmt.Sscanf(t.text, "$%d", &n)
		if n < 1 || n > len(args) {
			return true
		}
		switch args[n-1].Value.(type) {
		case int64, bool, float64:
			return false
		}
		return true
	}
	param := func(i int) bool {
		return l[i].kind == tkParam && strings.HasPrefix(l[i].text, "$") && (i+1 == len(l) || l[i+1].text != "::")
	}
	for i := 0; i+2 < len(l); i++ {
		switch l[i+1].text {
		case "=", "<>", "!=", "<", ">", "<=", ">=":
			if param(i) && param(i+2) && (i == 0 || l[i-1].text != "::") && !(isText(l[i]) && isText(l[i+2])) {
				return fmt.Errorf("sim: cannot pass %s and %s, parameters of unknown type are texts", l[i].text, l[i+2].text)
			}
		}
	}
	return nil
}

func pgCast(typ string, v driver.Value) error {
	if v == nil {
		return nil
	}
	switch typ {
	case "int", "integer", "int4":
		i, ok := v.(int64)
		if !ok {
			return fmt.Errorf("sim: cannot cast %T to %s", v, typ)
		}
		if i > math.MaxInt32 || i < math.MinInt32 {
			return errors.New("sim: integer out of range")
		}
	case "bigint", "int8":
		if _, ok := v.(int64); !ok {
			return fmt.Errorf("sim: cannot cast %T to %s", v, typ)
		}
	case "bool", "boolean":
		if _, ok := v.(bool); !ok {
			return fmt.Errorf("sim: cannot cast %T to %s", v, typ)
		}
	case "text", "varchar":
		if _, ok := v.(string); !ok {
			return fmt.Errorf("sim: cannot cast %T to %s", v, typ)
		}
	case "double":
	default:
		return fmt.Errorf("sim: type %q does not exist", typ)
	}
	return nil
}
