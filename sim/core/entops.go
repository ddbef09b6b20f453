package core

import (
	stdsql "database/sql"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"entgo.io/ent/dialect"
	"entgo.io/ent/dialect/sql"
	"entgo.io/ent/dialect/sql/sqlgraph"
	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"

	"verifsim/ref"
)

type entWorld struct {
	graph *sqlgraph.Schema
	nodes map[string]*sqlgraph.Node // "" and schemaName are prefixes of the names
	preds map[string]entql.P        // predicates built earlier, by text
	first map[string]int
}

var entRel = map[string]struct {
	rel sqlgraph.Rel
	inv bool
}{
	"M2O":  {sqlgraph.M2O, true},
	"O2OI": {sqlgraph.O2O, true},
	"O2M":  {sqlgraph.O2M, false},
	"O2O":  {sqlgraph.O2O, false},
	"M2M":  {sqlgraph.M2M, false},
}

// newGraph makes the ent schema of the tables.
func newGraph(schema string) *sqlgraph.Schema {
	g := &sqlgraph.Schema{}
	for _, tn := range tableOrder {
		t := Tables[tn]
		n := &sqlgraph.Node{Type: tn, Fields: map[string]*sqlgraph.FieldSpec{}}
		n.Table = tn
		n.Schema = schema
		n.ID = &sqlgraph.FieldSpec{Column: t.Cols[0].Name}
		for _, c := range t.Cols {
			n.Columns = append(n.Columns, c.Name)
			if c.T != 'k' {
				n.Fields[c.Name] = &sqlgraph.FieldSpec{Column: c.Name}
			}
		}
		g.Nodes = append(g.Nodes, n)
	}
	for _, tn := range tableOrder {
		for _, e := range Tables[tn].Edges {
			k := entRel[e.Kind]
			s := &sqlgraph.EdgeSpec{Rel: k.rel, Inverse: k.inv, Schema: schema}
			if e.Kind == "M2M" && schema != "" {
				s.Schema = joinSchema
			}
			switch e.Kind {
			case "M2O", "O2OI":
				s.Table, s.Columns = tn, []string{e.FK}
			case "O2M", "O2O":
				s.Table, s.Columns = e.To, []string{e.FK}
			case "M2M":
				s.Table = e.Join
				s.Columns = []string{"account_id", "group_id"}
				s.Inverse = e.A != "account_id"
			}
			g.MustAddE(e.Name, s, tn, e.To)
		}
	}
	return g
}

func (w *World) openEnt() {
	e := &entWorld{graph: newGraph(""), nodes: map[string]*sqlgraph.Node{}, preds: map[string]entql.P{}, first: map[string]int{}}
	for _, n := range append(newGraph(schemaName).Nodes, e.graph.Nodes...) {
		e.nodes[n.Schema+n.Type] = n
	}
	w.e = e
}

// schemaName is where the tables are. Operations that say so have another
// default schema, which has tables of the same names with other rows in them.
const (
	schemaName = "main"
	joinSchema = "links" // the join tables
)

func (op *Op) schema() string {
	// ent does not write schema names for SQLite
	if op.Schema && op.Kind == "entsql" && op.Dialect != "sqlite" {
		return schemaName
	}
	return ""
}

func (p *Plan) usesSchema() bool {
	for _, c := range p.Clients {
		for i := range c.Ops {
			if c.Ops[i].schema() != "" {
				return true
			}
		}
	}
	return false
}

var joinTables = map[string]bool{"account_groups": true}

func trimQuotes(s string) string { return strings.Trim(s, "`\"") }

// inOther makes table names without a schema stand for tables of the other schema.
func inOther(q string) string {
	var b strings.Builder
	from := false
	toks := lexSQL(q)
	for i, t := range toks {
		dotted := i+2 < len(toks) && toks[i+1].text == "."
		if t.kind == tkIdent {
			s := trimQuotes(t.text)
			switch {
			case from && !dotted:
				b.WriteString("`other`.")
			case !dotted || s != schemaName && s != joinSchema:
			case joinTables[trimQuotes(toks[i+2].text)] == (s == joinSchema):
				t.text = "`main`"
			default:
				// the table of that name in another schema
				t.text = "`other`"
			}
		}
		if t.kind != tkSpace {
			from = t.kind == tkWord && (strings.EqualFold(t.text, "from") || strings.EqualFold(t.text, "join"))
		}
		b.WriteString(t.text)
	}
	return b.String()
}

func (w *World) entBuilder(op *Op, text string) *entmq.MiniQLToEntSQLBuilder {
	mb := &entmq.MiniQLToEntSQLBuilder{
		Node: w.e.nodes[op.schema()+op.Model], Graph: w.e.graph, QueryString: text,
		DisableTypeCasting: op.NoCast,
	}
	if op.NoModel != "" {
		mb.Node = nil
	}
	return mb
}

func entDialect(op *Op) string {
	switch op.Dialect {
	case "postgres":
		return dialect.Postgres
	case "mysql":
		return dialect.MySQL
	}
	return dialect.SQLite
}

// compose combines the predicate of the filter with others of the caller.
func compose(kind string, t *sql.SelectTable, s *sql.Selector, p *sql.Predicate) {
	id, hits := t.C("id"), t.C("hits")
	switch kind {
	case "and_before":
		s.Where(sql.GT(id, 1)).Where(p)
	case "and_after":
		s.Where(p).Where(sql.GT(id, 1))
	case "and_both":
		s.Where(sql.And(sql.GT(id, 1), p, sql.LTE(hits, 1)))
	case "or":
		s.Where(sql.Or(sql.EQ(id, 1), p))
	case "or_after":
		s.Where(sql.Or(p, sql.EQ(id, 1)))
	case "not":
		s.Where(sql.Not(p))
	case "and_or":
		s.Where(sql.And(sql.Or(p, sql.EQ(hits, 1)), sql.GT(id, 1)))
	case "or_and":
		s.Where(sql.Or(sql.And(p, sql.GT(id, 1)), sql.EQ(hits, 2)))
	case "not_and":
		s.Where(sql.GT(id, 1)).Where(sql.Not(sql.And(p, sql.LTE(hits, 1))))
	default:
		s.Where(p)
	}
}

// composeRef is the same on the reference side.
func composeRef(kind string, e *ref.E) *ref.E {
	id := &ref.E{K: ref.KIdent, Name: "id"}
	hits := &ref.E{K: ref.KIdent, Name: "hits"}
	cmp := func(l *ref.E, op string, n int64) *ref.E {
		return &ref.E{K: ref.KCmp, Op: op, L: l, R: &ref.E{K: ref.KInt, I: n}}
	}
	lg := func(op string, l ...*ref.E) *ref.E {
		x := l[0]
		for _, y := range l[1:] {
			x = &ref.E{K: ref.KLogic, Op: op, L: x, R: y}
		}
		return x
	}
	not := func(x *ref.E) *ref.E { return &ref.E{K: ref.KNot, L: x} }
	switch kind {
	case "and_before":
		return lg("and", cmp(id, "gt", 1), e)
	case "and_after":
		return lg("and", e, cmp(id, "gt", 1))
	case "and_both":
		return lg("and", cmp(id, "gt", 1), e, cmp(hits, "lte", 1))
	case "or":
		return lg("or", cmp(id, "eq", 1), e)
	case "or_after":
		return lg("or", e, cmp(id, "eq", 1))
	case "not":
		return not(e)
	case "and_or":
		return lg("and", lg("or", e, cmp(hits, "eq", 1)), cmp(id, "gt", 1))
	case "or_and":
		return lg("or", lg("and", e, cmp(id, "gt", 1)), cmp(hits, "eq", 2))
	case "not_and":
		return lg("and", cmp(id, "gt", 1), not(lg("and", e, cmp(hits, "lte", 1))))
	}
	return e
}

// expectEnt evaluates the reference for an ent statement.
func (w *World) expectEnt(o *OpRun) {
	t := Tables[o.Op.Model]
	if o.V.Unsure || o.V.Reject {
		o.snaps = append(o.snaps, snap{txt: "unsure"})
		return
	}
	var e *ref.E
	for _, c := range o.V.Conds {
		if e == nil {
			e = c
		} else {
			e = &ref.E{K: ref.KLogic, Op: "and", L: e, R: c}
		}
	}
	if e == nil {
		e = &ref.E{K: ref.KBool, B: true}
	}
	if len(o.V.Conds) > 0 || o.Op.Kind == "entsql" {
		e = composeRef(o.Op.Compose, e)
	}
	var rows []Row
	memo := edgeMemo{}
	for _, row := range w.srv.state[t.Name] {
		ok, err := entEnv(w.srv.state, t, row, NotBetweenAnd, memo).True(e)
		if err != nil {
			o.V.Unsure, o.V.MayFail = true, true
			o.snaps = append(o.snaps, snap{txt: "unsure"})
			return
		}
		if ok {
			rows = append(rows, row)
		}
	}
	o.snaps = append(o.snaps, snap{rows: cloneRows(rows)})
}

// NotBetweenAnd says that the ent builders join the two halves of "not between"
// with AND. The repository's own tests pin this; see the known findings.
var NotBetweenAnd bool

func entOwn(o *OpRun) string {
	if o.Op.Kind == "entsql" {
		return "C08"
	}
	return "C09"
}

func (w *World) entOp(o *OpRun) {
	op := o.Op
	t := Tables[op.Model]
	switch op.Kind {
	case "entsql":
		o.V = EntSQLVerdict(t, op.Text)
		if op.NoModel != "" {
			for _, e := range o.V.Conds {
				e.Walk(func(x *ref.E) {
					if x.K == ref.KFunc && x.Name == "has_edge" {
						o.V.reject("edge of no node")
					}
				})
			}
		}
	case "entql":
		o.V = EntQLVerdict(t, op.Text)
	case "entqllist":
		for _, x := range op.Texts {
			if x == "" {
				continue
			}
			v := EntQLVerdict(t, x)
			o.V.Conds = append(o.V.Conds, v.Conds...)
			o.V.MayFail = o.V.MayFail || v.MayFail
			o.V.Unsure = o.V.Unsure || v.Unsure
			if v.Reject {
				o.V.Reject, o.V.Why = true, v.Why
				break
			}
		}
	}
	evaluable := true
	if op.Kind != "entsql" {
		for _, e := range o.V.Conds {
			evaluable = evaluable && entqlEvaluable(e)
		}
		if !evaluable {
			o.V.MayFail = true
		}
	}
	own := entOwn(o)
	props := []string{own}
	if len(w.plan.Clients) > 1 {
		props = append(props, "C05")
	}
	w.e.first[op.Kind+op.Text]++
	if w.e.first[op.Kind+op.Text] > 1 {
		props = append(props, "C06")
	}
	tab := sql.Table(op.Model).Schema(op.schema())
	b := sql.Dialect(entDialect(op))
	sel := b.Select("*").From(tab)
	var err error
	var mb *entmq.MiniQLToEntSQLBuilder
	switch op.Kind {
	case "entsql":
		mb = w.entBuilder(op, op.Text)
		p := sql.P(func(b *sql.Builder) {
			if op.Embed {
				mb.SQLBuilder = b
				mb.SetDialect(b.Dialect())
				mb.Query()
				if err := mb.Err(); err != nil {
					b.AddError(err)
				}
				return
			}
			b.Join(mb)
		})
		compose(op.Compose, tab, sel, p)
	case "entql", "entqllist":
		err = w.entqlPred(o, tab, sel, props)
		if err == errSkip {
			return
		}
	}
	var q string
	var args []any
	if err == nil {
		sel.OrderBy(tab.C(t.Cols[0].Name))
		q, args = sel.Query()
		err = sel.Err()
		if err == nil && mb != nil {
			// ent does not collect the errors of nested predicates
			err = mb.Err()
		}
	}
	if op.Kind == "entsql" && op.Repeat > 0 && !op.Embed {
		w.entRepeat(o)
	}
	if op.Kind == "entsql" && op.Reuse != "" && !op.Embed {
		w.entReuse(o)
	}
	if err != nil {
		o.Err = err
		if o.V.Reject {
			w.non(o)
			w.probe("ent_refused")
			return
		}
		if !o.V.MayFail {
			w.violate(o, "refused-valid", props, "filter %q on %s: refused: %v", o.texts(), o.desc(), err)
		}
		return
	}
	if o.V.Reject {
		w.non(o)
		w.violate(o, "refused-no-error", props, "filter %q on %s must be refused (%s) but was rendered as %q", o.texts(), o.desc(), o.V.Why, q)
		return
	}
	if op.Kind == "entsql" && op.Dialect == "postgres" && op.NoCast {
		for _, t := range lexSQL(q) {
			if t.text == "::" {
				w.violate(o, "cast", props[:1], "filter %q on %s: casts are disabled, but %q has one", o.texts(), o.desc(), q)
				return
			}
		}
	}
	if op.Kind == "entsql" && op.Dialect == "postgres" && !o.V.Unsure {
		asked := false
		for _, e := range o.V.Conds {
			asked = asked || bareDate(e, true)
		}
		if !asked && sqlBareDate(q) {
			w.violate(o, "not-boolean", props[:1], "filter %q on %s: %q uses a date as a condition", o.texts(), o.desc(), q)
			return
		}
	}
	w.entRun(o, q, args, props)
}

// bareDate says whether the filter itself uses a date as a condition.
func bareDate(e *ref.E, truth bool) bool {
	if e == nil {
		return false
	}
	switch e.K {
	case ref.KFunc:
		if e.Name == "date" {
			return truth
		}
		return len(e.Args) == 2 && bareDate(e.Args[1], true)
	case ref.KLogic, ref.KNot:
		return bareDate(e.L, true) || bareDate(e.R, true)
	}
	for _, a := range append([]*ref.E{e.L, e.R}, e.Args...) {
		if bareDate(a, false) {
			return true
		}
	}
	return false
}

// sqlBareDate looks for a date between two words that join conditions, which
// Postgres refuses.
func sqlBareDate(q string) bool {
	var l []string
	for _, t := range lexSQL(q) {
		if t.kind != tkSpace {
			l = append(l, strings.ToUpper(t.text))
		}
	}
	between := strings.Contains(strings.ToUpper(q), "BETWEEN")
	for i := 1; i+1 < len(l); i++ {
		if l[i] != "DATE" || l[i+1] != "(" {
			continue
		}
		switch l[i-1] {
		case "WHERE", "OR", "NOT":
		case "AND":
			if between {
				continue
			}
		default:
			continue
		}
		j, depth := i+1, 0
		for ; j < len(l); j++ {
			if l[j] == "(" {
				depth++
			} else if l[j] == ")" {
				if depth--; depth == 0 {
					break
				}
			}
		}
		if j+1 >= len(l) || l[j+1] == "AND" || l[j+1] == "OR" || l[j+1] == ")" || l[j+1] == "ORDER" {
			return true
		}
	}
	return false
}

func (w *World) entRun(o *OpRun, q string, args []any, props []string) {
	var rows *stdsql.Rows
	var err error
	keepQ, keepA := strings.Clone(q), append([]any(nil), args...)
	if o.ctx != nil {
		rows, err = w.db.QueryContext(o.ctx, q, args...)
	} else {
		rows, err = w.db.Query(q, args...)
	}
	if err == nil {
		for rows.Next() {
			row := make(Row, len(Tables[o.Op.Model].Cols))
			dest := make([]any, len(row))
			vals := make([]any, len(row))
			for i := range vals {
				dest[i] = &vals[i]
			}
			if err = rows.Scan(dest...); err != nil {
				break
			}
			for i := range vals {
				if row[i], err = toVal(vals[i]); err != nil {
					break
				}
			}
			o.rows = append(o.rows, row)
		}
		if err == nil {
			err = rows.Err()
		}
		_ = rows.Close()
	}
	if keepQ != q || !reflect.DeepEqual(keepA, args) {
		w.violate(o, "returned-changed", []string{"C06", "C05"}, "returned SQL or arguments changed")
	}
	if err != nil {
		o.Err = err
		if !o.excused && !o.V.MayFail {
			w.violate(o, "refused-valid", props, "filter %q on %s: %q fails without a fault: %v", o.texts(), o.desc(), q, err)
		}
		return
	}
	if o.V.NoColumn {
		w.non(o)
		w.violate(o, "foreign-column", props[:1], "filter %q on %s names a column the edge's table does not have, but %q found one", o.texts(), o.desc(), q)
		return
	}
	if len(o.snaps) == 0 {
		w.violate(o, "not-executed", props, "no statement reached the database")
		return
	}
	s := o.snaps[len(o.snaps)-1]
	if s.txt != "" {
		return
	}
	if n := len(s.rows); n > 0 && n < len(w.srv.state[o.Op.Model]) {
		w.non(o)
	}
	var a, b []string
	for _, r := range o.rows {
		a = append(a, r.String())
	}
	for _, r := range s.rows {
		b = append(b, r.String())
	}
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		w.violate(o, "read-rows", props, "filter %q on %s: got rows %s, expected %s; statement %q", o.texts(), o.desc(), ids(o.rows), ids(s.rows), q)
	}
}

// entRepeat renders one builder several times.
func (w *World) entRepeat(o *OpRun) {
	op := o.Op
	mb := w.entBuilder(op, op.Text)
	mb.SetDialect(entDialect(op))
	q1, a1 := mb.Query()
	keep := append([]any(nil), a1...)
	e1 := errText(mb.Err())
	for i := 0; i < op.Repeat; i++ {
		q2, a2 := mb.Query()
		w.non(o)
		if e1 == "nil" && mb.Err() != nil || e1 != "nil" && mb.Err() == nil {
			w.violate(o, "repeat", []string{"C06"}, "filter %q: rendering again changes the error from %s to %v", o.texts(), e1, mb.Err())
			return
		}
		if e1 != "nil" {
			continue
		}
		if q1 != q2 || !sameArgs(keep, a2) {
			w.violate(o, "repeat", []string{"C06"}, "filter %q: rendered again %q %v, first %q %v", o.texts(), q2, a2, q1, keep)
			return
		}
		if !sameArgs(keep, a1) {
			w.violate(o, "repeat", []string{"C06"}, "filter %q: arguments returned first were changed from %v to %v", o.texts(), keep, a1)
			return
		}
	}
}

// entReuse renders one builder for a text after it was used for another.
func (w *World) entReuse(o *OpRun) {
	op := o.Op
	fresh := w.entBuilder(op, op.Text)
	fresh.SetDialect(entDialect(op))
	q1, a1 := fresh.Query()
	mb := w.entBuilder(op, op.Reuse)
	mb.SetDialect(entDialect(op))
	if mb.Query(); mb.Err() != nil {
		return // ent keeps the errors of a builder
	}
	mb.QueryString = op.Text
	q2, a2 := mb.Query()
	w.non(o)
	if (fresh.Err() == nil) != (mb.Err() == nil) {
		w.violate(o, "reuse", []string{"C06"}, "filter %q: error is %v on a builder used for %q before, %v on a new one", o.texts(), mb.Err(), op.Reuse, fresh.Err())
		return
	}
	if fresh.Err() == nil && (q1 != q2 || !sameArgs(a1, a2)) {
		w.violate(o, "reuse", []string{"C06"}, "filter %q: rendered %q %v on a builder used for %q before, %q %v on a new one", o.texts(), q2, a2, op.Reuse, q1, a1)
	}
}

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%T%v", a[i], a[i]) != fmt.Sprintf("%T%v", b[i], b[i]) {
			return false
		}
	}
	return true
}

var errSkip = fmt.Errorf("sim: skip")

type whereRec struct{ l []entql.P }

func (r *whereRec) Where(p entql.P) { r.l = append(r.l, p) }

// entqlPred builds the predicate(s) and evaluates them on the selector.
func (w *World) entqlPred(o *OpRun, tab *sql.SelectTable, sel *sql.Selector, props []string) error {
	op := o.Op
	var preds []entql.P
	if op.Kind == "entql" {
		p, err := entmq.BuildEntQL(op.Text)
		if err != nil {
			return err
		}
		if op.Text == "" {
			if !nilP(p) {
				w.violate(o, "empty-filter", props[:1], "an empty filter gave predicate %v", p)
			}
			return errSkip
		}
		if nilP(p) {
			w.violate(o, "empty-predicate", props, "filter %q: built an empty predicate without error", op.Text)
			return errSkip
		}
		preds = append(preds, p)
	} else {
		rec := &whereRec{}
		err := entmq.ApplyEntQL(rec, w.lend(op.Texts))
		want := len(o.V.Conds)
		if !o.V.Unsure {
			w.non(o)
			if err != nil {
				// the refused one is parsed but not applied
				n := 0
				for _, x := range op.Texts {
					if x == "" {
						continue
					}
					v := EntQLVerdict(Tables[op.Model], x)
					if v.Reject || v.MayFail && n == len(rec.l) {
						break
					}
					n++
				}
				want = n
			}
			if len(rec.l) != want {
				w.violate(o, "apply-count", props[:1], "list %q: %d predicates applied, expected %d (err %v)", op.Texts, len(rec.l), want, err)
				return errSkip
			}
		}
		for _, p := range rec.l {
			if nilP(p) {
				w.violate(o, "empty-predicate", props, "list %q: an empty predicate was applied", op.Texts)
				return errSkip
			}
		}
		if err != nil {
			return err
		}
		preds = rec.l
	}
	if o.V.Reject || o.V.Unsure {
		// not evaluated: ent panics on operands that are not predicates
		if o.V.Reject {
			return nil
		}
		return errSkip
	}
	inner := sql.Dialect(sel.Dialect()).Select().From(tab)
	for _, p := range preds {
		if err := w.evalP(op.Model, p, inner); err != nil {
			w.non(o)
			w.violate(o, "not-evaluable", props[:1], "filter %q on %s: a predicate was built, but evaluating it fails: %v", o.texts(), op.Model, err)
			return errSkip
		}
	}
	if p := inner.P(); p != nil {
		compose(op.Compose, tab, sel, p)
	}
	return nil
}

// evalP evaluates a predicate on the graph; ent panics on some it does not expect.
func (w *World) evalP(model string, p entql.P, sel *sql.Selector) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return w.e.graph.EvalP(model, p, sel)
}

func nilP(p entql.P) bool {
	if p == nil {
		return true
	}
	v := reflect.ValueOf(p)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
