package core

import (
	"strings"

	"verifsim/ref"
)

// Verdict is what the reference says about the filters of an operation.
type Verdict struct {
	Reject     bool // must be refused before anything is executed
	ListReject bool // because a list member is not a filter by itself
	Why        string
	MayFail    bool // an error of the engine is acceptable
	Unsure     bool // the rows are not defined by the reference
	NoColumn   bool // must fail, at the latest when it is executed
	Conds      []*ref.E
	Joins      map[string]bool
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

// tooDeep says whether the engine may refuse the expression because of its depth:
// its parser has a stack of 100 entries, and the tree a limit of its own.
func tooDeep(e *ref.E) bool { return stackOf(e) > 70 || heightOf(e) > 800 }

// stackOf estimates the parser stack the engine needs. What stands on the left is
// reduced before the rest is read.
func stackOf(e *ref.E) int {
	if e == nil {
		return 0
	}
	d := stackOf(e.L)
	down := func(n int, x *ref.E) { d = max(d, n+stackOf(x)) }
	switch e.K {
	case ref.KLogic, ref.KCmp, ref.KIn:
		down(3, e.R)
	case ref.KNot, ref.KParen:
		d++
	case ref.KBetween:
		d++ // ent writes it as two comparisons
		for i, a := range e.Args {
			down(3+2*i, a)
		}
	case ref.KFunc:
		n := 3
		if e.Name == "has_edge" {
			n = 14
		}
		for _, a := range e.Args {
			down(n, a)
		}
	case ref.KArray:
		for _, a := range e.Args {
			down(3, a)
		}
	}
	return max(d, 1)
}

func heightOf(e *ref.E) int {
	if e == nil {
		return 0
	}
	d := max(heightOf(e.L), heightOf(e.R))
	for _, a := range e.Args {
		d = max(d, heightOf(a))
	}
	return d + 1
}

func (v *Verdict) reject(why string) {
	if !v.Reject {
		v.Reject, v.Why = true, why
	}
}

// add parses one filter text.
func (v *Verdict) add(text string, list bool) {
	e, err := ref.Parse(text)
	if err != nil {
		v.reject(err.Error())
		v.ListReject = v.ListReject || list
		return
	}
	v.Conds = append(v.Conds, e)
}

// GormVerdict classifies the filters of a gorm operation on table t.
func GormVerdict(t *Table, uses []Use, shared []Use) Verdict {
	v := Verdict{Joins: map[string]bool{}}
	for _, u := range uses {
		if u.Shared > 0 && u.Shared <= len(shared) {
			s := shared[u.Shared-1]
			u.Via, u.Texts = s.Via, s.Texts
		}
		switch u.Via {
		case "group", "gscope", "orgroup", "andgroup", "not", "sub":
			for _, x := range u.Texts {
				v.own(t, u.Via, x)
			}
			continue
		}
		if u.Via == "list" {
			if len(u.Texts) == 1 && blank(u.Texts[0]) && u.Texts[0] != "" {
				v.Unsure, v.MayFail = true, true
				continue
			}
			for _, x := range u.Texts {
				if blank(x) {
					continue
				}
				v.add(x, len(u.Texts) > 1)
			}
			continue
		}
		for _, x := range u.Texts {
			if x != "" {
				v.add(x, false)
			}
		}
	}
	lits := 0
	for _, e := range v.Conds {
		if !ref.Sure(e) {
			v.Unsure, v.MayFail = true, true
		}
		if tooDeep(e) {
			v.MayFail = true
		}
		lits += len(e.Literals())
		e.Walk(func(x *ref.E) {
			switch x.K {
			case ref.KIdent:
				i := t.Resolve(x.Name)
				if i < 0 {
					v.reject("no column " + x.Name)
					return
				}
			case ref.KRef:
				if len(x.Names) != 2 {
					v.reject("reference too deep")
					return
				}
				r := t.Rel(x.Names[0])
				if r == nil {
					v.reject("no relation " + x.Names[0])
					return
				}
				if r.Many {
					v.reject("to-many relation " + x.Names[0])
					return
				}
				if Tables[r.Table].Resolve(x.Names[1]) < 0 {
					v.reject("no column " + strings.Join(x.Names, "."))
					return
				}
				v.Joins[r.Name] = true
			case ref.KFunc:
				if x.Name != "date" {
					v.reject("function " + x.Name)
				} else if len(x.Args) != 1 && !ref.KnownDate(x) {
					v.Unsure, v.MayFail = true, true
				}
			}
		})
	}
	if lits > 10000 {
		v.MayFail = true
	}
	return v
}

// own adds a filter that is a condition of its own.
func (v *Verdict) own(t *Table, via, x string) {
	op := "eq"
	if via == "andgroup" {
		op = "gte"
	}
	one := &ref.E{K: ref.KCmp, Op: op, L: &ref.E{K: ref.KIdent, Name: "id"}, R: &ref.E{K: ref.KInt, I: 1}}
	if x == "" {
		if via == "orgroup" || via == "andgroup" {
			v.Conds = append(v.Conds, one)
		}
		return
	}
	w := GormVerdict(t, []Use{{Via: "apply", Texts: []string{x}}}, nil)
	if w.Reject && via == "sub" {
		// gorm drops errors of sub-queries
		v.Unsure, v.MayFail = true, true
		return
	}
	if len(w.Joins) > 0 {
		// the joins stay behind on the handle the condition is taken from
		v.MayFail = true
	}
	if w.Reject {
		v.reject(w.Why)
		return
	}
	e := w.Conds[0]
	switch via {
	case "orgroup":
		e = &ref.E{K: ref.KLogic, Op: "or", L: one, R: &ref.E{K: ref.KParen, L: e}}
	case "andgroup":
		e = &ref.E{K: ref.KLogic, Op: "and", L: one, R: &ref.E{K: ref.KParen, L: e}}
	case "not":
		e = &ref.E{K: ref.KNot, L: &ref.E{K: ref.KParen, L: e}}
	}
	v.Conds = append(v.Conds, e)
}

// gormEnv evaluates names of a gorm filter on a row.
func gormEnv(st State, t *Table, row Row, unscoped bool) *ref.Env {
	return &ref.Env{Col: func(e *ref.E) (ref.Val, ref.Aff, error) {
		if e.K == ref.KIdent {
			i := t.Resolve(e.Name)
			return row[i], t.Cols[i].Aff(), nil
		}
		r := t.Rel(e.Names[0])
		rt := Tables[r.Table]
		i := rt.Resolve(e.Names[1])
		rr := relRow(st, t, row, r, unscoped)
		if rr == nil {
			return ref.Null, rt.Cols[i].Aff(), nil
		}
		return rr[i], rt.Cols[i].Aff(), nil
	}}
}

func relRow(st State, t *Table, row Row, r *Rel, unscoped bool) Row {
	rt := Tables[r.Table]
	var rr Row
	if r.HasOne {
		k := rt.Idx(r.FK)
		for _, x := range st[r.Table] {
			if x[k] == row[0] {
				rr = x
				break
			}
		}
	} else {
		rr = st.Find(r.Table, row[t.Idx(r.FK)])
	}
	if rr == nil {
		return nil
	}
	if d := rt.Idx("deleted_at"); d >= 0 && rr[d].K != ref.VNull && !unscoped {
		return nil
	}
	return rr
}

// entSnake maps a spelled name to a column for the ent SQL builder.
func entResolve(t *Table, name string) (int, bool) {
	for i, c := range t.Cols {
		if name == c.Name || name == snakeToCamel(c.Name, true) || name == snakeToCamel(c.Name, false) {
			return i, true
		}
	}
	return -1, false
}

// EntSQLVerdict classifies a filter for the ent SQL builder.
func EntSQLVerdict(t *Table, text string) Verdict {
	var v Verdict
	v.add(text, false)
	for _, e := range v.Conds {
		if !ref.Sure(e) {
			v.Unsure, v.MayFail = true, true
		}
		if tooDeep(e) || len(e.Literals()) > 10000 {
			v.MayFail = true
		}
		v.entsql(t, e, false)
	}
	return v
}

func (v *Verdict) entsql(t *Table, e *ref.E, edge bool) {
	if e == nil {
		return
	}
	switch e.K {
	case ref.KIdent:
		if _, ok := entResolve(t, e.Name); !ok {
			v.Unsure, v.MayFail = true, true
			v.NoColumn = v.NoColumn || edge
		}
	case ref.KRef:
		v.reject("reference")
	case ref.KPred:
		if strings.HasSuffix(e.Op, "true") || strings.HasSuffix(e.Op, "false") {
			v.reject("operator " + e.Op)
		}
	case ref.KFunc:
		switch e.Name {
		case "date":
			if len(e.Args) != 1 {
				v.reject("date needs one argument")
			}
		case "has_edge":
			if len(e.Args) == 0 || len(e.Args) > 2 {
				v.reject("has_edge arguments")
				return
			}
			if e.Args[0].K == ref.KFunc {
				// has_edge(f(...)): a name is there, but not an edge
				v.reject("edge")
				return
			}
			if e.Args[0].K != ref.KIdent {
				v.reject("edge")
				return
			}
			ed := t.Edge(e.Args[0].Name)
			if ed == nil {
				v.reject("no edge " + e.Args[0].Name)
				return
			}
			if len(e.Args) == 2 {
				switch e.Args[1].K {
				case ref.KIdent, ref.KRef, ref.KInt, ref.KStr, ref.KBool, ref.KNull, ref.KArray:
					v.reject("edge condition is not an expression")
					return
				}
				// ent gives the tables behind all join tables the same alias
				v.entsql(Tables[ed.To], e.Args[1], ed.Kind != "M2M" || !edge)
			}
			return
		default:
			v.reject("function " + e.Name)
		}
	}
	v.entsql(t, e.L, edge)
	v.entsql(t, e.R, edge)
	for _, a := range e.Args {
		v.entsql(t, a, edge)
	}
}

// EntQLBool is set when the known finding about EntQL filters joining two bare
// booleans is present: they are built, but cannot be evaluated.
var EntQLBool bool

// EntQLVerdict classifies a filter for the EntQL builder.
func EntQLVerdict(t *Table, text string) Verdict {
	var v Verdict
	v.add(text, false)
	for _, e := range v.Conds {
		// ent nests chains of and and or
		if tooDeep(e) || heightOf(e) > 60 || len(e.Literals()) > 10000 {
			v.MayFail = true
		}
		v.entqlP(t, e)
		if !entqlEvaluable(e) {
			v.MayFail = true
		}
	}
	return v
}

func (v *Verdict) entqlP(t *Table, e *ref.E) {
	switch e.K {
	case ref.KParen:
		v.entqlP(t, e.L)
	case ref.KNot:
		v.entqlP(t, e.L)
	case ref.KLogic:
		bools := 0
		for _, x := range []*ref.E{e.L, e.R} {
			y := x
			for y.K == ref.KParen {
				y = y.L
			}
			switch y.K {
			case ref.KBool:
				v.MayFail = true
				bools++
			default:
				v.entqlP(t, x)
			}
		}
		if bools == 2 && EntQLBool {
			v.Unsure = true
		}
	case ref.KPred:
		if !strings.HasSuffix(e.Op, "null") {
			v.reject("operator " + e.Op)
			return
		}
		v.entqlOperand(t, e.L)
	case ref.KCmp, ref.KIn:
		if strings.HasSuffix(e.Op, "like") {
			v.reject("operator " + e.Op)
			return
		}
		v.entqlOperand(t, e.L)
		v.entqlOperand(t, e.R)
		if e.K == ref.KIn && len(e.R.Args) == 0 {
			v.Unsure, v.MayFail = true, true
		}
	case ref.KBetween:
		v.entqlOperand(t, e.L)
		v.entqlOperand(t, e.Args[0])
		v.entqlOperand(t, e.Args[1])
		if e.Args[0].K == ref.KArray || e.Args[1].K == ref.KArray {
			v.Unsure, v.MayFail = true, true
		}
	case ref.KFunc, ref.KRef:
		v.reject("not supported")
	default:
		v.reject("not a predicate")
	}
}

// entqlOperand looks at an operand of a comparison: ent evaluates only a field
// on the left and a field or value on the right, everything else fails when the
// predicate is evaluated.
func (v *Verdict) entqlOperand(t *Table, e *ref.E) {
	switch e.K {
	case ref.KParen:
		v.entqlOperand(t, e.L)
	case ref.KIdent:
		if t.Idx(e.Name) < 0 {
			v.Unsure, v.MayFail = true, true
		}
	case ref.KInt, ref.KStr, ref.KBool, ref.KNull:
	case ref.KArray:
	case ref.KFunc, ref.KRef:
		v.reject("not supported")
	default:
		v.MayFail = true
		// a predicate as operand: its own parts still have to be supported
		v.entqlP(t, e)
	}
}

// entqlEvaluable reports whether ent can evaluate all comparisons.
func entqlEvaluable(e *ref.E) bool {
	ok := true
	op := func(x *ref.E) *ref.E {
		for x.K == ref.KParen {
			x = x.L
		}
		return x
	}
	e.Walk(func(x *ref.E) {
		switch x.K {
		case ref.KCmp:
			r := op(x.R).K
			if op(x.L).K != ref.KIdent || r == ref.KArray {
				ok = false
			}
		case ref.KIn, ref.KBetween, ref.KPred:
			if op(x.L).K != ref.KIdent {
				ok = false
			}
		}
	})
	return ok
}

// edgeMemo remembers conditions of edges per row: without it edges of edges
// take time exponential in their depth.
type (
	edgeMemo map[edgeKey]edgeResult
	edgeKey  struct {
		cond *ref.E
		row  *ref.Val
	}
	edgeResult struct {
		ok  bool
		err error
	}
)

// entEnv evaluates names and edges of an ent filter on a row.
func entEnv(st State, t *Table, row Row, notBetweenAnd bool, memo edgeMemo) *ref.Env {
	env := &ref.Env{NotBetweenAnd: notBetweenAnd}
	env.Col = func(e *ref.E) (ref.Val, ref.Aff, error) {
		if e.K != ref.KIdent {
			return ref.Null, 0, ref.ErrUnsure
		}
		i, ok := entResolve(t, e.Name)
		if !ok {
			return ref.Null, 0, ref.ErrUnsure
		}
		return row[i], t.Cols[i].Aff(), nil
	}
	env.Edge = func(name string, cond *ref.E) (ref.Val, error) {
		ed := t.Edge(name)
		if ed == nil {
			return ref.Null, ref.ErrUnsure
		}
		tt := Tables[ed.To]
		for _, x := range st[ed.To] {
			if !linked(st, t, row, ed, tt, x) {
				continue
			}
			if cond == nil {
				return ref.Int(1), nil
			}
			k := edgeKey{cond, &x[0]}
			r, known := memo[k]
			if !known {
				r.ok, r.err = entEnv(st, tt, x, notBetweenAnd, memo).True(cond)
				memo[k] = r
			}
			ok, err := r.ok, r.err
			if err != nil {
				return ref.Null, err
			}
			if ok {
				return ref.Int(1), nil
			}
		}
		if cond == nil && (ed.Kind == "M2O" || ed.Kind == "O2OI") {
			// ent tests the foreign key itself
			return ref.Bool(row[t.Idx(ed.FK)].K != ref.VNull), nil
		}
		if cond == nil && ed.Kind == "M2M" {
			// and the rows of the join table
			a := Tables[ed.Join].Idx(ed.A)
			for _, j := range st[ed.Join] {
				if j[a] == row[0] {
					return ref.Int(1), nil
				}
			}
		}
		return ref.Int(0), nil
	}
	return env
}

func linked(st State, t *Table, row Row, ed *Edge, tt *Table, x Row) bool {
	switch ed.Kind {
	case "M2O", "O2OI":
		return row[t.Idx(ed.FK)] == x[0]
	case "O2M", "O2O":
		return x[tt.Idx(ed.FK)] == row[0]
	case "M2M":
		jt := Tables[ed.Join]
		a, b := jt.Idx(ed.A), jt.Idx(ed.B)
		for _, j := range st[ed.Join] {
			if j[a] == row[0] && j[b] == x[0] {
				return true
			}
		}
	}
	return false
}
