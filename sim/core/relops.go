package core

import (
	"reflect"
	"sort"
	"strings"

	"gorm.io/gorm"

	"verifsim/ref"
)

// Operations that read related rows: the filter belongs to the related model.

// relPhase is the number of statements in front of the filtered one.
func (o *OpRun) relPhase() int {
	switch {
	case o.Op.Kind != "preload":
		return 0
	case o.Op.Rel == "Groups":
		return 2
	}
	return 1
}

func (w *World) relOp(o *OpRun, env any) {
	op := o.Op
	t := Tables[op.Model]
	if op.Handle == "dry" {
		return
	}
	parents := newSlice(op.Model)
	bare := *op
	bare.Uses = nil
	if op.Kind == "preload" {
		o.Op = &bare
		db := w.chain(o, env)
		o.Op = op
		rt := t.Rel(op.Rel).Table
		db = db.Preload(op.Rel, func(tx *gorm.DB) *gorm.DB {
			for _, u := range op.Uses {
				tx = w.attach(tx, rt, rt, u)
			}
			return tx
		})
		res := db.Find(parents)
		o.Err = res.Error
		o.rows = rowsOf(t, parents)
		o.related = related(parents, t, op.Rel)
		w.judge(o)
		return
	}
	// the caller read the parent some time before
	all := w.srv.state[op.table()]
	if len(all) == 0 {
		return
	}
	o.parentRow = all[int(op.Parent)%len(all)]
	model := newModel(op.Model)
	v := reflect.ValueOf(model).Elem()
	for i, c := range t.Cols {
		f := v.FieldByName(c.Go)
		if c.T != 'k' && !strings.HasSuffix(c.Name, "_id") || o.parentRow[i].K != ref.VInt {
			continue
		}
		if f.Kind() == reflect.Pointer {
			n := o.parentRow[i].I
			f.Set(reflect.ValueOf(&n))
		} else {
			f.SetInt(o.parentRow[i].I)
		}
	}
	db := w.g.handles[op.Handle]
	if op.Handle == "where" || op.Handle == "model" {
		db = w.g.root
	}
	if tx, ok := env.(*gorm.DB); ok && tx != nil {
		db = tx
	}
	if o.ctx != nil && o.parent == nil {
		db = db.WithContext(o.ctx)
	}
	db = db.Model(model)
	if op.PreErr {
		_ = db.AddError(errPre)
	}
	if op.Unscoped {
		db = db.Unscoped()
	}
	for _, u := range op.Uses {
		if u.Shared > 0 {
			db = db.Scopes(w.g.shared[u.Shared-1])
		} else {
			db = db.Scopes(makeScope(u, w.lend))
		}
	}
	a := db.Association(op.Rel)
	if op.Kind == "assoccount" {
		o.n = a.Count()
		o.Err = a.Error
	} else {
		dest := newSlice(t.Rel(op.Rel).Table)
		o.Err = a.Find(dest)
		o.rows = rowsOf(Tables[t.Rel(op.Rel).Table], dest)
	}
	w.judge(o)
}

// related lists the related rows of each parent.
func related(parents any, t *Table, rel string) [][]Row {
	rt := Tables[t.Rel(rel).Table]
	v := reflect.ValueOf(parents).Elem()
	out := make([][]Row, v.Len())
	for i := range out {
		f := v.Index(i).FieldByName(rel)
		switch {
		case f.Kind() == reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				out[i] = append(out[i], rowOf(rt, f.Index(j)))
			}
		case !f.IsNil():
			out[i] = []Row{rowOf(rt, f.Elem())}
		}
	}
	return out
}

// expectRel records what the next statement of a relation read must return.
func (w *World) expectRel(o *OpRun) {
	t := Tables[o.Op.Model]
	st := w.srv.state
	n := len(o.snaps)
	if n < o.relPhase() {
		if n == 0 {
			rows, err := w.readRows(o, false)
			if err != nil {
				panic(harnessPanic("parents: " + err.Error()))
			}
			o.snaps = append(o.snaps, snap{rows: rows})
		} else {
			o.snaps = append(o.snaps, snap{rows: cloneRows(st["account_groups"])})
		}
		return
	}
	if n > o.relPhase() || o.V.Unsure || o.V.Reject {
		o.snaps = append(o.snaps, snap{txt: "unsure"})
		return
	}
	r := t.Rel(o.Op.Rel)
	rt := Tables[r.Table]
	var out []Row
	for _, row := range st[r.Table] {
		if d := rt.Idx("deleted_at"); d >= 0 && row[d].K != ref.VNull && !o.Op.Unscoped {
			continue
		}
		env := gormEnv(st, rt, row, o.Op.Unscoped)
		ok := true
		for _, e := range o.V.Conds {
			m, err := env.True(e)
			if err != nil {
				o.V.Unsure, o.V.MayFail = true, true
				o.snaps = append(o.snaps, snap{txt: "unsure"})
				return
			}
			ok = ok && m
		}
		if ok {
			out = append(out, row)
		}
	}
	if o.Op.Kind != "preload" {
		out = relatedTo(out, t, r, o.parentRow, st["account_groups"])
	}
	if len(out) > 0 && len(out) < len(st[r.Table]) {
		w.non(o)
	}
	o.snaps = append(o.snaps, snap{rows: cloneRows(out)})
}

// relatedTo picks the rows related to a parent.
func relatedTo(rows []Row, t *Table, r *Rel, parent Row, links []Row) []Row {
	var out []Row
	rt := Tables[r.Table]
	for _, row := range rows {
		ok := false
		switch {
		case r.Name == "Groups":
			for _, l := range links {
				ok = ok || l[1] == parent[0] && l[2] == row[0]
			}
		case r.HasOne || r.Many:
			ok = row[rt.Idx(r.FK)] == parent[0]
		default:
			ok = row[0] == parent[t.Idx(r.FK)]
		}
		if ok {
			out = append(out, row)
		}
	}
	return out
}

// relDue reports whether the filtered statement had to be issued.
func (o *OpRun) relDue() bool {
	if o.Op.Kind != "preload" {
		return true
	}
	if len(o.snaps) < o.relPhase() {
		return false
	}
	t := Tables[o.Op.Model]
	r := t.Rel(o.Op.Rel)
	for _, p := range o.snaps[0].rows {
		switch {
		case r.Name == "Groups":
			for _, l := range o.snaps[1].rows {
				if l[1] == p[0] {
					return true
				}
			}
		case r.HasOne || r.Many:
			return true
		default:
			if p[t.Idx(r.FK)].K != ref.VNull {
				return true
			}
		}
	}
	return false
}

// judgeRel checks the rows of a successful relation read.
func (w *World) judgeRel(o *OpRun) {
	op := o.Op
	t := Tables[op.Model]
	r := t.Rel(op.Rel)
	ph := o.relPhase()
	if op.Kind == "preload" {
		if len(o.snaps) == 0 {
			w.violate(o, "not-executed", w.rowProps(o, "C02"), "the read reported success but no statement was executed")
			return
		}
		w.compareRows(o, o.rows, o.snaps[0].rows, op.Order != "")
		if len(o.snaps) <= ph && !o.relDue() {
			return
		}
	}
	if len(o.snaps) != ph+1 {
		w.violate(o, "not-executed", w.rowProps(o, "C02"), "%s of %s: %d statements were executed, %d expected", op.Kind, op.Rel, len(o.snaps), ph+1)
		return
	}
	s := o.snaps[ph]
	if s.txt != "" {
		return
	}
	switch op.Kind {
	case "assoccount":
		if o.n != int64(len(s.rows)) {
			w.violate(o, "read-rows", w.rowProps(o, "C02"), "filter %q on %s: count %d, expected %d", o.texts(), o.desc(), o.n, len(s.rows))
		}
	case "assoc":
		w.compareRelated(o, nil, o.rows, s.rows)
	case "preload":
		var links []Row
		if r.Name == "Groups" {
			links = o.snaps[1].rows
		}
		for i, p := range o.rows {
			w.compareRelated(o, p, o.related[i], relatedTo(s.rows, t, r, p, links))
		}
	}
}

func (w *World) compareRelated(o *OpRun, parent Row, got, want []Row) {
	a, b := rowSet(got), rowSet(want)
	if a == b {
		return
	}
	id := ""
	if parent != nil {
		id = " of " + parent[0].String()
	}
	w.violate(o, "read-rows", w.rowProps(o, "C02"), "filter %q on %s%s: got rows %s, expected %s", o.texts(), o.desc(), id, ids(got), ids(want))
}

func rowSet(l []Row) string {
	m := map[string]bool{}
	var s []string
	for _, r := range l {
		if x := r.String(); !m[x] {
			m[x] = true
			s = append(s, x)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}
