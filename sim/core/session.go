package core

import (
	"context"

	"fmt"
	"reflect"
	"sort"
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/clause"
)

// sessionOptions gives the handle the session options of the operation.
func (w *World) sessionOptions(db *gorm.DB, op *Op) *gorm.DB {
	for _, k := range op.Sess {
		switch k {
		case "hooks":
			db = db.Session(&gorm.Session{SkipHooks: true})
		case "fields":
			db = db.Session(&gorm.Session{QueryFields: true})
		case "notx":
			db = db.Session(&gorm.Session{SkipDefaultTransaction: true})
		case "nonested":
			db = db.Session(&gorm.Session{DisableNestedTransaction: true})
		case "global":
			db = db.Session(&gorm.Session{AllowGlobalUpdate: true})
		case "batch":
			db = db.Session(&gorm.Session{CreateBatchSize: 7})
		case "save":
			db = db.Session(&gorm.Session{FullSaveAssociations: true})
		case "unscoped":
			db = db.Session(&gorm.Session{PropagateUnscoped: true})
		case "set":
			db = db.Set("sim:key", 42)
		case "preload":
			// only looked at, as nothing is executed
			if op.Kind == "find" && op.Handle == "dry" {
				for _, r := range Tables[op.Model].Rels {
					db = db.Preload(r.Name)
				}
			}
		case "columns":
			db = db.MapColumns(map[string]string{"nick": "nick"})
		case "lock":
			// no locks in the engine: only looked at
			if op.Kind == "find" && op.Handle == "dry" {
				db = db.Clauses(clause.Locking{Strength: "UPDATE", Options: "NOWAIT"})
			}
		case "omit":
			db = db.Omit("nick", "nothing")
		}
	}
	return db
}

func (o *Op) sess(k string) bool {
	for _, x := range o.Sess {
		if x == k {
			return true
		}
	}
	return false
}

// sessionState is what a filter must leave as it is.
type sessionState struct {
	ctx     context.Context
	table   string
	pool    gorm.ConnPool
	err     error
	model   any
	dest    any
	clauses map[string]clause.Clause
	l       []string // flags and settings
	joins   []string
}

func stateOf(db *gorm.DB) sessionState {
	s := db.Statement
	st := sessionState{ctx: s.Context, table: s.Table, pool: s.ConnPool, err: db.Error, model: s.Model, dest: s.Dest, clauses: map[string]clause.Clause{}}
	for k, c := range s.Clauses {
		if k != "WHERE" && k != "FROM" {
			st.clauses[k] = c
		}
	}
	add := func(k string, v any) { st.l = append(st.l, fmt.Sprintf("%s=%v", k, v)) }
	add("DryRun", db.DryRun)
	add("PrepareStmt", db.PrepareStmt)
	add("SkipDefaultTransaction", db.SkipDefaultTransaction)
	add("DisableNestedTransaction", db.DisableNestedTransaction)
	add("AllowGlobalUpdate", db.AllowGlobalUpdate)
	add("FullSaveAssociations", db.FullSaveAssociations)
	add("PropagateUnscoped", db.PropagateUnscoped)
	add("QueryFields", db.QueryFields)
	add("CreateBatchSize", db.CreateBatchSize)
	add("TranslateError", db.TranslateError)
	add("Logger", fmt.Sprintf("%T %p", db.Logger, db.Logger))
	add("SkipHooks", s.SkipHooks)
	add("Unscoped", s.Unscoped)
	add("Distinct", s.Distinct)
	add("Selects", fmt.Sprintf("%q", s.Selects))
	add("ColumnMapping", s.ColumnMapping)
	if s.TableExpr != nil {
		add("TableExpr", s.TableExpr.SQL)
	}
	add("Omits", fmt.Sprintf("%q", s.Omits))
	add("RaiseErrorOnNotFound", s.RaiseErrorOnNotFound)
	var l []string
	for k := range s.Preloads {
		l = append(l, "preload "+k)
	}
	s.Settings.Range(func(k, v any) bool {
		if x, ok := k.(string); ok {
			l = append(l, fmt.Sprintf("setting %s=%v", x, v))
		}
		return true
	})
	sort.Strings(l)
	st.l = append(st.l, l...)
	for _, j := range s.Joins {
		st.joins = append(st.joins, fmt.Sprintf("%s %v %v", j.Name, j.Conds, j.JoinType))
	}
	return st
}

func same(a, b any) bool {
	if a == nil {
		return true
	}
	t := reflect.TypeOf(a)
	return t == reflect.TypeOf(b) && (!t.Comparable() || a == b)
}

// keepSession applies a filter and looks whether the session stays what it was.
func (w *World) keepSession(db *gorm.DB, f func(*gorm.DB) *gorm.DB) *gorm.DB {
	a := stateOf(db)
	out := f(db)
	o := w.curOp()
	if o == nil || out == nil || o.kept {
		return out
	}
	b := stateOf(out)
	bad := func(format string, args ...any) {
		o.kept = true
		w.violate(o, "session", []string{"C12"}, "filter %q on %s: attaching it changed the session: %s", o.texts(), o.desc(), fmt.Sprintf(format, args...))
	}
	switch {
	case !sameContext(a.ctx, b.ctx):
		bad("another context")
	case a.pool != b.pool:
		bad("another connection or transaction")
	case a.err != nil && (b.err == nil || !strings.Contains(b.err.Error(), a.err.Error())):
		bad("error %v became %v", a.err, b.err)
	case a.table != "" && a.table != b.table:
		bad("table %s became %s", a.table, b.table)
	case !same(a.model, b.model):
		bad("another model")
	case !same(a.dest, b.dest):
		bad("another destination")
	case len(b.joins) < len(a.joins) || fmt.Sprint(b.joins[:len(a.joins)]) != fmt.Sprint(a.joins):
		bad("joins %v became %v", a.joins, b.joins)
	case !reflect.DeepEqual(a.l, b.l):
		for i, x := range a.l {
			if i >= len(b.l) || b.l[i] != x {
				y := "nothing"
				if i < len(b.l) {
					y = b.l[i]
				}
				bad("%s became %s", x, y)
				break
			}
		}
		if !o.kept {
			bad("%v added", b.l[len(a.l):])
		}
	default:
		for k := range a.clauses {
			if !reflect.DeepEqual(a.clauses[k], b.clauses[k]) {
				bad("clause %s changed", k)
				break
			}
		}
		for k := range b.clauses {
			if _, ok := a.clauses[k]; !ok && !o.kept {
				bad("clause %s added", k)
			}
		}
	}
	return out
}

// sameContext reports whether b ends when a ends and carries the caller's value.
func sameContext(a, b context.Context) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Done() != b.Done() || a.Value(ctxKey{}) != b.Value(ctxKey{}) {
		return false
	}
	da, oka := a.Deadline()
	db, okb := b.Deadline()
	return oka == okb && da.Equal(db)
}
