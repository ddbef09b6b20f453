package core

import (
	"fmt"
	"strconv"
	"strings"

	"gorm.io/gorm"

	"verifsim/simrt"

	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/gormq"
	"github.com/wenerme/go-miniquery/miniquery"
)

// wearOp makes one use over and over: each must give what the first one gave.
func (w *World) wearOp(o *OpRun) {
	op := o.Op
	u := op.Uses[0]
	var f func(*gorm.DB) *gorm.DB
	switch {
	case u.Shared > 0:
		f = w.g.shared[u.Shared-1]
		u = w.plan.Shared[u.Shared-1]
	case u.Via == "wire":
		f = func(db *gorm.DB) *gorm.DB {
			for _, x := range u.Texts {
				db = gormq.WireMiniQuery(db, x)
			}
			return db
		}
	default:
		f = makeScope(u, w.lend)
	}
	o.V = GormVerdict(Tables[op.Model], []Use{u}, nil)
	var first string
	for i := 0; i <= op.Repeat; i++ {
		var got string
		if op.Dialect == "" {
			db := w.g.handles["dry"].Model(newModel(op.Model))
			if u.Now {
				db = f(db)
			} else {
				db = db.Scopes(f)
			}
			res := db.Find(newSlice(op.Model))
			got = "error"
			if res.Error == nil {
				got = fmt.Sprintf("%s %v", res.Statement.SQL.String(), res.Statement.Vars)
			}
		} else {
			got = w.wearPure(op, strings.Join(u.Texts, " "))
		}
		if i == 0 {
			first = got
			if !w.flood(o) {
				return
			}
			continue
		}
		w.non(o)
		if got != first {
			w.violate(o, "worn", []string{"C06"}, "filter %q: use %d gives %s, the first gave %s", o.texts(), i+1, got, first)
			return
		}
	}
	w.log("worn %s", clipStr(first, 60))
}

// floodForms are the texts of a flood: %d makes each of them a new one.
var floodForms = []string{"age = %d", "name = 'x%d'", "(age = %d", "age in [%d", "x%d is null", "not (age > %d or name like 'y')", "age = %d age", "a.b%d = 1", "age between 1 and %d"}

// flood reads many other texts. Those of one form differ by a number only, and
// so must what they are read as.
func (w *World) flood(o *OpRun) bool {
	seen := make([]string, len(floodForms))
	for i := 0; i < o.Op.Many && simrt.Started() < 1500; i++ {
		f := i % len(floodForms)
		num := strconv.Itoa(1_000_000 + i)
		text := strings.Replace(floodForms[f], "%d", num, 1)
		got := "refused"
		if n, err := miniquery.Parse(text); err == nil {
			got = strings.ReplaceAll(Canon(n), num, "#")
		}
		if seen[f] == "" {
			seen[f] = got
		}
		if got != seen[f] {
			w.violate(o, "worn", []string{"C06"}, "filter %q after %d others is read as %s, one like it as %s", text, i, got, seen[f])
			return false
		}
	}
	return true
}

// wearPure gives everything the rest of the library makes of a text.
func (w *World) wearPure(op *Op, text string) string {
	s := ""
	if n, err := miniquery.Parse(text); err == nil {
		s += Canon(n) + n.String()
	}
	if p, err := entmq.BuildEntQL(text); err == nil && !nilP(p) {
		s += p.String()
	}
	e := *op
	e.Model = "accounts"
	mb := w.entBuilder(&e, text)
	mb.SetDialect(entDialect(op))
	q, args := mb.Query()
	if mb.Err() == nil {
		s += fmt.Sprintf("%s %v", q, args)
	}
	return s
}
