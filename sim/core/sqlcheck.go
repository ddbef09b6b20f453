package core

import (
	"database/sql/driver"
	"fmt"
	"regexp"
	"strings"
	"sync"

	"gorm.io/gorm"

	"verifsim/ref"
	"verifsim/simrt"
)

var keywords = map[string]bool{}
var schemaNames = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`SELECT FROM WHERE AND OR NOT IN IS NULL TRUE FALSE BETWEEN LIKE ORDER BY ASC DESC
		LIMIT OFFSET UPDATE SET DELETE LEFT INNER JOIN ON COUNT DISTINCT DATE EXISTS AS GROUP HAVING`) {
		keywords[k] = true
	}
}

// knownName reports whether a name belongs to the schema.
func knownName(n string) bool {
	namesOnce.Do(func() {
		for _, t := range Tables {
			schemaNames[t.Name] = true
			for _, c := range t.Cols {
				schemaNames[c.Name] = true
				for _, x := range Tables {
					for _, r := range x.Rels {
						if r.Table == t.Name {
							schemaNames[r.Name] = true
							schemaNames[r.Name+"__"+c.Name] = true
						}
					}
				}
			}
		}
	})
	return schemaNames[n]
}

var namesOnce sync.Once

var plainIdent = regexp.MustCompile(`^[A-Za-z0-9_]+$`)

func unquote(s string) string {
	if len(s) >= 2 {
		return s[1 : len(s)-1]
	}
	return s
}

// checkSQL checks one statement text and its arguments.
func (w *World) checkSQL(o *OpRun, q string, args []driver.NamedValue) {
	if o.V.Reject {
		return
	}
	var vals []any
	for _, a := range args {
		vals = append(vals, a.Value)
	}
	w.checkText(o, q, vals)
}

func (w *World) checkDrySQL(o *OpRun, res *gorm.DB) {
	if o.V.Reject {
		return
	}
	var vals []any
	for _, v := range res.Statement.Vars {
		x, err := driver.DefaultParameterConverter.ConvertValue(v)
		if err != nil {
			w.violate(o, "bad-arg", []string{"C04"}, "argument %v (%T) is not accepted by database/sql", v, v)
			return
		}
		vals = append(vals, x)
	}
	w.checkText(o, res.Statement.SQL.String(), vals)
}

func (w *World) checkText(o *OpRun, q string, vals []any) {
	c04 := []string{"C04"}
	ent := strings.HasPrefix(o.Op.Kind, "ent")
	toks := lexSQL(q)
	prev := ""
	for i, t := range toks {
		switch t.kind {
		case tkSpace:
			continue
		case tkComment:
			w.violate(o, "sql-comment", c04, "filter %q: comment in statement %q", o.texts(), q)
			return
		case tkString:
			w.violate(o, "sql-literal", c04, "filter %q: string literal in statement %q", o.texts(), q)
			return
		case tkNum:
			if prev != "LIMIT" && prev != "OFFSET" {
				w.violate(o, "sql-literal", c04, "filter %q: number %s in statement %q", o.texts(), t.text, q)
				return
			}
		case tkPunct:
			if strings.ContainsAny(t.text, ";'\"`#\\") {
				w.violate(o, "sql-separator", c04, "filter %q: %q in statement %q", o.texts(), t.text, q)
				return
			}
		case tkIdent:
			n := unquote(t.text)
			pg := !ent && w.plan.Cfg.PG || ent && o.Op.Dialect == "postgres"
			if (t.text[0] == '"') != pg {
				w.violate(o, "sql-quote", c04, "filter %q: %s in statement %q is not quoted the way of the dialect", o.texts(), t.text, q)
				return
			}
			if !plainIdent.MatchString(n) {
				w.violate(o, "sql-ident", c04, "filter %q: identifier %s in statement %q", o.texts(), t.text, q)
				return
			}
			if !ent && !knownName(n) && !(o.Op.Alias && n == aliasName) {
				w.violate(o, "sql-ident", c04, "filter %q: identifier %s in statement %q is no column, table or relation", o.texts(), t.text, q)
				return
			}
		case tkWord:
			if prev == "::" || o.Op.Alias && (t.text == aliasName || t.text == o.Op.table()) {
				break
			}
			if !keywords[strings.ToUpper(t.text)] && !(o.Op.How == "returning" && t.text == "RETURNING") {
				w.violate(o, "sql-word", c04, "filter %q: bare word %q in statement %q", o.texts(), t.text, q)
				return
			}
		}
		_ = i
		prev = strings.ToUpper(t.text)
	}
	if o.V.Unsure && ent {
		return
	}
	if len(o.snaps) < o.relPhase() {
		return // a statement in front of the filtered one
	}
	var have []any
	for _, v := range vals {
		if v != nil {
			have = append(have, v)
		}
	}
	for _, e := range o.V.Conds {
		want := litSeq(e, 0)
		if len(want) > 0 {
			w.non(o)
		}
		ok := contains(have, want)
		// ent writes between as two comparisons
		for i := 1; i < 3 && ent && !ok; i++ {
			ok = contains(have, litSeq(e, i))
		}
		if !ok {
			w.violate(o, "sql-args", c04, "filter %q: arguments %v do not carry the literals %v in order; statement %q", o.texts(), vals, want, q)
			return
		}
	}
	n := 0
	for _, e := range o.V.Conds {
		n += len(litSeq(e, 0))
	}
	if n > len(have) {
		w.violate(o, "sql-args", c04, "filter %q: %d literals, %d arguments", o.texts(), n, len(have))
	}
}

// litSeq lists the non-null literals in the order they are bound. The left
// operand of between is bound again before the upper bound for twice 1 if it is
// a literal, for twice 2 always.
func litSeq(e *ref.E, twice int) []any {
	var out []any
	var walk func(*ref.E)
	walk = func(x *ref.E) {
		if x == nil {
			return
		}
		switch x.K {
		case ref.KInt:
			out = append(out, x.I)
			return
		case ref.KStr:
			out = append(out, x.S)
			return
		case ref.KBool:
			out = append(out, x.B)
			return
		case ref.KBetween:
			walk(x.L)
			walk(x.Args[0])
			if twice == 2 || twice == 1 && x.L.K.Leaf() {
				walk(x.L)
			}
			walk(x.Args[1])
			return
		}
		walk(x.L)
		walk(x.R)
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(e)
	return out
}

func contains(have, want []any) bool {
	for i := 0; i+len(want) <= len(have); i++ {
		ok := true
		for j := range want {
			if have[i+j] != want[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// shapeOp compares the statement text of a filter with that of the same filter
// in other spelling and with other literals.
func (w *World) shapeOp(o *OpRun) {
	op := o.Op
	t := Tables[op.Model]
	e, err := ref.Parse(op.Text)
	if err != nil {
		return
	}
	r := simrt.NewRand(w.plan.Seed ^ uint64(o.Seq)<<32 ^ 0x5a)
	repl := func(x *ref.E) string {
		switch x.K {
		case ref.KInt:
			return fmt.Sprint(r.Intn(1000000))
		case ref.KStr:
			q, _ := ref.Quote(weirdText[r.Intn(len(weirdText))])
			if q == "" {
				return "'x'"
			}
			return q
		case ref.KBool:
			return [...]string{"true", "false"}[r.Intn(2)]
		}
		return ""
	}
	variants := []string{
		op.Text,
		ref.Render(e, " ", nil),
		ref.Render(e, " ", repl),
		ref.Render(e, " -- ' \" ; x\n", repl),
		ref.Render(e, "\n//) or (1=1\r\n", nil),
	}
	var first string
	for i, v := range variants {
		if i > 0 {
			x, err := ref.Parse(v)
			if err != nil || x.Shape() != e.Shape() {
				panic(harnessPanic(fmt.Sprintf("variant %q of %q: %v", v, op.Text, err)))
			}
		}
		var got string
		if op.Dialect == "" {
			o.V = GormVerdict(t, []Use{{Via: "apply", Texts: []string{v}}}, nil)
			if o.V.Reject {
				return
			}
			dest := newSlice(op.Model)
			res := w.g.handles["dry"].Model(newModel(op.Model)).Scopes(makeScope(Use{Via: "apply", Texts: []string{v}}, copyList)).Find(dest)
			if res.Error != nil {
				got = "error"
			} else {
				got = res.Statement.SQL.String()
				o.Op = &Op{Kind: "find", Model: op.Model, Text: v}
				w.checkDrySQL(o, res)
				o.Op = op
			}
		} else {
			ov := EntSQLVerdict(t, v)
			if ov.Reject {
				return
			}
			mb := w.entBuilder(op, v)
			mb.SetDialect(entDialect(op))
			q, args := mb.Query()
			if mb.Err() != nil {
				got = "error"
			} else {
				got = q
				var vals []any
				for _, a := range args {
					x, err := driver.DefaultParameterConverter.ConvertValue(a)
					if err != nil {
						w.violate(o, "bad-arg", []string{"C04", "C08"}, "argument %v (%T) is not accepted by database/sql: %v", a, a, err)
						return
					}
					vals = append(vals, x)
				}
				o.V = ov
				o.Op = &Op{Kind: "entsql", Model: op.Model, Text: v, Dialect: op.Dialect}
				w.checkText(o, q, vals)
				o.Op = op
			}
		}
		if i == 0 {
			first = got
			continue
		}
		w.non(o)
		if got != first {
			w.violate(o, "sql-shape", []string{"C04"}, "filter %q gives %q, but %q, which differs only in literals and spelling, gives %q", op.Text, first, v, got)
			return
		}
	}
}
