package ref

import (
	"strconv"
	"strings"
)

// Render prints a tree as filter text in plain spelling. lit may replace the
// text of a literal; "" keeps it.
func Render(e *E, sp string, lit func(*E) string) string {
	var b strings.Builder
	render(&b, e, sp, lit)
	return b.String()
}

// Quote writes a string literal; ok is false when it has both quotes.
func Quote(s string) (string, bool) {
	if !strings.Contains(s, "'") {
		return "'" + s + "'", true
	}
	if !strings.Contains(s, `"`) {
		return `"` + s + `"`, true
	}
	return "", false
}

var opText = map[string]string{"gt": ">", "gte": ">=", "lt": "<", "lte": "<=", "eq": "=", "neq": "!="}

func render(b *strings.Builder, e *E, sp string, lit func(*E) string) {
	r := func(x *E) { render(b, x, sp, lit) }
	op := func(s string) {
		if t, ok := opText[s]; ok {
			s = t
		}
		b.WriteString(sp + strings.ReplaceAll(s, " ", sp) + sp)
	}
	list := func(l []*E) {
		for i, a := range l {
			if i > 0 {
				b.WriteString("," + sp)
			}
			r(a)
		}
	}
	switch e.K {
	case KLogic, KCmp, KIn:
		r(e.L)
		op(e.Op)
		r(e.R)
	case KNot:
		b.WriteString("not" + sp)
		r(e.L)
	case KParen:
		b.WriteString("(" + sp)
		r(e.L)
		b.WriteString(sp + ")")
	case KPred:
		r(e.L)
		op(e.Op)
	case KBetween:
		r(e.L)
		op(e.Op)
		r(e.Args[0])
		op("and")
		r(e.Args[1])
	case KIdent:
		b.WriteString(e.Name)
	case KRef:
		b.WriteString(strings.Join(e.Names, "."))
	case KFunc:
		b.WriteString(e.Name + "(")
		list(e.Args)
		b.WriteString(")")
	case KArray:
		b.WriteString("[")
		list(e.Args)
		b.WriteString("]")
	default:
		if lit != nil {
			if s := lit(e); s != "" {
				b.WriteString(s)
				return
			}
		}
		switch e.K {
		case KInt:
			b.WriteString(strconv.FormatInt(e.I, 10))
		case KStr:
			q, _ := Quote(e.S)
			b.WriteString(q)
		case KBool:
			b.WriteString(strconv.FormatBool(e.B))
		case KNull:
			b.WriteString("null")
		}
	}
}
