package core

import (
	"fmt"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// Gen generates filter texts over a table.
type Gen struct {
	R            *simrt.Rand
	T            *Table
	Backend      string // gorm entsql entql
	Style        int    // 0 plain, 1 mixed spelling, 2 wild
	Rels         []string
	NoCols       map[string]bool // columns that may not be named without relation
	Weird        int             // chance in 16 of an unusual literal
	Mixed        bool            // allow comparisons across types
	NoNotBetween bool
	big          bool
}

var weirdText = []string{
	"'; drop table accounts; --", "x' or '1'='1", `" or ""="`, "%", "_", "%%", "a_n", "?", "$1", ":name", "@p1", "\\", "\\'", "--", "/*", "*/", ";", "`", "``", "\n", "\t", "\r\n x", "NULL", " ", "😀", "ｆｕｌｌ", "‘quoted’", "1) or (1=1", "{{}}", "%s%d", "\ufeff", "not", "and", "0", "007", "1e3", "a\x00b", "\x00", "\x01", "\x7f", "a\u0301", "\u00e1", "\u2028",
	`a\tb`, `\x41`, `C:\new`, `\u0041`, `\\`, `a\"b`, `\0`, `\n`, `\%`, `\_`, "&amp;", "&#39;", "%41", "%27", "a+b", "$$", "${x}", "#{x}", "{x}", "<b>", "\\141",
}

func (g *Gen) pick(l ...string) string { return l[g.R.Intn(len(l))] }

// ws is optional white space, ws1 is required.
func (g *Gen) ws() string {
	if g.Style == 0 {
		return " "
	}
	if g.R.P(1, 3) {
		return ""
	}
	return g.ws1()
}

func (g *Gen) ws1() string {
	if g.Style == 0 || g.R.P(3, 4) {
		return " "
	}
	if g.Style == 1 {
		return g.pick("  ", "\t", "\n", " \t ", "\r\n", "\r", "\r\n\r\n", "\n\n", " \n\t\n ")
	}
	return g.pick("  ", "\t", "\n", "\r\n", " --note\n", "//c\n", " -- x' \" ;\r\n", "\n//\n", " --\n", " -- or 1=1\r", "\t//(\n ")
}

// kw varies the case of a keyword.
func (g *Gen) kw(s string) string {
	if g.Style == 0 || g.R.P(1, 2) {
		return s
	}
	switch g.R.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	b := []byte(s)
	for i := range b {
		if g.R.P(1, 2) {
			b[i] -= 32 * bool2(b[i] >= 'a' && b[i] <= 'z')
		}
	}
	return string(b)
}

func bool2(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// words joins the words of an operator with required white space.
func (g *Gen) words(exact bool, w ...string) string {
	for i := range w {
		if !exact {
			w[i] = g.kw(w[i])
		}
	}
	s := w[0]
	for _, x := range w[1:] {
		s += g.ws1() + x
	}
	return s
}

func quote(s string) (string, bool) {
	if !strings.Contains(s, "'") {
		return "'" + s + "'", true
	}
	if !strings.Contains(s, `"`) {
		return `"` + s + `"`, true
	}
	return "", false
}

func (g *Gen) str(s string) string {
	if !strings.Contains(s, `"`) && g.R.P(1, 3) {
		return `"` + s + `"`
	}
	q, ok := quote(s)
	if !ok {
		return "'x'"
	}
	return q
}

func (g *Gen) intLit() string {
	if g.R.P(1, 30) {
		return g.pick("9007199254740993", "9007199254740992", "9223372036854775807")
	}
	if g.R.P(g.Weird, 16) {
		return g.pick("9223372036854775807", "2147483648", "2147483647", "4294967296", "9007199254740993", "9007199254740992", "9223372036854775806", "0", "10", "127", "128", "255", "256", "32768", "65535", "65536", "1000000007")
	}
	return strconv.Itoa(g.R.Intn(7))
}

func (g *Gen) textLit() string {
	if g.R.P(1, 60) {
		return g.str(longText(g.R.Intn(3)))
	}
	if g.R.P(g.Weird, 16) {
		return g.str(weirdText[g.R.Intn(len(weirdText))])
	}
	if g.R.P(1, 2) {
		return g.str(sampleText[g.R.Intn(4)])
	}
	return g.str(sampleText[g.R.Intn(len(sampleText))])
}

func (g *Gen) lit(t byte) string {
	if g.Mixed && g.R.P(1, 8) {
		t = "isb"[g.R.Intn(3)]
	}
	if g.R.P(1, 24) {
		return g.pick("null", "NULL")
	}
	switch t {
	case 'i', 'k':
		return g.intLit()
	case 'b':
		return g.pick("true", "false", "TRUE", "FALSE")
	case 't', 'd':
		s := sampleTime[g.R.Intn(len(sampleTime))]
		if g.R.P(1, 2) {
			s = s[:10]
		}
		return g.str(s)
	}
	return g.textLit()
}

func (g *Gen) spell(c Col) string {
	switch g.Backend {
	case "entql":
		return c.Name
	case "entsql":
		switch g.R.Intn(3) {
		case 0:
			return snakeToCamel(c.Name, true)
		case 1:
			return snakeToCamel(c.Name, false)
		}
		return c.Name
	}
	n := []string{c.Name, c.Name, c.Go, strings.ToLower(c.Go), strings.ToUpper(c.Go)}[g.R.Intn(5)]
	return n
}

// snakeToCamel leaves names with digits alone, there is more than one way back.
func snakeToCamel(s string, upper bool) string {
	if strings.ContainsAny(s, "0123456789") {
		return s
	}
	var b strings.Builder
	for i, w := range strings.Split(s, "_") {
		if i == 0 && !upper {
			b.WriteString(w)
		} else {
			b.WriteString(strings.ToUpper(w[:1]) + w[1:])
		}
	}
	return b.String()
}

// field picks a column (or a column of a relation) and its spelling.
func (g *Gen) field(types string) (string, Col, bool) {
	if len(g.Rels) > 0 && g.R.P(1, 2) {
		rn := g.Rels[g.R.Intn(len(g.Rels))]
		rt := Tables[g.T.Rel(rn).Table]
		for i := 0; i < 30; i++ {
			c := rt.Cols[g.R.Intn(len(rt.Cols))]
			if strings.IndexByte(types, c.T) < 0 {
				continue
			}
			s := g.spell(c)
			if j := rt.Resolve(s); j < 0 || rt.Cols[j].Name != c.Name {
				continue
			}
			return rn + "." + s, c, true
		}
	}
	for i := 0; i < 40; i++ {
		c := g.T.Cols[g.R.Intn(len(g.T.Cols))]
		if strings.IndexByte(types, c.T) < 0 || g.NoCols[c.Name] {
			continue
		}
		s := g.spell(c)
		if g.Backend == "gorm" {
			if j := g.T.Resolve(s); j < 0 || g.T.Cols[j].Name != c.Name {
				continue
			}
		}
		return s, c, true
	}
	return "", Col{}, false
}

func (g *Gen) cmp() string {
	sym := g.pick(">", ">=", "<", "<=", "=", "==", "!=", "<>", "=", "=")
	if g.R.P(1, 4) {
		w := g.pick("gt", "gte", "lt", "lte", "eq", "neq")
		return g.ws1() + g.kw(w) + g.ws1()
	}
	return g.ws() + sym + g.ws()
}

// atomOf returns a random comparison-like condition.
func (g *Gen) atom() string {
	for try := 0; try < 20; try++ {
		switch k := g.R.Intn(22); {
		case k < 6:
			f, c, ok := g.field("iksbt")
			if !ok {
				continue
			}
			if g.Backend != "entql" && g.R.P(1, 6) {
				return g.lit(c.T) + g.cmp() + f
			}
			if g.R.P(1, 8) {
				f2, _, ok := g.field(string(c.T))
				if ok {
					return f + g.cmp() + f2
				}
			}
			return f + g.cmp() + g.lit(c.T)
		case k < 9:
			f, c, ok := g.field("iksbt")
			if !ok {
				continue
			}
			n := 1 + g.R.Intn(4)
			if g.big && g.R.P(1, 4) {
				n = 20 + g.R.Intn(60)
			}
			open, cl := "[", "]"
			if g.R.P(1, 2) {
				open, cl = "(", ")"
			}
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, g.lit(c.T))
			}
			s := open + g.ws() + strings.Join(l, g.ws()+","+g.ws())
			if g.R.P(1, 8) {
				s += g.ws() + ","
			}
			op := g.words(false, "in")
			if g.R.P(1, 2) {
				op = g.words(false, "not", "in")
			}
			return f + g.ws1() + op + g.ws() + s + g.ws() + cl
		case k < 11:
			f, c, ok := g.field("iksbt")
			if !ok {
				continue
			}
			op := g.words(true, "between")
			if g.R.P(1, 2) && !g.NoNotBetween {
				op = g.kw("not") + g.ws1() + "between"
			}
			a, b := g.lit(c.T), g.lit(c.T)
			if g.R.P(1, 3) {
				return f + g.ws1() + op + g.ws() + "[" + g.ws() + a + g.ws() + "," + g.ws() + b + g.ws() + "]"
			}
			return f + g.ws1() + op + g.ws1() + a + g.ws1() + g.kw("and") + g.ws1() + b
		case k < 14:
			f, _, ok := g.field("iksbtd")
			if !ok {
				continue
			}
			ops := []string{"isnull", "notnull", "is null", "is not null"}
			if g.Backend == "gorm" {
				ops = append(ops, "is true", "is false", "is not true", "is not false")
			}
			op := ops[g.R.Intn(len(ops))]
			if strings.HasSuffix(op, "true") || strings.HasSuffix(op, "false") {
				if f2, _, ok := g.field("b"); ok {
					f = f2
				}
			}
			return f + g.ws1() + g.words(true, strings.Split(op, " ")...) + g.ws()
		case k < 17:
			if g.Backend == "entql" {
				continue
			}
			f, _, ok := g.field("s")
			if !ok {
				continue
			}
			pat := g.pick("a%", "%n", "%o%", "_ob", "%", "x_y", "%'%", "A__", "%\\%", "50%", "%ü%", "")
			op := g.words(false, "like")
			if g.R.P(1, 2) {
				op = g.words(false, "not", "like")
			}
			return f + g.ws1() + op + g.ws() + g.str(pat)
		case k < 18:
			if g.Backend == "entql" {
				continue
			}
			f, _, ok := g.field(g.pick("t", "t", "td"))
			if !ok {
				continue
			}
			d := "date(" + g.ws() + f + g.ws() + ")"
			if g.Backend == "gorm" && g.R.P(1, 5) {
				d = "date(" + f
				for n := 1 + g.R.Intn(4); n > 0; n-- {
					d += g.ws() + "," + g.ws() + g.str(g.pick("+1 day", "+31 days", "-1 days", "-400 days", "start of month", "start of year"))
				}
				d += ")"
			}
			v := sampleTime[g.R.Intn(len(sampleTime))]
			switch g.R.Intn(7) {
			case 5:
				return d + g.ws1() + g.words(true, strings.Split(g.pick("isnull", "notnull", "is null", "is not null"), " ")...) + g.ws()
			case 6:
				return d + g.ws1() + "between" + g.ws1() + g.str(v[:10]) + g.ws1() + g.kw("and") + g.ws1() + g.str("2024-02-01")
			case 0:
				return g.str(v[:10]) + g.cmp() + d
			case 1:
				return d + g.cmp() + "date(" + g.str(v) + ")"
			case 2:
				return d + g.ws1() + g.words(false, "in") + g.ws() + "[" + g.str(v[:10]) + "," + g.str("2024-01-01") + "]"
			}
			return d + g.cmp() + g.str(v[:10])
		case k < 19:
			if g.Backend == "entql" {
				continue
			}
			f, _, ok := g.field("b")
			if !ok {
				continue
			}
			return f
		default:
			if g.Backend == "entql" {
				continue
			}
			switch g.R.Intn(10) {
			case 0:
				return g.lit('b')
			case 1:
				return g.intLit() + g.cmp() + g.intLit()
			case 2:
				return "(" + g.atom() + ")" + g.cmp() + g.lit('b')
			case 3:
				return g.primary() + g.cmp() + g.primary()
			case 4:
				return g.primary() + g.ws1() + g.words(true, g.pick("isnull", "notnull"))
			case 5:
				return g.primary() + g.ws1() + "between " + g.lit('b') + g.ws1() + g.kw("and") + g.ws1() + g.lit('i')
			case 6:
				op := g.words(false, "in")
				if g.R.P(1, 2) {
					op = g.words(false, "not", "in")
				}
				return g.primary() + g.ws1() + op + g.ws() + "[" + g.lit('b') + "," + g.lit('i') + "]"
			case 7:
				return g.primary() + g.cmp() + g.primary() + g.cmp() + g.lit('b')
			case 8:
				if g.NoNotBetween {
					continue
				}
				return g.primary() + g.ws1() + g.words(true, "not", "between") + g.ws1() + g.lit('i') + g.ws1() + g.kw("and") + g.ws1() + g.lit('b')
			}
			return g.textLit() + g.cmp() + g.textLit()
		}
	}
	f, _, _ := g.field("iksbt")
	return f + " is not null"
}

// primary is any operand of a comparison.
func (g *Gen) primary() string {
	switch g.R.Intn(4) {
	case 0:
		return g.lit("isb"[g.R.Intn(3)])
	case 1:
		if f, _, ok := g.field("iksbt"); ok {
			return f
		}
	case 2:
		if f, _, ok := g.field("t"); ok {
			return "date(" + f + ")"
		}
	}
	return "(" + g.ws() + g.atom() + g.ws() + ")"
}

// nest wraps a condition many times in the same way.
func (g *Gen) nest() string {
	all := []string{"(%s)", "not (%s)", "(%s) between 0 and 1", "(%s) not between 0 and 1", "(%s) in [0,1]", "(%s) not in (0,1)", "(%s) is null", "(%s) notnull", "(%s) = 1", "1 = (%s)", "(%s) like 'a'", "date(%s)", "date(%s, 1)", "f(1, %s)", "(%s) and 1=1", "1=1 or (%s)", "(%s) or age=1 and 2=2", "age = 1 and (%s) or 2 = 2", "(1=1 and %s)", "(not %s)", "(%s) is not true", "not %s", "date(%s", "(%s", "f(%s,", "[%s]", "a.%s", "a->%s", "(%s) = (age)", "(%s,", "(%s) between 0 and", "--%s", "'%s", "has_edge(manager, %s)", "has_edge(reports, %s and age=1)", "has_edge(company, has_edge(staff, %s))", "has_edge(groups, %s) or age=1", "(%s) eq (1=1)", "(%s) isnull = true"}
	k := 1
	if g.R.P(1, 3) {
		k = 2
	}
	var ws []string
	for i := 0; i < k; i++ {
		ws = append(ws, all[g.R.Intn(len(all))])
	}
	s := g.pick("age=1", "age", "1", "age between 1 and 2", "age in [1]", "name like 'a%'", "", "null")
	n := []int{2, 5, 12, 18, 24, 60, 300}[g.R.Intn(7)]
	for i := 0; i < n && len(s) < 60000; i++ {
		s = strings.Replace(ws[i%k], "%s", s, 1)
	}
	return s
}

// term is an operand of and/or.
func (g *Gen) term(depth int) string {
	s := ""
	switch {
	case g.Backend == "entsql" && len(g.T.Edges) > 0 && g.R.P(1, 5):
		s = g.edge(depth)
	case depth > 0 && g.R.P(2, 5):
		s = "(" + g.ws() + g.Cond(depth-1) + g.ws() + ")"
	default:
		s = g.atom()
	}
	if g.R.P(1, 6) {
		if strings.HasPrefix(strings.ToLower(s), "not") {
			s = "(" + s + ")"
		}
		s = g.kw("not") + g.ws1() + s
	}
	return s
}

func (g *Gen) edge(depth int) string {
	e := g.T.Edges[g.R.Intn(len(g.T.Edges))]
	if depth <= 0 || g.R.P(1, 3) {
		return "has_edge(" + g.ws() + e.Name + g.ws() + ")"
	}
	sub := *g
	sub.T = Tables[e.To]
	sub.NoCols, sub.Rels = nil, nil
	c := ""
	if len(sub.T.Edges) > 0 && g.R.P(1, 3) {
		// an edge of the edge, often back or of the same kind
		c = sub.edge(depth - 1)
		if g.R.P(1, 3) {
			c = g.kw("not") + g.ws1() + c
		}
	} else {
		c = sub.Cond(depth - 1)
	}
	if g.R.P(1, 10) {
		c += g.ws1() + g.kw("and") + g.ws1() + g.pick("1 = 1", "2 > 1", "true = true", "(3 <> 4)")
	}
	return "has_edge(" + g.ws() + e.Name + g.ws() + "," + g.ws() + c + g.ws() + ")"
}

func (g *Gen) logic() string {
	switch g.R.Intn(4) {
	case 0:
		return g.ws() + "&&" + g.ws()
	case 1:
		return g.ws() + "||" + g.ws()
	case 2:
		return g.ws1() + g.kw("or") + g.ws1()
	}
	return g.ws1() + g.kw("and") + g.ws1()
}

// Cond generates a condition.
func (g *Gen) Cond(depth int) string {
	n := 1
	if depth > 0 {
		n = 1 + g.R.Intn(3)
	}
	if g.big && g.R.P(1, 8) {
		n = 10 + g.R.Intn(30)
	}
	s := g.term(depth)
	for i := 1; i < n; i++ {
		s += g.logic() + g.term(depth)
	}
	return s
}

// longText is longer than a short buffer or column.
func longText(i int) string {
	return strings.Repeat("long text ", 30) + "xyz"[i:i+1]
}

// sweep has many terms that all matter: each one takes or gives one row.
func (g *Gen) sweep() string {
	id := g.spell(g.T.Cols[0])
	if g.T.Resolve(id) != 0 && g.Backend == "gorm" {
		id = g.T.Cols[0].Name
	}
	n := 2 + g.R.Intn(12)
	if g.R.P(1, 3) {
		n = 14 + g.R.Intn(90)
	}
	var l []string
	if g.R.P(1, 20) {
		n = 200 + g.R.Intn(1200)
		for i := 0; i < n; i++ {
			l = append(l, strconv.Itoa(100+g.R.Intn(n)))
		}
		l[n-1-g.R.Intn(3)] = strconv.Itoa(1 + g.R.Intn(14))
		return id + g.ws1() + g.words(false, "in") + g.ws() + "[" + strings.Join(l, ",") + "]"
	}
	for i := 0; i < n; i++ {
		l = append(l, strconv.Itoa(1+g.R.Intn(14)))
	}
	term := func(k string) string {
		switch g.R.Intn(6) {
		case 0:
			return g.kw("not") + g.ws1() + id + g.ws() + "=" + g.ws() + k
		case 1:
			return "(" + id + " < " + k + g.logicOr() + id + " > " + k + ")"
		case 2:
			return id + g.ws1() + g.words(false, "not", "in") + g.ws() + "[" + k + "]"
		case 3:
			return g.kw("not") + g.ws1() + "(" + id + g.ws1() + "between " + k + " and " + k + ")"
		}
		return id + g.ws() + g.pick("<>", "!=") + g.ws() + k
	}
	var s []string
	switch g.R.Intn(4) {
	case 0:
		for _, k := range l {
			s = append(s, term(k))
		}
		return strings.Join(s, g.ws1()+g.kw("and")+g.ws1())
	case 1:
		for _, k := range l {
			s = append(s, id+g.ws()+"="+g.ws()+k)
		}
		return strings.Join(s, g.logicOr())
	case 2:
		return id + g.ws1() + g.words(false, "in") + g.ws() + "[" + strings.Join(l, ",") + "]"
	}
	x := id + " > 0"
	if g.R.P(1, 4) {
		// parentheses only
		k := 5 + g.R.Intn(40)
		return strings.Repeat("(", k) + x + strings.Repeat(")", k) + g.ws1() + g.kw("and") + g.ws1() + term(l[0])
	}
	// alternate, from the inside out
	side := g.R.Intn(3)
	for i, k := range l {
		if i == 30 {
			break
		}
		y, op := term(k), g.ws()+"&&"+g.ws()
		if i%2 == 1 {
			y, op = id+g.ws()+"="+g.ws()+k, g.logicOr()
		}
		if x = "(" + x + ")"; side == 0 || side == 1 && g.R.P(1, 2) {
			x = x + op + y
		} else {
			x = y + op + x
		}
	}
	return x
}

func (g *Gen) logicOr() string {
	if g.R.P(1, 3) {
		return g.ws() + "||" + g.ws()
	}
	return g.ws1() + g.kw("or") + g.ws1()
}

// Filter generates a whole filter text.
func (g *Gen) Filter(depth int) string {
	g.big = g.R.P(1, 12)
	if g.R.P(1, 25) {
		return g.ws() + g.sweep() + g.ws()
	}
	s := g.Cond(depth)
	if g.Style > 0 {
		s = g.ws() + s + g.ws()
	}
	if g.Style > 0 && g.R.P(1, 150) {
		// more text than a small buffer takes
		pad := g.pick(" ", "\n", "\t", " --pad pad\n", "//'\n")
		pad = strings.Repeat(pad, 1+g.R.Intn(6000)/len(pad))
		if g.R.P(1, 2) {
			return pad + s
		}
		return s + pad
	}
	return s
}

// misspell makes almost the name of a field.
func (g *Gen) misspell() string {
	t, pre := g.T, ""
	if len(t.Rels) > 0 && g.R.P(1, 3) {
		r := t.Rels[g.R.Intn(len(t.Rels))]
		t, pre = Tables[r.Table], r.Name+"."
	}
	n := g.spell(t.Cols[g.R.Intn(len(t.Cols))])
	i := g.R.Intn(len(n))
	switch g.R.Intn(9) {
	case 0:
		n = n[:i] + n[i+1:]
	case 1:
		n = n[:i] + n[i:i+1] + n[i:]
	case 2, 3:
		n = n[:i+1] + "_" + n[i+1:]
	case 4:
		n = strings.ReplaceAll(n, "_", "")
	case 5:
		n += g.pick("_", "s", "1", "ID", "_id", "0", "Id", "Name", "_name", "_at", "At", "x")
	case 6:
		n = g.pick("x", "a", "my", "the_") + n
	case 7:
		n = n[:i] + strings.ToUpper(n[i:])
	case 8:
		n = t.Name + "_" + n
	}
	if n == "" {
		n = "x"
	}
	return pre + n
}

// long is a filter with many members on one level.
func (g *Gen) long() string {
	n := []int{63, 64, 65, 99, 100, 128, 150, 256, 300}[g.R.Intn(9)]
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.lit([]byte("is")[g.R.Intn(2)]))
	}
	switch g.R.Intn(4) {
	case 0:
		return "date(age, " + strings.Join(l, ",") + ") = 1"
	case 1:
		return "age = " + strings.Join(l, g.pick(" or age = ", " and age = "))
	case 2:
		return g.Cond(0) + " and age in [" + strings.Join(l, ", ") + "] or " + g.Cond(0)
	}
	return "age in [" + strings.Join(l, ", ") + "]"
}

// Bad generates a filter that gorm must refuse.
func (g *Gen) Bad() string {
	good := func() string { return g.Cond(g.R.Intn(2)) }
	wrap := func(b string) string {
		switch g.R.Intn(8) {
		case 0:
			return good() + " and " + b
		case 1:
			return b + " or " + good()
		case 2:
			return "(" + b + ")"
		case 3:
			return "not (" + b + ")"
		case 4:
			return good() + " or (" + good() + " and " + b + ")"
		}
		return b
	}
	switch g.R.Intn(16) {
	case 14, 15:
		return wrap(g.slip())
	case 0:
		if g.R.P(1, 2) {
			return wrap(g.misspell() + g.pick(" = 1", " is null", " in [1,2]", " between 1 and 2", " <> 'x'"))
		}
		return wrap(g.pick("nosuch", "Nosuch", "accounts", "ag", "agee", "_age", "deleted", "password", "ages") + g.cmp() + g.lit('i'))
	case 1:
		return wrap(g.pick(append([]string{"nope"}, g.T.NonCols...)...) + g.pick(" = 1", " is null", " is not null", " in [1,2]", " like 'a'", " between 1 and 2"))
	case 2:
		return wrap(g.pick("Nope", "profile", "PROFILE", "Profiles", "accounts", "company") + ".age = 1")
	case 3:
		l := []string{"Nope.id = 1"}
		for _, r := range g.T.Rels {
			if r.Many {
				l = append(l, r.Name+".id = 1", r.Name+".id is null", r.Name+".hits > 0")
			} else {
				l = append(l, r.Name+".nosuch = 1", r.Name+"."+"Profile.age = 1", r.Name+".Devices = 1", r.Name+".a.b.c is null")
				rt := Tables[r.Table]
				c, c2 := g.spell(rt.Cols[g.R.Intn(len(rt.Cols))]), g.spell(rt.Cols[g.R.Intn(len(rt.Cols))])
				deep := r.Name + "." + c + "." + g.pick(c2, "x", c+"."+c2, r.Name)
				l = append(l, deep+g.cmp()+g.lit('i'), deep+" is null", "date("+deep+") = '2024-01-01'", c+" = "+deep)
				again := r.Name + "." + c + " is not null"
				for n := g.R.Intn(3); n > 0; n-- {
					again += g.pick(" and ", " or ") + r.Name + "." + g.spell(rt.Cols[g.R.Intn(len(rt.Cols))]) + " is null"
				}
				l = append(l, "("+again+g.pick(" or ", " and ")+r.Name+g.pick(".nosuch", ".nosuch", "."+c+"x", ".x.y")+" = 1)")
				for _, r2 := range rt.Rels {
					l = append(l, r.Name+"."+r2.Name+"."+g.spell(Tables[r2.Table].Cols[0])+" = 1")
				}
			}
		}
		return wrap(g.pick(l...))
	case 4:
		return wrap(g.pick("upper(name) = 'A'", "lower(name)='a'", "sleep(10) = 0", "random() > 0", "load_extension('x')", "DATE(created_at) = '2024-01-01'", "now() > 1", "date(nosuch) = '2024-01-01'", "date(created_at, nosuch) = '2024-01-01'", "date(created_at, 'x', Nope.id) is null", "date(age, id, age, nosuch, id) = 1", "date(created_at, upper(name)) is null", "count(id) > 1", "coalesce(age, 1) = 1", "has_edge(Profile)", "abs(age) = 1", "date(upper(name)) is null", "char(65) = 'A'"))
	case 5:
		return wrap(g.pick("age = 99999999999999999999", "age in [99999999999999999999, 18446744073709551616]", "age between 99999999999999999999 and 99999999999999999999", "99999999999999999999 = 18446744073709551615"))
	case 6:
		return wrap("id in [1, 18446744073709551616]")
	case 7:
		return wrap(g.pick("name->first = 'x'", "name->a->b is null", "date(name->x) = '2024-01-01'"))
	case 8: // truncation
		f := g.Filter(2)
		rs := []rune(f)
		return string(rs[:g.R.Intn(len(rs)+1)])
	case 9, 10: // corruption
		return g.Corrupt(g.Filter(2))
	case 11:
		return g.pick("age >", "= 1", "(age = 1", "age = 1)", "age = 'x", "age in [1,2", "and age = 1", "age = 1 and", "age == = 1", "not", "age = 1; drop table accounts", "age = 1 --", "age = -1", "age = 010", "age = 0x10", "age = 1e3", "age = +1", "age = 1_000", "age in [01]", "age = 1.5", "*", "age in 1", "age between 1", "name like", "name = 'a' 'b'", "age = 1 age = 2", ",", ")", "''", "age = 1 /* x */", "age is", "age is not", "age = 0x10", "age = 01", "`age` = 1", "accounts.age = 1", "age = ?", "age = $1", "not not age = 1", "age = 1 xor age = 2", "age = 1 and or age = 2", "age = 1 -- c", "a.b.c.d = 1", " ", "\n", "age = ()", "\x00", "age = 1\x00", "\xff", "age = '\xff", "１ = 1", "age ＝ 1")
	case 12:
		if g.R.P(2, 3) {
			return wrap(g.slip())
		}
		if g.R.P(1, 4) {
			return g.pick("\ufeff", "\u00a0", "\u3000", "\v", "\f", "\u200b", "#", ";", "`", "\\") + g.Cond(1)
		}
		return wrap("(" + g.Cond(1))
	}
	return g.Cond(1) + g.pick(" ;", " )", " ]", " '", " \"", " and", " or", " not", " in", " =", " .", " ->", "(", " between", " is", " --x", " //")
}

// Corrupt damages a text at a few places.
func (g *Gen) Corrupt(s string) string {
	b := []rune(s)
	n := 1 + g.R.Intn(3)
	chars := []rune("'\"()[],.=<>!&|-/\\ \t\n;?%_`$#@~^*+{}0aAzN\x00é")
	for i := 0; i < n; i++ {
		p := g.R.Intn(len(b) + 1)
		switch g.R.Intn(6) {
		case 0:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 1:
			b = append(b[:p:p], append([]rune{chars[g.R.Intn(len(chars))]}, b[p:]...)...)
		case 2:
			if p < len(b) {
				b[p] = chars[g.R.Intn(len(chars))]
			}
		case 3:
			if len(b) > 0 {
				q := p + g.R.Intn(len(b)-p+1)
				b = append(b[:p:p], append(append([]rune(nil), b[p:q]...), b[p:]...)...)
			}
		case 4:
			if p < len(b) {
				q := p + g.R.Intn(len(b)-p)
				b[p], b[q] = b[q], b[p]
			}
		case 5:
			w := []rune(g.pick(" and ", " or ", " not ", "in", "between", "like", "null", "is", "true", "--", "//", "'", "((", "))", "[]", "()", "->", "..", "<>", "isnull"))
			b = append(b[:p:p], append(w, b[p:]...)...)
		}
	}
	return string(b)
}

// deepRefusal buries something that is refused, at least by some.
func (g *Gen) deepRefusal() string {
	n := []int{30, 300, 1000, 4000}[g.R.Intn(4)]
	in := g.pick("age", "1", "name like 'a'", "Profile.age=1", "upper(name)='a'", "date(age)='x'", "nosuch=1", "has_edge(nope)", "name->a is null", "[1]", "upper(name)", "Profile.age is null")
	open := g.pick("(", "(", "not (", "(1=1 and ", "(age=1 or ")
	return strings.Repeat(open, min(n, 24000/len(open))) + in + strings.Repeat(")", min(n, 24000/len(open)))
}

// Hostile produces text meant to crash or stall.
func (g *Gen) Hostile() string {
	n := []int{1, 3, 10, 50, 200, 1000, 3000}[g.R.Intn(7)]
	if g.R.P(1, 60) {
		n = 20_000
	}
	t := g.hostile(n)
	if g.R.P(1, 12) {
		x := g.pick("\x00", "\x01", "\x7f", "\xff", "\xc3", "\u2028", "\ufeff", "\u00a0", "\U0010ffff", "\b", "\x1a", "\x1b", ";", "\\")
		switch g.R.Intn(3) {
		case 0:
			t = x + t
		case 1:
			t += x
		case 2:
			i := g.R.Intn(len(t) + 1)
			t = t[:i] + x + t[i:]
		}
	}
	if len(t) > 65536 {
		t = t[:65536]
	}
	return t
}

func (g *Gen) hostile(n int) string {
	rep := func(s string) string { return strings.Repeat(s, n) }
	switch g.R.Intn(33) {
	case 30:
		return g.pick(rep("a"), rep("A_b"), rep("_"), "Profile."+rep("x"), rep("P")+".age", "date("+rep("y")+")", "has_edge("+rep("z")+")", rep("f")+"()") + g.pick("=1", " is null", " in [1]", "")
	case 31:
		return "age" + g.pick(rep(" "), rep("\r\n"), " --"+rep("x")+"\n", " "+rep("--\n"), rep("\n//\n")) + g.pick("is null", "is", "not", "between", "not in [1]", "= 1")
	case 32:
		x := rep(g.pick(" ", "\t", "\n", "\r\n", "\r", " --\n", "//x\r\n", "  \n"))
		f := g.pick("age is%snot%snull", "age not%sin%s[1]", "age not%sbetween%s1 and 2", "name not%slike%s'a'", "age is%snot%strue")
		return strings.ReplaceAll(f, "%s", x)
	case 24, 25, 26, 27, 28, 29:
		return g.nest()
	case 0:
		return rep("(") + "age=1" + rep(")")
	case 1:
		return rep("(")
	case 2:
		return rep("not ")
	case 3:
		return rep("not (") + "age=1" + rep(")")
	case 4:
		return rep("age=1 and ") + "age=1"
	case 5:
		return rep("age=1 or ")
	case 6:
		return "age in [" + rep("1,") + "1]"
	case 7:
		return rep("date(") + "age" + rep(")") + "=1"
	case 8:
		return rep("date(")
	case 9:
		return g.pick("date()", "date(1,2)", "date(,)", "has_edge()", "has_edge(1)", "has_edge('a')", "has_edge(profile,)", "has_edge(profile,1)", "has_edge(profile,age)", "has_edge(profile,age=1,age=2)", "has_edge(nope)", "has_edge(profile.age)", "has_edge((profile))", "f()", "date(date())", "has_edge(profile, has_edge(nope))", "has_edge(profile, date())", "has_edge(profile, Profile.age = 1)", "has_edge([1])", "has_edge(profile,[1])", "has_edge(profile,(1=1))", "has_edge(date(1))", "has_edge(profile, nosuch())", "has_edge(profile, age is true)")
	case 10:
		return rep("a.") + "a=1"
	case 11:
		return rep("a->") + "a"
	case 12:
		return "'" + rep("x") + "'"
	case 13:
		return "name='" + rep("%") + "'"
	case 14:
		return rep("-- x\n") + "age=1"
	case 15:
		return rep(" ") + "age=1" + rep("\t")
	case 16:
		return "age=" + rep("9")
	case 17:
		return g.pick("true", "1", "'x'", "null", "age", "[1,2]", "[]", "()", "(1)", "((1))", "not 1", "not age", "not null", "not [1]", "1 and 2", "age and name", "not (age) and 1", "[1] in [1]", "null is null", "true is true", "1 between 1 and 2", "'a' like 'b'", "age = name = id", "age < id < 3", "age in [1] in [0]", "age is null = true", "age = id is null", "age between 1 and 2 between 1 and 2", "age between [1,2] and [3,4]", "age = [1,2]", "age = []", "age in []", "age not in []", "age like [1]", "[] = []", "date(age = 1)", "date(age) between 1 and 2", "age between null and null", "age and (name or id)", "not (not (age = 1))", "has_edge(profile) = true", "has_edge(profile) and 1")
	case 18:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.R.Intn(256))
		}
		return string(b)
	case 19:
		var b strings.Builder
		toks := []string{"age", "name", "1", "'x'", "null", "true", "(", ")", "[", "]", ",", "and", "or", "not", "in", "between", "like", "is", "is null", "=", "<", "<>", "gte", "lt", "date", "date(", "has_edge(", ".", "->", "--x\n", "\n", "isnull", "profile", "Profile", "&&", "||"}
		for i := 0; i < 1+n/4; i++ {
			b.WriteString(toks[g.R.Intn(len(toks))])
			if g.R.P(3, 4) {
				b.WriteByte(' ')
			}
		}
		return b.String()
	case 20:
		f := g.Filter(2)
		return strings.Repeat(f+" and ", 1+n/50) + f
	case 21:
		return rep("(age=1 and ") + "age=1" + rep(")")
	case 22:
		return g.Corrupt(g.Filter(3))
	}
	return fmt.Sprintf("age between %s and %s", rep("1"), rep("2"))
}

// slip returns a short filter of one of the grammar's forms in which a single
// character was left out, doubled or replaced by another.
func (g *Gen) slip() string {
	t := []byte(g.pick("age between [1,2]", "age between 1 and 2", "age not between [1,2]", "age not between 1 and 2", "age in [1,2]", "age in (1,2)", "age not in [1,2,3]", "age is null", "age is not null", "age is not true", "name not like 'a'", "name like 'a'", "not (age = 1)", "(age = 1)", "age = 1 and age = 2", "age = 1 or age = 2", "age = 1 && age = 2", "age = 1 || age = 2", "date(created_at) = '2024-01-01'", "date(created_at, age) = 'x'", "date(created_at,name,age) is null", "name = \"a\"", "age <= 1", "age >= 1", "age != 1", "age <> 1", "age == 1", "age = null", "age = true", "1 = age", "in_stock = false"))
	i := g.R.Intn(len(t))
	for n := 0; n < 4 && (t[i] >= 'a' && t[i] <= 'z'); n++ {
		i = g.R.Intn(len(t))
	}
	if t[i] == ' ' && g.R.P(1, 2) {
		i = g.R.Intn(len(t))
	}
	switch g.R.Intn(6) {
	case 0, 1:
		return string(t[:i]) + string(t[i+1:])
	case 2:
		return string(t[:i]) + string(t[i:i+1]) + string(t[i:])
	case 3:
		return string(t[:i]) + " " + string(t[i+1:])
	}
	t[i] = " ;:,.|&[](){}<>=!'\"-_a1"[g.R.Intn(23)]
	return string(t)
}
