package ref

import (
	"errors"
	"strconv"
	"strings"
)

// ErrSyntax is returned for texts outside the grammar.
var ErrSyntax = errors.New("syntax")

// Parse recognises a filter. The recogniser follows the published grammar
// (ordered choice, no backtracking into a finished alternative).
func Parse(text string) (e *E, err error) {
	p := &parser{s: []rune(text)}
	i := p.sp(0)
	e, i, ok := p.expr(i)
	if !ok {
		return nil, ErrSyntax
	}
	i = p.sp(i)
	if i != len(p.s) {
		return nil, ErrSyntax
	}
	bad := e.Has(func(x *E) bool { return x.K == KInt && x.S == "overflow" })
	if bad {
		return nil, errors.New("integer out of range")
	}
	if e.Has(func(x *E) bool { return x.K == KJSON }) {
		return nil, errors.New("json reference not supported")
	}
	return e, nil
}

type parser struct {
	s     []rune
	depth int
}

func (p *parser) at(i int) rune {
	if i < len(p.s) {
		return p.s[i]
	}
	return -1
}

// eol returns the length of a line end at i.
func (p *parser) eol(i int) int {
	switch p.at(i) {
	case '\r':
		if p.at(i+1) == '\n' {
			return 2
		}
		return 1
	case '\n':
		return 1
	}
	return 0
}

// sp skips spaces and comments. A comment must end with a line end.
func (p *parser) sp(i int) int {
	for {
		c := p.at(i)
		if c == ' ' || c == '\t' {
			i++
			continue
		}
		if n := p.eol(i); n > 0 {
			i += n
			continue
		}
		if (c == '-' && p.at(i+1) == '-') || (c == '/' && p.at(i+1) == '/') {
			j := i + 2
			for j < len(p.s) && p.eol(j) == 0 {
				j++
			}
			if j >= len(p.s) {
				return i
			}
			i = j + p.eol(j)
			continue
		}
		return i
	}
}

func (p *parser) sp1(i int) (int, bool) {
	j := p.sp(i)
	return j, j > i
}

// lit matches an exact word, ci ignores ASCII case.
func (p *parser) lit(i int, w string) (int, bool) {
	for _, c := range w {
		if p.at(i) != c {
			return i, false
		}
		i++
	}
	return i, true
}

func low(c rune) rune {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func (p *parser) ci(i int, w string) (int, bool) {
	for _, c := range w {
		if low(p.at(i)) != c {
			return i, false
		}
		i++
	}
	return i, true
}

func (p *parser) expr(i int) (*E, int, bool) {
	first, i, ok := p.not(i)
	if !ok {
		return nil, i, false
	}
	terms := []*E{first}
	var ops []string
	for {
		op, j, ok := p.logicOp(i)
		if !ok {
			break
		}
		t, j, ok := p.not(j)
		if !ok {
			break
		}
		ops = append(ops, op)
		terms = append(terms, t)
		i = j
	}
	// and binds tighter than or, both associate to the left
	cur := terms[0]
	var ors []*E
	for k, op := range ops {
		if op == "and" {
			cur = &E{K: KLogic, Op: "and", L: cur, R: terms[k+1]}
		} else {
			ors = append(ors, cur)
			cur = terms[k+1]
		}
	}
	ors = append(ors, cur)
	r := ors[0]
	for _, x := range ors[1:] {
		r = &E{K: KLogic, Op: "or", L: r, R: x}
	}
	return r, i, true
}

func (p *parser) logicOp(i int) (string, int, bool) {
	i = p.sp(i)
	if j, ok := p.ci(i, "and"); ok {
		return "and", p.sp(j), true
	}
	if j, ok := p.ci(i, "or"); ok {
		return "or", p.sp(j), true
	}
	if j, ok := p.lit(i, "&&"); ok {
		return "and", p.sp(j), true
	}
	if j, ok := p.lit(i, "||"); ok {
		return "or", p.sp(j), true
	}
	return "", i, false
}

func (p *parser) not(i int) (*E, int, bool) {
	if e, j, ok := p.compare(i); ok {
		return e, j, true
	}
	j := p.sp(i)
	j, ok := p.ci(j, "not")
	if !ok {
		return nil, i, false
	}
	if j, ok = p.sp1(j); !ok {
		return nil, i, false
	}
	e, j, ok := p.compare(j)
	if !ok {
		return nil, i, false
	}
	return &E{K: KNot, L: e}, j, true
}

func (p *parser) compare(i int) (*E, int, bool) {
	l, i, ok := p.in(i)
	if !ok {
		return nil, i, false
	}
	for {
		op, j, ok := p.cmpOp(i)
		if !ok {
			return l, i, true
		}
		r, j, ok := p.in(j)
		if !ok {
			return l, i, true
		}
		l = &E{K: KCmp, Op: op, L: l, R: r}
		i = j
	}
}

func (p *parser) cmpOp(i int) (string, int, bool) {
	i = p.sp(i)
	for _, x := range [][2]string{{">=", "gte"}, {"<=", "lte"}, {"==", "eq"}, {"!=", "neq"}, {"<>", "neq"}, {">", "gt"}, {"<", "lt"}, {"=", "eq"}} {
		if j, ok := p.lit(i, x[0]); ok {
			return x[1], p.sp(j), true
		}
	}
	for _, x := range []string{"gte", "lte", "gt", "lt", "eq", "neq", "like"} {
		if j, ok := p.ci(i, x); ok {
			return x, p.sp(j), true
		}
	}
	if j, ok := p.ci(i, "not"); ok {
		if j, ok = p.sp1(j); ok {
			if j, ok = p.ci(j, "like"); ok {
				return "not like", p.sp(j), true
			}
		}
	}
	return "", i, false
}

func (p *parser) in(i int) (*E, int, bool) {
	l, i, ok := p.pred(i)
	if !ok {
		return nil, i, false
	}
	j := p.sp(i)
	op := ""
	if k, ok := p.ci(j, "in"); ok {
		op, j = "in", k
	} else if k, ok := p.ci(j, "not"); ok {
		if k, ok = p.sp1(k); ok {
			if k, ok = p.ci(k, "in"); ok {
				op, j = "not in", k
			}
		}
	}
	if op == "" {
		return l, i, true
	}
	a, j, ok := p.array(p.sp(j))
	if !ok {
		return l, i, true
	}
	return &E{K: KIn, Op: op, L: l, R: a}, j, true
}

func (p *parser) pred(i int) (*E, int, bool) {
	l, i, ok := p.between(i)
	if !ok {
		return nil, i, false
	}
	j, ok := p.sp1(i)
	if !ok {
		return l, i, true
	}
	done := func(op string, j int) (*E, int, bool) {
		return &E{K: KPred, Op: op, L: l}, p.sp(j), true
	}
	if k, ok := p.lit(j, "isnull"); ok {
		return done("is null", k)
	}
	if k, ok := p.lit(j, "notnull"); ok {
		return done("is not null", k)
	}
	k, ok := p.lit(j, "is")
	if !ok {
		return l, i, true
	}
	k, ok = p.sp1(k)
	if !ok {
		return l, i, true
	}
	word := func(k int) (string, int) {
		for _, w := range []string{"true", "false", "null"} {
			if m, ok := p.lit(k, w); ok {
				return w, m
			}
		}
		return "", k
	}
	if w, m := word(k); w != "" {
		return done("is "+w, m)
	}
	if k, ok = p.lit(k, "not"); ok {
		if k, ok = p.sp1(k); ok {
			if w, m := word(k); w != "" {
				return done("is not "+w, m)
			}
		}
	}
	return l, i, true
}

func (p *parser) between(i int) (*E, int, bool) {
	l, i, ok := p.primary(i)
	if !ok {
		return nil, i, false
	}
	j := p.sp(i)
	op := "between"
	if k, ok := p.ci(j, "not"); ok {
		if k, ok = p.sp1(k); ok {
			op, j = "not between", k
		}
	}
	j, ok = p.lit(j, "between")
	if !ok {
		return l, i, true
	}
	j = p.sp(j)
	if a, k, ok := p.value(j); ok {
		if k, ok := p.ci(p.sp(k), "and"); ok {
			if b, k, ok := p.value(p.sp(k)); ok {
				return &E{K: KBetween, Op: op, L: l, Args: []*E{a, b}}, k, true
			}
		}
	}
	if p.at(j) == '[' {
		if a, k, ok := p.value(p.sp(j + 1)); ok {
			k = p.sp(k)
			if p.at(k) == ',' {
				if b, k, ok := p.value(p.sp(k + 1)); ok {
					k = p.sp(k)
					if p.at(k) == ']' {
						return &E{K: KBetween, Op: op, L: l, Args: []*E{a, b}}, k + 1, true
					}
				}
			}
		}
	}
	return l, i, true
}

func (p *parser) primary(i int) (*E, int, bool) {
	if p.at(i) == '(' {
		if e, j, ok := p.expr(p.sp(i + 1)); ok {
			j = p.sp(j)
			if p.at(j) == ')' {
				return &E{K: KParen, L: e}, j + 1, true
			}
		}
	}
	if e, j, ok := p.value(i); ok {
		return e, j, true
	}
	name, j, ok := p.ident(i)
	if !ok {
		return nil, i, false
	}
	if p.at(j) == '(' {
		if args, k, ok := p.args(j); ok {
			return &E{K: KFunc, Name: name, Args: args}, k, true
		}
	}
	// reference
	if p.at(j) == '.' {
		names := []string{name}
		k := j
		for p.at(k) == '.' {
			n, m, ok := p.ident(k + 1)
			if !ok {
				break
			}
			names = append(names, n)
			k = m
		}
		if len(names) > 1 {
			return &E{K: KRef, Names: names}, k, true
		}
	}
	if p.at(j) == '-' && p.at(j+1) == '>' {
		names := []string{name}
		k := j
		for p.at(k) == '-' && p.at(k+1) == '>' {
			n, m, ok := p.ident(k + 2)
			if !ok {
				break
			}
			names = append(names, n)
			k = m
		}
		if len(names) > 1 {
			return &E{K: KJSON, Names: names}, k, true
		}
	}
	return &E{K: KIdent, Name: name}, j, true
}

func (p *parser) args(i int) ([]*E, int, bool) {
	i = p.sp(i + 1)
	var l []*E
	if e, j, ok := p.expr(i); ok {
		l = append(l, e)
		for {
			k := p.sp(j)
			if p.at(k) != ',' {
				break
			}
			e, m, ok := p.expr(p.sp(k + 1))
			if !ok {
				break
			}
			l = append(l, e)
			j = m
		}
		j = p.sp(j)
		if p.at(j) == ',' {
			j++
		}
		i = j
	}
	i = p.sp(i)
	if p.at(i) != ')' {
		return nil, i, false
	}
	return l, i + 1, true
}

func (p *parser) ident(i int) (string, int, bool) {
	if j, ok := p.ci(i, "not"); ok && !nameChar(p.at(j)) {
		return "", i, false
	}
	if c := p.at(i); !nameChar(c) || c == '_' || c <= '9' {
		return "", i, false
	}
	j := i + 1
	for nameChar(p.at(j)) {
		j++
	}
	return string(p.s[i:j]), j, true
}

func nameChar(c rune) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9'
}

func (p *parser) value(i int) (*E, int, bool) {
	if e, j, ok := p.literal(i); ok {
		return e, j, true
	}
	return p.array(i)
}

func (p *parser) literal(i int) (*E, int, bool) {
	c := p.at(i)
	switch {
	case c == '\'' || c == '"':
		j := i + 1
		for j < len(p.s) && p.s[j] != c {
			j++
		}
		if j >= len(p.s) {
			return nil, i, false
		}
		return &E{K: KStr, S: string(p.s[i+1 : j])}, j + 1, true
	case c == '0':
		return &E{K: KInt}, i + 1, true
	case c >= '1' && c <= '9':
		j := i
		for p.at(j) >= '0' && p.at(j) <= '9' {
			j++
		}
		v, err := strconv.ParseInt(string(p.s[i:j]), 10, 64)
		e := &E{K: KInt, I: v}
		if err != nil {
			e.S = "overflow"
		}
		return e, j, true
	}
	for _, w := range []string{"true", "false", "TRUE", "FALSE"} {
		if j, ok := p.lit(i, w); ok && !nameChar(p.at(j)) {
			return &E{K: KBool, B: strings.ToLower(w) == "true"}, j, true
		}
	}
	for _, w := range []string{"null", "NULL"} {
		if j, ok := p.lit(i, w); ok && !nameChar(p.at(j)) {
			return &E{K: KNull}, j, true
		}
	}
	return nil, i, false
}

func (p *parser) array(i int) (*E, int, bool) {
	var close rune
	switch p.at(i) {
	case '[':
		close = ']'
	case '(':
		close = ')'
	default:
		return nil, i, false
	}
	i = p.sp(i + 1)
	var l []*E
	if e, j, ok := p.literal(i); ok {
		l = append(l, e)
		for {
			k := p.sp(j)
			if p.at(k) != ',' {
				break
			}
			e, m, ok := p.literal(p.sp(k + 1))
			if !ok {
				break
			}
			l = append(l, e)
			j = m
		}
		j = p.sp(j)
		if p.at(j) == ',' {
			j++
		}
		i = j
	}
	i = p.sp(i)
	if p.at(i) != close {
		return nil, i, false
	}
	return &E{K: KArray, Args: l}, i + 1, true
}
