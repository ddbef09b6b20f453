package ref

import (
	"errors"
	"strconv"
	"strings"
	"time"
)

// ErrUnsure marks an evaluation whose outcome the reference does not define
// (for example a date function over arbitrary text).
var ErrUnsure = errors.New("unsure")

type VK int8

const (
	VNull VK = iota
	VInt
	VText
)

// Val is a database value.
type Val struct {
	K VK
	I int64
	S string
}

func Int(i int64) Val   { return Val{K: VInt, I: i} }
func Text(s string) Val { return Val{K: VText, S: s} }
func Bool(b bool) Val {
	if b {
		return Int(1)
	}
	return Int(0)
}

var Null = Val{}

func (v Val) String() string {
	switch v.K {
	case VInt:
		return strconv.FormatInt(v.I, 10)
	case VText:
		return strconv.Quote(v.S)
	}
	return "NULL"
}

// Aff is a column affinity.
type Aff int8

const (
	AffNone Aff = iota
	AffNum      // INTEGER and NUMERIC
	AffText
)

// Env resolves identifiers and functions on one row.
type Env struct {
	Col func(e *E) (Val, Aff, error)
	// Edge evaluates has_edge; nil when not supported.
	Edge func(name string, cond *E) (Val, error)
	// NotBetweenAnd selects the semantics of "not between" that the tests of the
	// repository pin for the ent back ends, for a column or literal x: x < lo AND
	// x > hi.
	NotBetweenAnd bool
	Steps         int
}

// True evaluates e as a condition.
func (v *Env) True(e *E) (bool, error) {
	x, err := v.Eval(e)
	if err != nil {
		return false, err
	}
	t, null := truth(x)
	return t && !null, nil
}

func numPrefix(s string) (float64, bool) {
	s = strings.TrimLeft(s, " \t\n\v\f\r")
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	d := i
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	n := i - d
	if i < len(s) && s[i] == '.' {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j-i-1+n > 0 {
			n += j - i - 1
			i = j
		}
	}
	if n == 0 {
		return 0, true
	}
	f, err := strconv.ParseFloat(s[:i], 64)
	return f, err == nil
}

func truth(v Val) (t, null bool) {
	switch v.K {
	case VNull:
		return false, true
	case VInt:
		return v.I != 0, false
	}
	f, _ := numPrefix(v.S)
	return f != 0, false
}

func and(a, b Val) Val {
	at, an := truth(a)
	bt, bn := truth(b)
	if (!an && !at) || (!bn && !bt) {
		return Int(0)
	}
	if an || bn {
		return Null
	}
	return Int(1)
}

func or(a, b Val) Val {
	at, an := truth(a)
	bt, bn := truth(b)
	if (!an && at) || (!bn && bt) {
		return Int(1)
	}
	if an || bn {
		return Null
	}
	return Int(0)
}

func not(a Val) Val {
	t, n := truth(a)
	if n {
		return Null
	}
	return Bool(!t)
}

// toNum applies numeric affinity to a text.
func toNum(v Val) (Val, error) {
	if v.K != VText {
		return v, nil
	}
	s := strings.TrimFunc(v.S, func(r rune) bool { return strings.ContainsRune(" \t\n\v\f\r", r) })
	if i, err := strconv.ParseInt(s, 10, 64); err == nil && !strings.Contains(s, "_") {
		return Int(i), nil
	}
	if strings.IndexByte(v.S, 0) >= 0 {
		return v, ErrUnsure
	}
	if s != "" && strings.ContainsAny(s, "0123456789") {
		if _, err := strconv.ParseFloat(s, 64); err == nil || errors.Is(err, strconv.ErrRange) {
			return v, ErrUnsure
		}
	}
	return v, nil
}

// Cmp compares two values under SQLite's affinity rules; null reports NULL.
func Cmp(a Val, aa Aff, b Val, ba Aff) (c int, null bool, err error) {
	if a.K == VNull || b.K == VNull {
		return 0, true, nil
	}
	switch {
	case aa == AffNum && ba != AffNum:
		b, err = toNum(b)
	case ba == AffNum && aa != AffNum:
		a, err = toNum(a)
	case aa == AffText && ba == AffNone && b.K == VInt:
		b = Text(strconv.FormatInt(b.I, 10))
	case ba == AffText && aa == AffNone && a.K == VInt:
		a = Text(strconv.FormatInt(a.I, 10))
	}
	if err != nil {
		return 0, false, err
	}
	if a.K != b.K {
		if a.K == VInt {
			return -1, false, nil
		}
		return 1, false, nil
	}
	if a.K == VInt {
		switch {
		case a.I < b.I:
			return -1, false, nil
		case a.I > b.I:
			return 1, false, nil
		}
		return 0, false, nil
	}
	return strings.Compare(a.S, b.S), false, nil
}

func like(pat, s []rune) bool {
	fold := func(c rune) rune { return low(c) }
	// iterative wildcard match
	pi, si, star, mark := 0, 0, -1, 0
	for si < len(s) {
		switch {
		case pi < len(pat) && pat[pi] == '%':
			star, mark = pi, si
			pi++
		case pi < len(pat) && (pat[pi] == '_' || fold(pat[pi]) == fold(s[si])):
			pi++
			si++
		case star >= 0:
			mark++
			pi, si = star+1, mark
		default:
			return false
		}
	}
	for pi < len(pat) && pat[pi] == '%' {
		pi++
	}
	return pi == len(pat)
}

func lit(e *E) (Val, bool) {
	switch e.K {
	case KInt:
		return Int(e.I), true
	case KStr:
		return Text(e.S), true
	case KBool:
		return Bool(e.B), true
	case KNull:
		return Null, true
	}
	return Null, false
}

// Eval evaluates an expression.
func (v *Env) Eval(e *E) (Val, error) {
	x, _, err := v.eval(e)
	return x, err
}

func (v *Env) cmpOp(op string, a Val, aa Aff, b Val, ba Aff) (Val, error) {
	c, null, err := Cmp(a, aa, b, ba)
	if err != nil || null {
		return Null, err
	}
	switch op {
	case "gt":
		return Bool(c > 0), nil
	case "gte":
		return Bool(c >= 0), nil
	case "lt":
		return Bool(c < 0), nil
	case "lte":
		return Bool(c <= 0), nil
	case "eq":
		return Bool(c == 0), nil
	case "neq":
		return Bool(c != 0), nil
	}
	return Null, ErrUnsure
}

func (v *Env) eval(e *E) (Val, Aff, error) {
	v.Steps++
	if x, ok := lit(e); ok {
		return x, AffNone, nil
	}
	switch e.K {
	case KParen:
		return v.eval(e.L)
	case KIdent, KRef:
		return v.Col(e)
	case KNot:
		x, _, err := v.eval(e.L)
		return not(x), AffNone, err
	case KLogic:
		a, _, err := v.eval(e.L)
		if err != nil {
			return Null, 0, err
		}
		b, _, err := v.eval(e.R)
		if err != nil {
			return Null, 0, err
		}
		if e.Op == "and" {
			return and(a, b), AffNone, nil
		}
		return or(a, b), AffNone, nil
	case KPred:
		x, _, err := v.eval(e.L)
		if err != nil {
			return Null, 0, err
		}
		t, n := truth(x)
		var r bool
		switch e.Op {
		case "is null":
			r = x.K == VNull
		case "is not null":
			r = x.K != VNull
		case "is true":
			r = t && !n
		case "is not true":
			r = !t || n
		case "is false":
			r = !t && !n
		case "is not false":
			r = t || n
		default:
			return Null, 0, ErrUnsure
		}
		return Bool(r), AffNone, nil
	case KCmp:
		a, aa, err := v.eval(e.L)
		if err != nil {
			return Null, 0, err
		}
		b, ba, err := v.eval(e.R)
		if err != nil {
			return Null, 0, err
		}
		if e.Op == "like" || e.Op == "not like" {
			if a.K == VNull || b.K == VNull {
				return Null, AffNone, nil
			}
			s, p := textOf(a), textOf(b)
			if strings.ContainsRune(s, 0) || strings.ContainsRune(p, 0) || len(p) > 40000 {
				return Null, 0, ErrUnsure
			}
			r := like([]rune(p), []rune(s))
			return Bool(r == (e.Op == "like")), AffNone, nil
		}
		x, err := v.cmpOp(e.Op, a, aa, b, ba)
		return x, AffNone, err
	case KIn:
		a, aa, err := v.eval(e.L)
		if err != nil {
			return Null, 0, err
		}
		if len(e.R.Args) == 0 {
			return Null, 0, ErrUnsure
		}
		r := Int(0)
		for _, m := range e.R.Args {
			b, _ := lit(m)
			x, err := v.cmpOp("eq", a, aa, b, AffNone)
			if err != nil {
				return Null, 0, err
			}
			r = or(r, x)
		}
		if e.Op == "not in" {
			r = not(r)
		}
		return r, AffNone, nil
	case KBetween:
		a, aa, err := v.eval(e.L)
		if err != nil {
			return Null, 0, err
		}
		lo, ok1 := lit(e.Args[0])
		hi, ok2 := lit(e.Args[1])
		if !ok1 || !ok2 {
			return Null, 0, ErrUnsure
		}
		if e.Op == "not between" && v.NotBetweenAnd && e.L.K.Leaf() {
			x, err := v.cmpOp("lt", a, aa, lo, AffNone)
			if err != nil {
				return Null, 0, err
			}
			y, err := v.cmpOp("gt", a, aa, hi, AffNone)
			return and(x, y), AffNone, err
		}
		x, err := v.cmpOp("gte", a, aa, lo, AffNone)
		if err != nil {
			return Null, 0, err
		}
		y, err := v.cmpOp("lte", a, aa, hi, AffNone)
		if err != nil {
			return Null, 0, err
		}
		r := and(x, y)
		if e.Op == "not between" {
			r = not(r)
		}
		return r, AffNone, nil
	case KFunc:
		switch e.Name {
		case "date":
			if len(e.Args) == 0 {
				return Null, 0, ErrUnsure
			}
			if len(e.Args) > 1 {
				return v.dateMods(e)
			}
			x, _, err := v.eval(e.Args[0])
			if err != nil || x.K == VNull {
				return Null, AffNone, err
			}
			if x.K == VText && len(x.S) >= 10 {
				if _, err := time.Parse("2006-01-02", x.S[:10]); err == nil && x.S[:4] >= "0100" {
					if len(x.S) == 10 {
						return x, AffNone, nil
					}
					for _, f := range []string{"2006-01-02 15:04", "2006-01-02 15:04:05"} {
						if t, err := time.Parse(f, x.S); err == nil && t.Format(f) == x.S {
							return Text(x.S[:10]), AffNone, nil
						}
					}
				}
			}
			return Null, 0, ErrUnsure
		case "has_edge":
			if v.Edge == nil {
				return Null, 0, ErrUnsure
			}
			var cond *E
			if len(e.Args) > 1 {
				cond = e.Args[1]
			}
			x, err := v.Edge(e.Args[0].Name, cond)
			return x, AffNone, err
		}
	}
	return Null, 0, ErrUnsure
}

func textOf(v Val) string {
	if v.K == VInt {
		return strconv.FormatInt(v.I, 10)
	}
	return v.S
}

// Sure reports whether the text form leaves no doubt about operator binding:
// operands of comparison-like operators must be atoms or parenthesised, lists
// stand only right of in, and are not empty.
func Sure(e *E) bool {
	prim := func(x *E) bool {
		switch x.K {
		case KInt, KStr, KBool, KNull, KIdent, KRef, KFunc, KParen:
			return true
		}
		return false
	}
	switch e.K {
	case KLogic:
		return Sure(e.L) && Sure(e.R)
	case KNot, KParen:
		return Sure(e.L)
	case KCmp:
		return prim(e.L) && prim(e.R) && Sure(e.L) && Sure(e.R)
	case KIn:
		return prim(e.L) && Sure(e.L) && len(e.R.Args) > 0
	case KBetween:
		return prim(e.L) && Sure(e.L) && e.Args[0].K != KArray && e.Args[1].K != KArray
	case KPred:
		return prim(e.L) && Sure(e.L)
	case KArray:
		return false
	case KFunc:
		for i, a := range e.Args {
			if i == 0 && e.Name == "has_edge" {
				continue
			}
			if !Sure(a) {
				return false
			}
		}
	}
	return true
}

// KnownDate reports whether e is date() of a value and modifiers that are known.
func KnownDate(e *E) bool {
	for i, m := range e.Args {
		switch {
		case i == 0:
		case m.K != KStr:
			return false
		default:
			switch m.S {
			case "+1 day", "-1 days", "+31 days", "-400 days", "start of month", "start of year":
			default:
				return false
			}
		}
	}
	return len(e.Args) > 0
}

// dateMods is date() with modifiers.
func (v *Env) dateMods(e *E) (Val, Aff, error) {
	one := *e
	one.Args = e.Args[:1]
	x, a, err := v.eval(&one)
	if err != nil || x.K != VText {
		return x, a, err
	}
	t, err := time.Parse("2006-01-02", x.S)
	if err != nil {
		return Null, 0, ErrUnsure
	}
	for _, m := range e.Args[1:] {
		w, _, err := v.eval(m)
		if err != nil {
			return Null, 0, err
		}
		if m.K != KStr || w.K != VText {
			return Null, 0, ErrUnsure
		}
		switch w.S {
		case "+1 day":
			t = t.AddDate(0, 0, 1)
		case "-1 days":
			t = t.AddDate(0, 0, -1)
		case "+31 days":
			t = t.AddDate(0, 0, 31)
		case "-400 days":
			t = t.AddDate(0, 0, -400)
		case "start of month":
			t = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
		case "start of year":
			t = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
		default:
			return Null, 0, ErrUnsure
		}
	}
	if t.Year() < 100 || t.Year() > 9999 {
		return Null, 0, ErrUnsure
	}
	return Text(t.Format("2006-01-02")), AffNone, nil
}
