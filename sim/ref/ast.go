// Package ref is the reference for filter texts: an independent recogniser of
// the filter grammar, its own syntax tree and an evaluator with SQL three-valued
// logic and SQLite comparison rules. It shares no code with the library.
package ref

import (
	"fmt"
	"strings"
)

type Kind int

const (
	KLogic   Kind = iota // Op and/or, L, R
	KNot                 // L
	KCmp                 // Op gt gte lt lte eq neq like "not like", L, R
	KIn                  // Op in/"not in", L, R (KArray)
	KBetween             // Op between/"not between", L, Args[0..1]
	KPred                // Op is null.., L
	KParen               // L
	KIdent               // Name
	KRef                 // Names
	KJSON                // Names
	KFunc                // Name, Args
	KInt
	KStr
	KBool
	KNull
	KArray // Args
)

// Leaf reports whether expressions of the kind are names or literals.
func (k Kind) Leaf() bool {
	switch k {
	case KIdent, KRef, KJSON, KInt, KStr, KBool, KNull, KArray:
		return true
	}
	return false
}

type E struct {
	K     Kind
	Op    string
	L, R  *E
	Args  []*E
	Name  string
	Names []string
	I     int64
	S     string
	B     bool
}

// Canon is a canonical text of the tree.
func (e *E) Canon() string {
	var b strings.Builder
	e.canon(&b)
	return b.String()
}

func (e *E) canon(b *strings.Builder) {
	if e == nil {
		b.WriteString("<nil>")
		return
	}
	switch e.K {
	case KLogic, KCmp, KIn:
		b.WriteString("(" + e.Op + " ")
		e.L.canon(b)
		b.WriteByte(' ')
		e.R.canon(b)
		b.WriteByte(')')
	case KNot:
		b.WriteString("(not ")
		e.L.canon(b)
		b.WriteByte(')')
	case KParen:
		b.WriteString("(paren ")
		e.L.canon(b)
		b.WriteByte(')')
	case KPred:
		b.WriteString("(" + e.Op + " ")
		e.L.canon(b)
		b.WriteByte(')')
	case KBetween:
		b.WriteString("(" + e.Op + " ")
		e.L.canon(b)
		b.WriteByte(' ')
		e.Args[0].canon(b)
		b.WriteByte(' ')
		e.Args[1].canon(b)
		b.WriteByte(')')
	case KIdent:
		b.WriteString("id:" + e.Name)
	case KRef:
		b.WriteString("ref:" + strings.Join(e.Names, "."))
	case KJSON:
		b.WriteString("json:" + strings.Join(e.Names, "->"))
	case KFunc:
		b.WriteString("(fn " + e.Name)
		for _, a := range e.Args {
			b.WriteByte(' ')
			a.canon(b)
		}
		b.WriteByte(')')
	case KArray:
		b.WriteByte('[')
		for i, a := range e.Args {
			if i > 0 {
				b.WriteByte(' ')
			}
			a.canon(b)
		}
		b.WriteByte(']')
	case KInt:
		fmt.Fprintf(b, "%d", e.I)
	case KStr:
		fmt.Fprintf(b, "%q", e.S)
	case KBool:
		fmt.Fprintf(b, "%v", e.B)
	case KNull:
		b.WriteString("null")
	}
}

// Walk visits the tree in document order.
func (e *E) Walk(f func(*E)) {
	if e == nil {
		return
	}
	f(e)
	e.L.Walk(f)
	e.R.Walk(f)
	for _, a := range e.Args {
		a.Walk(f)
	}
}

// Literals lists the scalar literals in document order.
func (e *E) Literals() []*E {
	var r []*E
	e.Walk(func(x *E) {
		switch x.K {
		case KInt, KStr, KBool, KNull:
			r = append(r, x)
		}
	})
	return r
}

// Shape is Canon with literals blanked out.
func (e *E) Shape() string {
	c := e.Clone()
	c.Walk(func(x *E) {
		switch x.K {
		case KInt, KStr, KBool, KNull:
			x.K, x.S, x.I, x.B = KStr, "?", 0, false
		}
	})
	return c.Canon()
}

func (e *E) Clone() *E {
	if e == nil {
		return nil
	}
	c := *e
	c.L, c.R = e.L.Clone(), e.R.Clone()
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, a.Clone())
	}
	c.Names = append([]string(nil), e.Names...)
	return &c
}

// Has reports whether some node satisfies f.
func (e *E) Has(f func(*E) bool) bool {
	r := false
	e.Walk(func(x *E) {
		if f(x) {
			r = true
		}
	})
	return r
}
