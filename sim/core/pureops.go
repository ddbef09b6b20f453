package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"entgo.io/ent/entql"
	"github.com/wenerme/go-miniquery/entmq"
	"github.com/wenerme/go-miniquery/miniquery"

	"verifsim/ref"
	"verifsim/simrt"
)

// pureWorld holds what clients of library-only operations share.
type pureWorld struct {
	trees    []*miniquery.Node // shared trees by slot
	treeText []string
	visitors []*miniquery.Visitor // shared visitors by slot
	visCbs   [][]string
	lists    [][]string
	kept     []keptTree
	texts    []keptText
	results  []pureResult
	solo     bool // solo results are computed before the run
	graph    *entWorld
}

type keptTree struct {
	o     *OpRun
	n     *miniquery.Node
	canon string
	text  string
}

// keptText is a text or predicate that was returned.
type keptText struct {
	o    *OpRun
	what string
	s    string
	p    entql.P
	was  string
}

// keep remembers a returned text to see whether it stays the same.
func (w *World) keepText(o *OpRun, what, s string) string {
	w.p.texts = append(w.p.texts, keptText{o, what, s, nil, strings.Clone(s)})
	return s
}

type pureResult struct {
	o   *OpRun
	got string
}

// Canon of a library tree, in the notation of the reference.
func Canon(n *miniquery.Node) string {
	var b strings.Builder
	canonNode(&b, n)
	return b.String()
}

func canonNode(b *strings.Builder, n *miniquery.Node) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	list := func(l []*miniquery.Node) {
		for _, x := range l {
			b.WriteByte(' ')
			canonNode(b, x)
		}
	}
	op := func() string {
		if n.Op == nil {
			return "<nil>"
		}
		return n.Op.Operation
	}
	switch n.Type {
	case miniquery.LogicExpressionType, miniquery.CompareExpressionType:
		b.WriteString("(" + op() + " ")
		canonNode(b, n.Left)
		b.WriteByte(' ')
		canonNode(b, n.Right)
		b.WriteByte(')')
	case miniquery.NotExpressionType:
		b.WriteString("(not ")
		canonNode(b, n.Expression)
		b.WriteByte(')')
	case miniquery.ParenthesesExpressionType:
		b.WriteString("(paren ")
		canonNode(b, n.Expression)
		b.WriteByte(')')
	case miniquery.PredicatesExpressionType:
		b.WriteString("(" + op() + " ")
		canonNode(b, n.Left)
		b.WriteByte(')')
	case miniquery.BetweenExpressionType:
		b.WriteString("(" + op() + " ")
		canonNode(b, n.Left)
		list(n.Params)
		b.WriteByte(')')
	case miniquery.IdentifierNodeType:
		b.WriteString("id:" + n.Name)
	case miniquery.ReferenceNodeType:
		b.WriteString("ref:" + strings.Join(n.Names, "."))
	case miniquery.FunctionExpressionType:
		b.WriteString("(fn " + n.Name)
		list(n.Params)
		b.WriteByte(')')
	case miniquery.ValueNodeType:
		switch n.ValueType {
		case miniquery.ArrayValueType:
			b.WriteByte('[')
			for i, x := range n.Array {
				if i > 0 {
					b.WriteByte(' ')
				}
				canonNode(b, x)
			}
			b.WriteByte(']')
		case miniquery.IntValueType:
			fmt.Fprintf(b, "%d", n.Int)
		case miniquery.StringValueType:
			fmt.Fprintf(b, "%q", n.Str)
		case miniquery.BooleanValueType:
			fmt.Fprintf(b, "%v", n.Bool)
		case miniquery.NullValueType:
			b.WriteString("null")
		default:
			fmt.Fprintf(b, "<value %s>", n.ValueType)
		}
	default:
		fmt.Fprintf(b, "<%s>", n.Type)
	}
}

func (w *World) openPure() {
	p := &pureWorld{solo: w.plan.Seed&1 == 1}
	w.p = p
	p.graph = &entWorld{graph: newGraph("")}
	slots := 0
	for _, c := range w.plan.Clients {
		for i := range c.Ops {
			slots = max(slots, c.Ops[i].Share)
		}
	}
	p.trees = make([]*miniquery.Node, slots+1)
	p.treeText = make([]string, slots+1)
	p.visitors = make([]*miniquery.Visitor, slots+1)
	p.visCbs = make([][]string, slots+1)
	p.lists = make([][]string, slots+1)
	for _, c := range w.plan.Clients {
		for i := range c.Ops {
			o := &c.Ops[i]
			s := o.Share
			if s == 0 {
				continue
			}
			switch o.Kind {
			case "string":
				if p.trees[s] == nil {
					w.alone(nil, func() { p.trees[s], _ = miniquery.Parse(o.Text) })
					p.treeText[s] = o.Text
				}
			case "visit":
				if p.visitors[s] == nil {
					p.visitors[s] = newVisitor(o.Cbs)
					p.visCbs[s] = o.Cbs
				}
			case "join":
				if p.lists[s] == nil {
					p.lists[s] = append([]string(nil), o.Texts...)
				}
			}
		}
	}
}

func (w *World) pureOp(o *OpRun) {
	op := o.Op
	switch op.Kind {
	case "parse":
		w.parseOp(o)
	case "visit":
		w.visitOp(o)
	case "string", "join", "normalize", "entrender", "entqlbuild":
		want := ""
		if w.p.solo {
			want = w.pureResult(o)
		}
		got := w.pureResult(o)
		w.non(o)
		w.log("result %s", got)
		if w.p.solo && want != got {
			w.violate(o, "result-changed", []string{"C05", "C06"}, "%s of %q: %q, a moment before %q", op.Kind, o.texts(), got, want)
		}
		w.p.results = append(w.p.results, pureResult{o, got})
	default:
		panic(harnessPanic("operation " + op.Kind))
	}
}

// pureResult performs a library-only operation.
func (w *World) pureResult(o *OpRun) string {
	op := o.Op
	switch op.Kind {
	case "string":
		n := w.p.trees[op.Share]
		if op.Share == 0 {
			var err error
			n, err = miniquery.Parse(op.Text)
			if err != nil {
				return "error"
			}
		}
		if n == nil {
			return "error"
		}
		before := Canon(n)
		s := w.keepText(o, "notation", n.String()) + " / " + w.keepText(o, "text", miniquery.Build(n))
		if c := Canon(n); c != before {
			w.violate(o, "tree-changed", []string{"C05", "C06"}, "printing changed the tree of %q from %s to %s", op.Text, before, c)
		}
		return s
	case "join":
		l := w.lend(op.Texts)
		if op.Share > 0 {
			l = w.p.lists[op.Share]
		}
		keep := strings.Join(l, "\x00")
		s := w.keepText(o, "joined list", miniquery.Join(l))
		if strings.Join(l, "\x00") != keep {
			w.violate(o, "list-changed", []string{"C05", "C06"}, "Join changed its list")
		}
		return strings.Clone(s)
	case "normalize":
		return strings.Clone(w.keepText(o, "operation", miniquery.NormalizeOperation(op.Text)))
	case "entrender":
		mb := &entmq.MiniQLToEntSQLBuilder{QueryString: op.Text, DisableTypeCasting: op.NoCast, Graph: w.p.graph.graph}
		if op.Model != "" {
			for _, n := range w.p.graph.graph.Nodes {
				if n.Type == op.Model {
					mb.Node = n
				}
			}
		}
		mb.SetDialect(entDialect(op))
		q, args := mb.Query()
		if err := mb.Err(); err != nil {
			return "error"
		}
		w.keepText(o, "SQL text", q)
		return fmt.Sprintf("%s %v", q, args)
	case "entqlbuild":
		show := func(p entql.P, err error) string {
			if err != nil {
				return "error"
			}
			if nilP(p) {
				return "nil"
			}
			s := p.String()
			w.p.texts = append(w.p.texts, keptText{o, "predicate", "", p, s})
			return s
		}
		s := show(entmq.BuildEntQL(op.Text))
		if op.Reuse != "" {
			mb := &entmq.MiniQLToEntQLBuilder{Query: op.Reuse}
			first := show(mb.Build())
			if again := show(mb.Build()); again != first {
				w.violate(o, "reuse", []string{"C06", "C09"}, "filter %q: the builder gave %s, then %s", op.Reuse, first, again)
			}
			mb.Query = op.Text
			if got := show(mb.Build()); got != s {
				w.violate(o, "reuse", []string{"C06", "C09"}, "filter %q: %s on a builder used for %q before, %s on a new one", op.Text, got, op.Reuse, s)
			}
		}
		return s
	}
	return ""
}

func (w *World) parseOp(o *OpRun) {
	op := o.Op
	want, werr := ref.Parse(op.Text)
	if werr == nil {
		o.V.Conds = []*ref.E{want}
	}
	n, err := miniquery.Parse(op.Text)
	w.non(o)
	props := []string{"C05", "C06"}
	if err != nil {
		o.Err = err
		w.log("parse error")
		if werr == nil {
			w.violate(o, "tree", props, "%q does not parse: %v", op.Text, err)
		}
		return
	}
	if n == nil {
		w.violate(o, "tree", props, "%q: neither tree nor error", op.Text)
		return
	}
	got := Canon(n)
	w.log("tree %s", got)
	if werr != nil {
		w.violate(o, "tree", props, "%q parses as %s but is not a filter: %v", op.Text, got, werr)
		return
	}
	if c := want.Canon(); c != got {
		w.violate(o, "tree", props, "%q parses as %s, expected %s", op.Text, got, c)
		return
	}
	if op.Mutate {
		mutate(n)
		w.probe("tree_mutated")
		return
	}
	w.p.kept = append(w.p.kept, keptTree{o, n, got, op.Text})
}

// mutate scribbles over a returned tree.
func mutate(n *miniquery.Node) {
	if n == nil {
		return
	}
	mutate(n.Left)
	mutate(n.Right)
	mutate(n.Op)
	mutate(n.Expression)
	for i, x := range n.Params {
		mutate(x)
		n.Params[i] = nil
	}
	for i, x := range n.Array {
		mutate(x)
		n.Array[i] = nil
	}
	for i := range n.Names {
		n.Names[i] = "scribble"
	}
	n.Name, n.Str, n.Int, n.Bool, n.Operation = "scribble", "scribble", -1, !n.Bool, "scribble"
	n.Left, n.Right, n.Op, n.Expression = nil, nil, nil, nil
}

// alone performs a call while no client runs.
func (w *World) alone(o *OpRun, fn func()) {
	var p any
	if !simrt.Solo(soloSteps, func() {
		defer func() { p = recover() }()
		fn()
	}) {
		w.violate(o, "stall", []string{"*"}, "a call made when all others had ended did not return")
		return
	}
	if p != nil {
		panic(p)
	}
}

const soloSteps = 30_000_000

// finishPure compares results with those of a caller that is alone, and looks
// whether what was returned is still the same.
func (w *World) finishPure() {
	for _, k := range w.p.kept {
		if c := Canon(k.n); c != k.canon {
			w.violate(k.o, "tree-changed", []string{"C05", "C06"}, "the tree returned for %q changed later from %s to %s", k.text, k.canon, c)
		}
	}
	for _, k := range w.p.texts {
		s := k.s
		if k.p != nil {
			s = k.p.String()
		}
		if s != k.was {
			w.violate(k.o, "returned-changed", []string{"C05", "C06"}, "the %s returned for %q changed later from %q to %q", k.what, k.o.texts(), k.was, s)
		}
	}
	for _, r := range w.p.results {
		got := func() (s string) {
			defer func() {
				if x := recover(); x != nil {
					s = fmt.Sprintf("panic: %v", x)
				}
			}()
			w.alone(r.o, func() { s = w.pureResult(r.o) })
			return s
		}()
		if got != r.got {
			w.violate(r.o, "solo-diff", []string{"C05", "C06"}, "%s of %q: %q, alone afterwards %q", r.o.Op.Kind, r.o.texts(), r.got, got)
		}
	}
}

// visitor

type recKey struct{}

type recorder struct {
	o      *OpRun
	marker string
	seen   []*miniquery.Node
	cb     []string
	depth  []int // callbacks around each
	ctx    context.Context
	strays int // callbacks with a context that ends otherwise
	failAt int
	err    error // of the failing callback
	after  int
	failed bool
	deep   bool // callbacks walk on below their node
}

type depthKey struct{}

var errCallback = errors.New("sim: callback failure")

type callbackError struct{ n int }

func (e *callbackError) Error() string { return fmt.Sprintf("callback failure %d", e.n) }

// AllCallbacks are the callbacks a visitor can have.
var AllCallbacks = []string{"Binary", "Logic", "Between", "Function", "Predicates", "Parentheses", "Not", "Identifier", "Reference", "Operation", "Value", "Terminate"}

// sameEnd tells whether two contexts end together.
func sameEnd(a, b context.Context) bool {
	d, ok := a.Deadline()
	d2, ok2 := b.Deadline()
	return a.Done() == b.Done() && a.Err() == b.Err() && ok == ok2 && d.Equal(d2)
}

func newVisitor(cbs []string) *miniquery.Visitor {
	v := &miniquery.Visitor{}
	mk := func(name string) miniquery.VisitFunc {
		return func(ctx context.Context, n *miniquery.Node) error {
			r, _ := ctx.Value(recKey{}).(*recorder)
			if r == nil {
				panic("visitor callback without the caller's context")
			}
			if r.ctx != nil && !sameEnd(ctx, r.ctx) {
				r.strays++
			}
			if r.failed {
				r.after++
			}
			r.seen = append(r.seen, n)
			r.cb = append(r.cb, name)
			d, _ := ctx.Value(depthKey{}).(int)
			r.depth = append(r.depth, d)
			if len(r.seen) == r.failAt {
				r.failed = true
				return r.err
			}
			if r.deep {
				ctx = context.WithValue(ctx, depthKey{}, d+1)
				for _, c := range below(n) {
					if err := v.Visit(ctx, c); err != nil {
						return err
					}
				}
			}
			return nil
		}
	}
	for _, c := range cbs {
		setCallback(v, c, mk(c))
	}
	v.Init()
	return v
}

func setCallback(v *miniquery.Visitor, c string, f miniquery.VisitFunc) {
	switch c {
	case "Binary":
		v.BinaryExpression = f
	case "Logic":
		v.LogicExpression = f
	case "Between":
		v.BetweenExpression = f
	case "Function":
		v.FunctionExpression = f
	case "Predicates":
		v.PredicatesExpression = f
	case "Parentheses":
		v.ParenthesesExpression = f
	case "Not":
		v.NotExpression = f
	case "Identifier":
		v.IdentifierNode = f
	case "Reference":
		v.ReferenceNode = f
	case "Operation":
		v.OperationNode = f
	case "Value":
		v.ValueNode = f
	case "Terminate":
		v.TerminateExpression = f
	}
}

var typeCb = map[miniquery.NodeType]string{
	miniquery.CompareExpressionType:     "Binary",
	miniquery.LogicExpressionType:       "Logic",
	miniquery.BetweenExpressionType:     "Between",
	miniquery.FunctionExpressionType:    "Function",
	miniquery.PredicatesExpressionType:  "Predicates",
	miniquery.ParenthesesExpressionType: "Parentheses",
	miniquery.NotExpressionType:         "Not",
	miniquery.IdentifierNodeType:        "Identifier",
	miniquery.ReferenceNodeType:         "Reference",
	miniquery.OperationNodeType:         "Operation",
	miniquery.ValueNodeType:             "Value",
}

type step struct {
	n     *miniquery.Node
	cb    string
	depth int
}

// below lists the children of a node in source order.
func below(n *miniquery.Node) (l []*miniquery.Node) {
	for _, c := range []*miniquery.Node{n.Left, n.Op, n.Right, n.Expression} {
		if c != nil {
			l = append(l, c)
		}
	}
	return append(append(l, n.Params...), n.Array...)
}

// expectVisit lists the callbacks a walk must make.
func expectVisit(n *miniquery.Node, has map[string]bool, deep bool, depth int, out *[]step) {
	cb := typeCb[n.Type]
	if has[cb] {
		*out = append(*out, step{n, cb, depth})
		if !deep {
			return
		}
		depth++
	}
	for _, c := range below(n) {
		expectVisit(c, has, deep, depth, out)
	}
}

func (w *World) visitOp(o *OpRun) {
	op := o.Op
	c11 := []string{"C11"}
	n, err := miniquery.Parse(op.Text)
	if err != nil {
		o.Err = err
		return
	}
	v, cbs := w.p.visitors[op.Share], w.p.visCbs[op.Share]
	if op.Share == 0 {
		cbs = op.Cbs
		v = newVisitor(cbs)
	}
	has := map[string]bool{}
	for _, c := range cbs {
		has[c] = true
	}
	var want []step
	expectVisit(n, has, op.Deep, 0, &want)
	before := Canon(n)
	for round := 0; round <= op.Repeat; round++ {
		r := &recorder{o: o, marker: o.Path, deep: op.Deep}
		exp := want
		var wantErr bool
		if op.FailAt > 0 && len(want) > 0 && round == 0 {
			r.failAt = 1 + (op.FailAt-1)%len(want)
			r.err = callbackErr(op.FailBy, r.failAt)
			exp = want[:r.failAt]
			wantErr = true
			w.fired("callback")
		}
		if len(exp) > 0 {
			w.non(o)
		}
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), recKey{}, r))
		r.ctx = ctx
		if op.Ended {
			cancel()
		}
		err := v.Visit(ctx, n)
		cancel()
		var got []string
		for i, x := range r.seen {
			got = append(got, r.cb[i]+":"+clipStr(Canon(x), 40))
		}
		w.log("visit %v err=%s", got, errText(err))
		var exps []string
		for _, x := range exp {
			exps = append(exps, x.cb+":"+clipStr(Canon(x.n), 40))
		}
		bad := len(r.seen) != len(exp)
		for i := range exp {
			if !bad && (r.seen[i] != exp[i].n || r.cb[i] != exp[i].cb || r.depth[i] != exp[i].depth) {
				bad = true
			}
		}
		switch {
		case r.strays > 0:
			w.violate(o, "visit-context", c11, "%q: %d callbacks were given a context that does not end when the caller's does", op.Text, r.strays)
		case bad:
			w.violate(o, "visit-order", c11, "%q with callbacks %v: saw %v, expected %v (err %v)", op.Text, cbs, got, exps, err)
		case wantErr && err == nil:
			w.violate(o, "visit-error", c11, "%q: callback %d failed but the walk returned no error", op.Text, r.failAt)
		case wantErr && err != r.err:
			w.violate(o, "visit-error", c11, "%q: callback %d failed, the walk returned %v", op.Text, r.failAt, err)
		case !wantErr && err != nil:
			w.violate(o, "visit-error", c11, "%q with callbacks %v: the walk returned %v", op.Text, cbs, err)
		case Canon(n) != before:
			w.violate(o, "visit-tree", c11, "%q: the walk changed the tree", op.Text)
		}
	}
}

func callbackErr(kind string, n int) error {
	switch kind {
	case "eof":
		return io.EOF
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	case "wrapped":
		return fmt.Errorf("callback: %w", io.EOF)
	case "nested":
		return errors.Join(errCallback, context.Canceled)
	}
	return &callbackError{n}
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
