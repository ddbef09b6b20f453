// Command instrument makes an overlay of the packages under test in which every
// statement is preceded by a scheduling point, the sync and time packages are
// replaced by simulated ones, go statements start simulated tasks and operations on
// channels wait in the simulation. Text is only inserted, on the same line, so line
// numbers stay those of the source.
// Statements that use a package variable that is changed somewhere, or that lock
// something, are marked: there preemption is more likely.
//
// It also patches two files of the standard library: the randomness of maps
// becomes a function of the run's seed, and under the race detector sync.Pool
// hands nothing on, which would order tasks that are not ordered otherwise.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// mode says how much is changed: "full" everything, "sync" keeps the real sync and
// time packages, "plain" keeps the packages under test as they are.
var mode string

type ins struct {
	off, end int // replaced range
	ord      int
	s        string
}

func main() {
	if len(os.Args) != 5 {
		fmt.Fprintln(os.Stderr, "usage: instrument full|sync|plain REPO GOROOT OUTDIR")
		os.Exit(2)
	}
	mode = os.Args[1]
	os.Args = os.Args[1:]
	repo, goroot, out := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	points := 0
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb, n, err := instrument(p, b)
		if err != nil {
			return err
		}
		points += n
		rel, _ := filepath.Rel(repo, p)
		o := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(o), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(o, nb, 0o644); err != nil {
			return err
		}
		repl[p] = o
		return nil
	})
	for _, p := range patches {
		if err == nil {
			err = p.apply(goroot, out, repl)
		}
	}
	if err == nil {
		var j []byte
		j, err = json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	fmt.Printf("instrumented %d files, %d scheduling points\n", len(repl), points)
}

// patch replaces text of a file of the standard library.
type patch struct {
	file  string
	edits [][2]string
}

var patches = []patch{
	{"src/runtime/rand.go", [][2]string{
		{"\tglobalRand.state.Init(*seed)\n", "\t*seed = [32]byte{1}\n\tglobalRand.state.Init(*seed)\n"},
		{"func maps_rand() uint64 {\n\treturn rand()\n}\n", `func maps_rand() uint64 {
	simRand += 0x9E3779B97F4A7C15
	z := simRand
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

var simRand uint64

//go:linkname simSeed verifsim/simrt.seedRuntime
func simSeed(s uint64) { simRand = s }
`},
	}},
	{"src/sync/pool.go", [][2]string{{"if runtime_randn(4) == 0 {", "if true || runtime_randn(4) == 0 {"}}},
}

func (p patch) apply(goroot, out string, repl map[string]string) error {
	name := filepath.Join(goroot, p.file)
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	s := string(b)
	for _, e := range p.edits {
		if strings.Count(s, e[0]) != 1 {
			return fmt.Errorf("%s is not as expected", name)
		}
		s = strings.Replace(s, e[0], e[1], 1)
	}
	o := filepath.Join(out, "std", strings.ReplaceAll(p.file, "/", "_"))
	if err := os.MkdirAll(filepath.Dir(o), 0o755); err != nil {
		return err
	}
	repl[name] = o
	return os.WriteFile(o, []byte(s), 0o644)
}

func instrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" || mode == "plain" {
		return src, 0, nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var list []ins
	add := func(o, e int, s string) { list = append(list, ins{o, e, len(list), s}) }
	points := 0
	// calls that lock or unlock something are bracketed so that the scheduler can
	// tell which locks it does not simulate
	lock := func(s ast.Stmt) {
		var call *ast.CallExpr
		d, deferred := s.(*ast.DeferStmt)
		if deferred {
			call = d.Call
		} else if e, ok := s.(*ast.ExprStmt); ok {
			call, _ = e.X.(*ast.CallExpr)
		}
		if call == nil || len(call.Args) > 0 {
			return
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		switch sel.Sel.Name {
		case "Lock", "RLock":
			if !deferred {
				add(off(s.Pos()), off(s.Pos()), "simrt__.LockBegin(); ")
				add(off(s.End()), off(s.End()), "; simrt__.Locked()")
			}
		case "Unlock", "RUnlock":
			if deferred {
				add(off(s.Pos()), off(s.Pos()), "defer simrt__.Unlocked(); ")
				add(off(s.End()), off(s.End()), "; defer simrt__.LockBegin()")
			} else {
				add(off(s.Pos()), off(s.Pos()), "simrt__.LockBegin(); ")
				add(off(s.End()), off(s.End()), "; simrt__.Unlocked()")
			}
		}
	}
	vars := changed(filepath.Dir(name))
	stmts := func(l []ast.Stmt) {
		was := false
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			is := shares(s, vars)
			if is || was {
				add(off(s.Pos()), off(s.Pos()), "simrt__.H(); ")
			} else {
				add(off(s.Pos()), off(s.Pos()), "simrt__.Y(); ")
			}
			was = is
			lock(s)
		}
	}
	chans := channels(filepath.Dir(name))
	labelled := map[*ast.SelectStmt]bool{}
	two := map[ast.Expr]bool{} // receive operations that say whether there was a value
	selects := 0
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if mode != "full" && channelOp(n) {
			return true
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " simrt__.H() ")
			}
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
				labelled[sel] = true
			}
		case *ast.SelectStmt:
			if labelled[n] || len(n.Body.List) == 0 {
				break
			}
			selects++
			sel, dflt := "", "false"
			var args []string
			for i, c := range n.Body.List {
				c := c.(*ast.CommClause)
				v := fmt.Sprintf("sel%d_%d__", selects, i)
				use := ""
				switch x := c.Comm.(type) {
				case nil:
					dflt = "true"
					stmts(c.Body)
					for _, s := range c.Body {
						ast.Inspect(s, visit)
					}
					continue
				case *ast.SendStmt:
					sel += fmt.Sprintf("%s := simrt__.SendCase(%s)(%s); ", v, text(x.Chan), text(x.Value))
				case *ast.ExprStmt:
					sel += fmt.Sprintf("%s := simrt__.RecvCase(%s); ", v, text(arrow(x.X)))
				case *ast.AssignStmt:
					sel += fmt.Sprintf("%s := simrt__.RecvCase(%s); ", v, text(arrow(x.Rhs[0])))
					use = " " + text(x.Lhs[0])
					if len(x.Lhs) == 2 {
						use += ", " + text(x.Lhs[1])
					}
					use += " " + x.Tok.String() + " " + v + ".V"
					if len(x.Lhs) == 2 {
						use += ", " + v + ".OK"
					}
					use += ";"
				}
				add(off(c.Pos()), off(c.Colon), fmt.Sprintf("case %d", len(args)))
				if use != "" {
					add(off(c.Colon)+1, off(c.Colon)+1, use)
				}
				args = append(args, v)
				stmts(c.Body)
				for _, s := range c.Body {
					ast.Inspect(s, visit)
				}
			}
			add(off(n.Pos()), off(n.Body.Lbrace), "{ "+sel+"switch simrt__.Select("+strings.Join(append([]string{dflt}, args...), ", ")+") ")
			if dflt == "false" {
				// a select whose clauses all return needs nothing after it
				add(off(n.Body.Rbrace), off(n.Body.Rbrace), "; default: panic(\"select\") ")
			}
			add(off(n.End()), off(n.End()), " }")
			return false
		case *ast.SendStmt:
			add(off(n.Chan.Pos()), off(n.Chan.Pos()), "simrt__.Send(")
			add(off(n.Chan.End()), off(n.Value.Pos()), ")(")
			add(off(n.Value.End()), off(n.Value.End()), ")")
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[unparen(n.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				f := "Recv"
				if two[n] {
					f = "Recv2"
				}
				add(off(n.Pos()), off(n.X.Pos()), "simrt__."+f+"(")
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.RangeStmt:
			if n.Value == nil && chans.is(n.X) {
				add(off(n.X.Pos()), off(n.X.Pos()), "simrt__.Range(")
				add(off(n.X.End()), off(n.X.End()), ")")
			}
		case *ast.CallExpr:
			switch text(n.Fun) {
			case "close":
				add(off(n.Fun.Pos()), off(n.Fun.End()), "simrt__.Close")
			case "runtime.Gosched":
				add(off(n.Pos()), off(n.End()), "simrt__.Yield(runtime.Gosched)")
				return false
			}
		case *ast.GoStmt:
			var names, vals []string
			for i, a := range n.Call.Args {
				names = append(names, "ga"+strconv.Itoa(i)+"__")
				vals = append(vals, text(a))
			}
			pre, call := "", strings.Join(names, ", ")
			if len(names) > 0 {
				pre = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
				if n.Call.Ellipsis.IsValid() {
					call += "..."
				}
			}
			add(off(n.Pos()), off(n.Call.Pos()), "{ "+pre+"simrt__.Go(func() { ")
			add(off(n.Call.Lparen)+1, off(n.Call.Rparen), call)
			add(off(n.End()), off(n.End()), " }) }")
			if len(names) > 0 {
				ast.Inspect(n.Call.Fun, visit)
				return false
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	// clauses were counted as statements of the switch/select body: drop those
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	var keep []ins
	for _, i := range list {
		if i.off == i.end && clause[i.off] && (i.s == "simrt__.Y(); " || i.s == "simrt__.H(); ") {
			points--
			continue
		}
		keep = append(keep, i)
	}
	list = keep
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np := map[string]string{"sync": "verifsim/simsync", "time": "verifsim/simtime"}[p]
		if np == "" || mode != "full" {
			continue
		}
		s := strconv.Quote(np)
		if im.Name == nil {
			s = p + " " + s
		}
		add(off(im.Path.Pos()), off(im.Path.End()), s)
	}
	if points > 0 {
		add(off(f.Name.End()), off(f.Name.End()), `; import simrt__ "verifsim/simrt"`)
	}
	sort.SliceStable(list, func(i, j int) bool {
		if list[i].off != list[j].off {
			return list[i].off < list[j].off
		}
		return list[i].ord < list[j].ord
	})
	var b bytes.Buffer
	last := 0
	for _, i := range list {
		if i.off < last {
			return nil, 0, fmt.Errorf("%s: overlapping edits at %d", name, i.off)
		}
		b.Write(src[last:i.off])
		b.WriteString(i.s)
		last = i.end
	}
	b.Write(src[last:])
	return b.Bytes(), points, nil
}

// shares says whether the statement itself, without the statements inside it, uses
// one of the variables or synchronises.
func shares(s ast.Stmt, vars map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			found = found || vars[n.Name]
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.SelectStmt:
			found = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
				switch sel.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "Load", "Store", "LoadOrStore", "LoadAndDelete", "Swap", "CompareAndSwap", "Do", "Put":
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// channelOp says whether n may be an operation on a channel.
func channelOp(n ast.Node) bool {
	switch n.(type) {
	case *ast.SelectStmt, *ast.SendStmt, *ast.UnaryExpr, *ast.RangeStmt, *ast.CallExpr:
		return true
	}
	return false
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// arrow returns the channel of a receive operation.
func arrow(e ast.Expr) ast.Expr { return unparen(e).(*ast.UnaryExpr).X }

// names are the names of a directory that seem to be those of channels.
type names map[string]bool

func (n names) is(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return n[x.Name]
	case *ast.SelectorExpr:
		return n[x.Sel.Name]
	case *ast.CallExpr:
		return n["func "+last(x.Fun)]
	case *ast.IndexExpr:
		return n.is(x.X)
	}
	return false
}

func last(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return ""
}

var channelsIn = map[string]names{}

func channels(dir string) names {
	if m := channelsIn[dir]; m != nil {
		return m
	}
	m := names{"func Done": true, "func Tick": true, "func After": true, "C": true}
	channelsIn[dir] = m
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	isType := func(e ast.Expr) bool { _, ok := e.(*ast.ChanType); return ok }
	isValue := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == "make" && isType(c.Args[0])
	}
	for _, n := range files {
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Field:
				if isType(n.Type) {
					for _, id := range n.Names {
						m[id.Name] = true
					}
				}
			case *ast.ValueSpec:
				for i, id := range n.Names {
					if isType(n.Type) || i < len(n.Values) && isValue(n.Values[i]) {
						m[id.Name] = true
					}
				}
			case *ast.AssignStmt:
				for i, l := range n.Lhs {
					if i < len(n.Rhs) && isValue(n.Rhs[i]) {
						m[last(l)] = true
					}
				}
			case *ast.KeyValueExpr:
				if isValue(n.Value) {
					m[last(n.Key)] = true
				}
			case *ast.FuncDecl:
				if r := n.Type.Results; r != nil && len(r.List) == 1 && isType(r.List[0].Type) {
					m["func "+n.Name.Name] = true
				}
			}
			return true
		})
	}
	delete(m, "")
	delete(m, "_")
	return m
}

var changedIn = map[string]map[string]bool{}

// changed returns the package variables of a directory that some statement may
// change: it assigns to them or to a part of them, takes their address, calls a
// method of them or hands them to a function.
func changed(dir string) map[string]bool {
	if m := changedIn[dir]; m != nil {
		return m
	}
	m := map[string]bool{}
	changedIn[dir] = m
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	vars := map[string]bool{}
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil {
			continue // reported when it is instrumented
		}
		files = append(files, f)
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, id := range v.Names {
					if i < len(v.Values) {
						if c, ok := v.Values[i].(*ast.CallExpr); ok {
							if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "MustCompile" {
								continue // a regular expression does not change
							}
						}
					}
					if id.Name != "_" {
						vars[id.Name] = true
					}
				}
			}
		}
	}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.Ident:
				if vars[x.Name] {
					m[x.Name] = true
				}
				return
			default:
				return
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
				for _, r := range n.Rhs {
					if _, ok := r.(*ast.IndexExpr); !ok {
						mark(r) // another name for it
					}
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.CallExpr:
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					mark(sel.X)
				}
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
					return true
				}
				for _, a := range n.Args {
					if _, ok := a.(*ast.IndexExpr); !ok {
						mark(a)
					}
				}
			}
			return true
		})
	}
	return m
}
