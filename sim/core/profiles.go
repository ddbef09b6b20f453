package core

import (
	"slices"
	"strconv"
	"strings"
	"unicode"

	"verifsim/ref"
	"verifsim/simrt"
)

// Props are the properties with a check.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"}

// RunSeed derives the seed of run i of a session.
func RunSeed(base uint64, prop string, session, i int) uint64 {
	h := base
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	h ^= uint64(session)<<24 ^ uint64(i)
	r := simrt.NewRand(h)
	r.Uint64()
	return r.Uint64()
}

// pg is a plan generator.
type pg struct {
	r      *simrt.Rand
	p      *Plan
	faults bool
	style  int
	deep   bool // thorough tier: larger runs
	simple bool // simple filters only
	pool   map[string][]string
}

// MakePlan generates the plan of a run.
func MakePlan(prop string, seed uint64, deep bool) *Plan {
	r := simrt.NewRand(seed)
	p := &Plan{Prop: prop, Seed: seed, DataSeed: r.Uint64() % 4096}
	g := &pg{r: r, p: p, deep: deep, pool: map[string][]string{}}
	g.style = r.Intn(3)
	g.faults = r.P(1, 2)
	p.DataSize = []int{3, 6, 8, 12}[r.Intn(4)]
	if deep && r.P(1, 8) {
		p.DataSize = 40
	}
	p.SchedMean = []int64{7, 30, 150, 800, 4000}[r.Intn(5)]
	p.SchedShy = []int{0, 2, 3, 6, 20}[r.Intn(5)]
	p.Cfg.SkipTx = r.P(1, 4)
	p.Cfg.QueryFields = r.P(1, 4)
	p.Cfg.PG = r.P(1, 5)
	if r.P(1, 3) {
		p.Cfg.MaxIdle = 1 + r.Intn(2)
	}
	if r.P(1, 2) {
		p.Cfg.LatencyNS = []int64{1000, 1_000_000, 40_000_000}[r.Intn(3)]
	}
	if !g.faults && r.P(1, 8) {
		p.Cfg.PrepareStmt = true
		p.Cfg.LatencyNS = 0
	}
	switch prop {
	case "C05race":
		p.Prop = "C05"
		g.faults = false
		g.c05race()
		p.Profile = "race"
		return p
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.ent("entsql")
	case "C09":
		g.ent("entql")
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	}
	p.Profile = "fault-free"
	if g.faults {
		p.Profile = "faults"
	}
	if !g.faults {
		stripFaults(p)
	}
	if r.P(1, 3) {
		for i := range p.Clients {
			for j := range p.Clients[i].Ops {
				if o := &p.Clients[i].Ops[j]; o.Ctx && r.P(1, 2) {
					o.DueNS = []int64{500, 2000, 30_000, 3_600_000}[r.Intn(4)] * 1_000_000
				}
			}
		}
	}
	if r.P(1, 6) {
		for i := range p.Clients {
			for j, n := 0, 0; j < len(p.Clients[i].Ops) && n < 6; j++ {
				if r.P(1, 3) {
					n++
					p.Clients[i].Ops[j].PauseNS = []int64{1, 1000, 2100, 11_000, 61_000, 620_000, 3_700_000, 87_000_000}[r.Intn(8)]*1_000_000 + int64(r.Intn(1_000_000))
				}
			}
		}
	}
	return p
}

// SessionPlan makes the plan of a run of a session. The runs of a session share a
// process, the clock is never turned back between them.
func SessionPlan(mode string, base uint64, prop string, session, i int, deep bool) *Plan {
	const day = 24 * 3600 * 1_000_000_000
	p := MakePlan(mode, RunSeed(base, prop, session, i), deep)
	p.WallNS = int64(RunSeed(base, prop, session, 1<<20)%1000)*day + int64(i)*10*day
	r := simrt.NewRand(p.Seed ^ 0x77a11)
	p.WallNS += int64(r.Uint64() % (3 * day))
	if r.P(1, 4) {
		// shortly before a minute, an hour or a day ends
		n := []int64{60, 3600, 24 * 3600}[r.Intn(3)] * 1_000_000_000
		p.WallNS -= (p.WallNS + 1_700_000_000_000_000_000) % n
		p.WallNS += n - []int64{1, 1000, 1_000_000, 900_000_000}[r.Intn(4)] - 1_000_000_000
	}
	if i == 10 && prop != "C06" && !strings.HasSuffix(mode, "race") && RunSeed(base, prop, session, 1<<21)%8 == 0 && len(p.Clients) > 0 {
		// the rest of the session runs in a process that has seen many texts
		o := Op{Kind: "wear", Model: "accounts", Repeat: 1, Many: floodSize(r), Dialect: "sqlite", Uses: []Use{{Via: "apply", Texts: []string{"id = 1"}}}}
		p.Clients[0].Ops = append([]Op{o}, p.Clients[0].Ops...)
	}
	return p
}

func floodSize(r *simrt.Rand) int {
	if r.P(1, 24) {
		return 70_000
	}
	return []int{300, 300, 1100, 1100, 4500, 4500, 9000, 20_000}[r.Intn(8)]
}

func stripFaults(p *Plan) {
	var walk func(l []Op)
	walk = func(l []Op) {
		for i := range l {
			if l[i].Kind != "visit" {
				l[i].Faults = nil
			}
			walk(l[i].Sub)
		}
	}
	for i := range p.Clients {
		walk(p.Clients[i].Ops)
	}
}

func (g *pg) pick(l ...string) string { return l[g.r.Intn(len(l))] }

// clients fills n clients with operations.
func (g *pg) clients(lo, hi int, ops int, f func(client int) []Op) {
	n := lo + g.r.Intn(hi-lo+1)
	for c := 0; c < n; c++ {
		var l []Op
		k := 1 + g.r.Intn(ops)
		for i := 0; i < k; i++ {
			l = append(l, f(c)...)
		}
		g.p.Clients = append(g.p.Clients, Client{l})
	}
}

func one(o Op) []Op { return []Op{o} }

func (g *pg) gen(table, backend string) *Gen {
	return &Gen{R: g.r, T: Tables[table], Backend: backend, Style: g.style, Weird: []int{0, 1, 4}[g.r.Intn(3)], Mixed: g.r.P(1, 4)}
}

// rels lets the filter use relations.
func (g *pg) rels(x *Gen) {
	t := x.T
	for _, r := range t.Rels {
		if r.Many || !g.r.P(2, 5) {
			continue
		}
		x.Rels = append(x.Rels, r.Name)
	}
}

func (g *pg) depth() int {
	d := g.r.Intn(3)
	if g.deep && g.r.P(1, 6) {
		d = 3 + g.r.Intn(2)
	}
	return d
}

func (g *pg) simpleFilter(table string) string {
	if table != "devices" && g.r.P(1, 10) {
		return g.pick("deleted_at is null", "deleted_at is not null or id > 2", "id < 4 and DeletedAt is null")
	}
	l := []string{"id > 1", "id <= 3", "hits = 0", "hits < 2", "age >= 1", "tenant_id = 1", "id != 2", "id in [1,2,3,5]", "hits = 1 or id = 1", "age < 4 or hits > 0", "not id = 1", "id between 2 and 5"}
	return l[g.r.Intn(len(l))]
}

func (g *pg) model() string {
	if g.r.P(1, 4) {
		return "devices"
	}
	return "accounts"
}

// gormModel is a model of gorm, twins included.
func (g *pg) gormModel() string {
	if g.r.P(1, 6) {
		return "twins"
	}
	return g.model()
}

// via wraps a filter text in one of the ways to attach it.
func (g *pg) via(texts ...string) Use {
	if g.r.P(1, 10) {
		i := g.r.Intn(len(texts) + 1)
		texts = slices.Insert(copyList(texts), i, g.pick("", " ", "\t\n"))
	}
	if len(texts) > 1 {
		return Use{Via: "list", Texts: texts, Now: g.r.P(1, 4)}
	}
	u := Use{Via: g.pick("apply", "apply", "list", "wire"), Texts: texts}
	u.Now = u.Via != "wire" && g.r.P(1, 4)
	return u
}

// viaAny also makes the filter a condition of its own.
func (g *pg) viaAny(text string) Use {
	if g.r.P(1, 4) {
		return Use{Via: g.pick("group", "gscope", "orgroup", "andgroup", "not"), Texts: []string{text}}
	}
	return g.via(text)
}

func (g *pg) conds(table string) []Cond {
	var l []Cond
	max, num := 2, 1
	if g.r.P(1, 24) {
		max, num = 8, 2
	}
	for g.r.P(num, 3) && len(l) < max {
		l = append(l, Cond{K: g.pick("tenant", "map", "struct", "age_or", "group", "not"), N: int64(1 + g.r.Intn(2)), Pos: g.r.Intn(2)})
	}
	return l
}

func (g *pg) fault(lim int, kinds ...string) []Fault {
	if !g.faults || g.p.Cfg.PrepareStmt {
		return nil
	}
	var l []Fault
	for g.r.P(2, 5) && len(l) < 3 {
		l = append(l, Fault{Call: 1 + g.r.Intn(lim), Kind: kinds[g.r.Intn(len(kinds))], Row: g.r.Intn(6)})
	}
	return l
}

var readFaults = []string{"badconn", "badconn", "ioerr", "ioerr_after", "rowerr", "rowerr", "crash_before", "crash_after", "latency"}
var writeFaults = []string{"badconn", "badconn", "ioerr", "ioerr_after", "crash_before", "crash_after", "latency"}

// read fills in a read operation around the given uses; joins says whether the
// filters use relations.
func (g *pg) read(model string, uses []Use, joins bool) Op {
	o := Op{Kind: g.pick("find", "find", "find", "count", "first", "last", "take", "pluck", "rows", "batches", "maps", "scan", "groupby", "firstinit"), Model: model, Uses: uses}
	if joins && (o.Kind == "pluck" || o.Kind == "groupby") {
		o.Kind = "find"
	}
	o.Conds = g.conds(model)
	if model != "devices" {
		o.Unscoped = g.r.P(1, 6)
	}
	switch o.Kind {
	case "find", "rows", "pluck", "maps", "scan":
		if g.r.P(1, 3) {
			o.Order = g.pick("asc", "desc")
			if g.r.P(1, 2) {
				o.Limit = g.limit()
				o.Offset = g.r.Intn(3)
			}
		}
		if o.Kind == "find" && g.r.P(1, 6) {
			o.Select = []string{"id", g.pick("age", "tenant_id", "hits")}
			if g.r.P(1, 4) {
				o.Select = []string{"id", "age", "hits", "tenant_id"}
			}
			o.Distinct = g.r.P(1, 3)
		} else if o.Kind == "find" && g.r.P(1, 8) {
			o.Distinct = true
		}
	}
	if (o.Kind == "first" || o.Kind == "take" || o.Kind == "last") && g.r.P(1, 6) {
		o.Conds = append(o.Conds, Cond{K: "key", N: int64(1 + g.r.Intn(6))})
	} else if g.r.P(1, 3) {
		o.Handle = g.pick("sess", "model", "where")
		if model != "accounts" {
			o.Handle = "sess"
		}
	}
	if len(o.Select) == 0 && o.Kind != "pluck" && o.Kind != "groupby" && g.r.P(1, 6) {
		n := 1 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			j := "Account"
			if model != "devices" {
				j = g.pick("Profile", "Company", "Manager", "Badge")
			}
			switch g.r.Intn(4) {
			case 0:
				j = "inner:" + j
			case 1:
				j = "raw"
			}
			if !strings.Contains(strings.Join(o.Joins, " "), strings.TrimPrefix(j, "inner:")) {
				o.Joins = append(o.Joins, j)
			}
		}
		o.JoinLate = g.r.P(1, 2)
	}
	if g.r.P(1, 8) && o.Handle != "where" {
		o.Alias = true
	}
	if g.r.P(1, 8) {
		o.Sess = g.sess("hooks", "fields", "notx", "nonested", "global", "batch", "save", "unscoped", "set", "preload", "preload", "lock", "columns", "orders", "orders")
	}
	if len(uses) > 1 && g.r.P(1, 3) {
		o.Fork = g.simpleFilter(model)
	}
	if g.r.P(1, 4) {
		o.Ctx = true
	}
	kinds := readFaults
	if o.Ctx {
		kinds = append([]string{"cancel", "cancel"}, kinds...)
	}
	o.Faults = g.fault(4, kinds...)
	return o
}

// noModel makes an operation that has no usable model to look up fields in.
func (g *pg) noModel() Op {
	model := g.gormModel()
	f, _ := g.filter(model, false)
	u := g.via("tenant_id >= 0 and (" + f + "\n)")
	switch u.Via {
	case "apply", "list", "wire":
	default:
		u.Via = "apply"
	}
	o := Op{Kind: g.pick("maps", "count", "scan", "pluck", "update"), Model: model, Uses: []Use{u}, NoModel: g.pick("none", "bad")}
	o.Conds = []Cond{{K: "tenant", N: 1, Pos: g.r.Intn(2)}}
	o.Ctx = g.r.P(1, 4)
	return o
}

func (g *pg) write(model string, uses []Use) Op {
	o := Op{Kind: g.pick("update", "update", "delete"), Model: model, Uses: uses}
	o.Conds = g.conds(model)
	if model != "devices" {
		o.Unscoped = g.r.P(1, 6)
	}
	if o.Kind == "update" && g.r.P(1, 2) {
		o.Set = int64(1 + g.r.Intn(5))
	}
	if g.r.P(1, 3) {
		switch {
		case o.Kind == "delete":
			o.How = g.pick("returning", "slice")
		case o.Set > 0:
			o.How = g.pick("columns", "select", "returning")
		default:
			o.How = g.pick("columns", "select", "returning", "column", "quiet")
		}
	}
	if len(uses) > 1 && g.r.P(1, 3) {
		o.Fork = g.simpleFilter(model)
	}
	if (o.How == "" || o.How == "columns") && g.r.P(1, 8) {
		o.Conds = append(o.Conds, Cond{K: "key", N: int64(1 + g.r.Intn(6))})
	} else if g.r.P(1, 3) {
		o.Handle = g.pick("sess", "model", "where")
		if model != "accounts" {
			o.Handle = "sess"
		}
	}
	if g.r.P(1, 8) {
		o.Sess = g.sess("hooks", "fields", "nonested", "global", "batch", "unscoped", "set", "omit")
	}
	if g.r.P(1, 24) {
		// nothing but blank filters
		o.Conds, o.Handle = nil, ""
		o.Uses = []Use{{Via: g.pick("apply", "wire", "list"), Texts: []string{""}}}
		if o.Uses[0].Via == "list" {
			o.Uses[0].Texts = [][]string{{}, {""}, {"", " "}, {" ", "", "\n"}}[g.r.Intn(4)]
		}
	}
	if g.r.P(1, 5) {
		o.Ctx = true
	}
	kinds := writeFaults
	if o.Ctx {
		kinds = append([]string{"cancel", "cancel"}, kinds...)
	}
	o.Faults = g.fault(5, kinds...)
	return o
}

func (g *pg) sess(l ...string) []string {
	var r []string
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		k := l[g.r.Intn(len(l))]
		if len(r) == 0 || r[0] != k {
			r = append(r, k)
		}
	}
	return r
}

var nearOps = map[string]string{"gt": "gte", "gte": "gt", "lt": "lte", "lte": "lt", "eq": "neq", "neq": "eq", "in": "not in", "not in": "in", "and": "or", "or": "and", "like": "not like", "not like": "like", "between": "not between", "not between": "between", "is null": "is not null", "is not null": "is null"}

// near makes a filter that looks almost like another one: it differs in one
// literal or operator, in a negation, or only in spelling.
func (g *pg) near(s string) string {
	e, err := ref.Parse(s)
	if err != nil {
		return s
	}
	e = e.Clone()
	sp := g.pick(" ", " ", "  ", "\n", " --\n")
	if g.r.P(1, 6) {
		// not the same text any more, and perhaps no filter
		x := g.pick(";", " ;", ")", "'", " ", "\n", "\t", " --", "\n-- x\n", ",", "\x00", "\u00a0", "\ufeff")
		if g.r.P(1, 4) {
			return x + s
		}
		return s + x
	}
	switch lits := e.Literals(); g.r.Intn(6) {
	case 0:
		return "not (" + s + ")"
	case 1, 2, 3:
		if len(lits) == 0 {
			break
		}
		x := lits[g.r.Intn(len(lits))]
		switch x.K {
		case ref.KStr:
			switch g.r.Intn(8) {
			case 5:
				x.S = g.pick("a b", "a  b", "a\tb", "a\nb", "a b ", " a b", "a -- b", "a // b", "a b --")
			case 6:
				x.S = strings.Join(strings.Fields(x.S), g.pick(" ", "  ", "\t", ""))
			case 7:
				if r := []rune(x.S); len(r) > 0 {
					i := g.r.Intn(len(r))
					r[i] = []rune("aQ7 _%")[g.r.Intn(6)]
					x.S = string(r)
				}
			case 0:
				x.S = strings.ToUpper(x.S)
			case 1:
				x.S = strings.ToLower(x.S)
			case 2:
				x.S = " " + x.S + " "
			case 3:
				x.S = strings.ReplaceAll(x.S, " ", "  ") + "--"
			case 4:
				r := []rune(x.S)
				for i := range r {
					if u := unicode.ToUpper(r[i]); u != r[i] {
						r[i] = u
						break
					}
				}
				x.S = string(r)
			}
		case ref.KInt:
			switch g.r.Intn(3) {
			case 0:
				x.I = max(0, min(x.I, 1<<40)+int64(g.r.Intn(3))-1)
			case 1:
				// as many digits
				x.I = x.I - x.I%10 + int64(g.r.Intn(8))
			case 2:
				x.I = min(x.I, 1<<40)*10 + int64(g.r.Intn(10))
			}
		case ref.KBool:
			x.B = !x.B
		}
	case 4:
		var l []*ref.E
		e.Walk(func(x *ref.E) {
			if nearOps[x.Op] != "" {
				l = append(l, x)
			}
		})
		if len(l) > 0 {
			x := l[g.r.Intn(len(l))]
			x.Op = nearOps[x.Op]
		}
	}
	for _, x := range e.Literals() {
		if _, ok := ref.Quote(x.S); x.K == ref.KStr && !ok {
			return s
		}
	}
	return ref.Render(e, sp, nil)
}

// twist changes one character inside a literal.
func (g *pg) twist(s string) string {
	var at []int
	q := byte(0)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case q != 0 && c == q:
			q = 0
		case q == 0 && (c == '\'' || c == '"'):
			q = c
		case c >= '0' && c <= '9', q != 0 && (c >= 'a' && c <= 'z' || c == ' '):
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return s
	}
	b := []byte(s)
	i := at[g.r.Intn(len(at))]
	switch {
	case b[i] == ' ':
		b[i] = "\t_\n."[g.r.Intn(4)]
	case b[i] <= '9':
		b[i] = '1' + byte(g.r.Intn(9))
	case g.r.P(1, 2):
		b[i] -= 32
	default:
		b[i] = 'a' + byte(g.r.Intn(26))
	}
	return string(b)
}

// alike makes uses of texts that are easily taken for each other.
func (g *pg) alike() []Op {
	x := g.gen("accounts", "gorm")
	t := x.Filter(1)
	for g.r.P(1, 2) && len(t) < 300 {
		t += g.pick(" and ", " or ") + x.Cond(0) + g.pick("", " and name != 'a  b c'", " and hits != 12345")
	}
	n := 2 + g.r.Intn(3)
	var l []Op
	for i := 0; i < n; i++ {
		u := t
		if i > 0 || g.r.P(1, 3) {
			if u = g.near(t); g.r.P(1, 2) {
				u = g.twist(t)
			}
		}
		switch g.r.Intn(6) {
		case 0:
			l = append(l, Op{Kind: "entqlbuild", Text: u})
		case 1:
			l = append(l, Op{Kind: "entrender", Text: u, Model: "accounts", Dialect: "sqlite"})
		case 2:
			l = append(l, Op{Kind: "find", Model: g.pick("accounts", "accounts", "twins"), Uses: []Use{g.via(u)}})
		case 3:
			l = append(l, Op{Kind: "string", Text: u})
		default:
			l = append(l, Op{Kind: "parse", Text: u})
		}
	}
	return l
}

// filter makes a well-formed gorm filter; joins tells whether it uses relations.
func (g *pg) filter(model string, allowRels bool) (string, bool) {
	if g.simple {
		return g.simpleFilter(model), false
	}
	// reuse makes clients work on the same texts
	key := Tables[model].Name
	if l := g.pool[key]; len(l) > 0 && g.r.P(1, 5) {
		s := l[g.r.Intn(len(l))]
		if g.r.P(1, 3) {
			s = g.near(s)
		}
		return s, false
	}
	x := g.gen(model, "gorm")
	if allowRels && g.r.P(1, 3) {
		g.rels(x)
	}
	s := x.Filter(g.depth())
	if len(x.Rels) == 0 {
		g.pool[key] = append(g.pool[key], s)
	}
	return s, len(x.Rels) > 0
}

func (g *pg) goodUses(model string, allowRels bool) ([]Use, bool) {
	var uses []Use
	joins := false
	n := 1
	if g.r.P(1, 8) {
		n = 2
		if g.r.P(1, 3) {
			n += g.r.Intn(4)
		}
	}
	for i := 0; i < n; i++ {
		f, j := g.filter(model, allowRels)
		joins = joins || j
		u := g.via(f)
		if !j && g.r.P(1, 5) {
			u = Use{Via: g.pick("group", "gscope", "orgroup", "andgroup", "not", "sub"), Texts: []string{f}}
		}
		uses = append(uses, u)
	}
	return uses, joins
}

// relRead makes a read of related rows with the filter on the related model.
func (g *pg) relRead(bad bool) Op {
	m := g.model()
	rels := Tables[m].Rels
	r := rels[g.r.Intn(len(rels))]
	o := Op{Kind: g.pick("preload", "preload", "assoc", "assoccount"), Model: m, Rel: r.Name, Parent: int64(g.r.Intn(40))}
	x := g.gen(r.Table, "gorm")
	if g.r.P(1, 4) {
		g.rels(x)
	}
	d := g.depth()
	if g.simple {
		d = 0
	}
	s := x.Filter(d)
	if bad {
		s = x.Bad()
	}
	o.Uses = []Use{{Via: g.pick("apply", "list"), Texts: []string{s}}}
	if o.Kind == "preload" {
		o.Conds = g.conds(m)
		if g.r.P(1, 2) {
			o.Uses[0] = g.viaAny(s)
		}
		if g.r.P(1, 3) {
			o.Order = g.pick("asc", "desc")
			o.Limit = g.limit()
		}
		if g.r.P(1, 3) {
			o.Handle = g.pick("sess", "model", "where")
			if m != "accounts" {
				o.Handle = "sess"
			}
		}
	}
	o.Unscoped = g.r.P(1, 5)
	o.Ctx = g.r.P(1, 4)
	kinds := readFaults
	if o.Ctx {
		kinds = append([]string{"cancel", "cancel"}, kinds...)
	}
	o.Faults = g.fault(5, kinds...)
	return o
}

func (g *pg) goodRead() Op {
	if g.r.P(1, 8) {
		return g.relRead(false)
	}
	m := g.gormModel()
	u, j := g.goodUses(m, true)
	return g.read(m, u, j)
}

func (g *pg) goodWrite() Op {
	m := g.gormModel()
	u, _ := g.goodUses(m, false)
	if !g.simple && g.r.P(1, 12) {
		// a relation in a write: refused by the engine, must not apply anything
		x := g.gen(m, "gorm")
		g.rels(x)
		u = []Use{g.via(x.Filter(1))}
	}
	return g.write(m, u)
}

// txn makes a transaction of operations made by f.
func (g *pg) txn(depth int, f func() Op) Op {
	o := Op{Kind: "txn", Handle: g.pick("", "", "sess"), End: g.pick("commit", "commit", "commit", "rollback", "error", "panic"), Manual: g.r.P(1, 3), Ctx: g.r.P(1, 4), Ignore: g.r.P(1, 3)}
	if o.Manual && o.End == "panic" {
		o.End = "rollback"
	}
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		s := f()
		s.Handle, s.Ctx, s.PreCancel = "", false, false
		for j := range s.Faults {
			if s.Faults[j].Kind == "cancel" && !o.Ctx {
				s.Faults[j].Kind = "ioerr"
			}
			s.Faults[j].Call = 1
		}
		if s.Kind == "batches" {
			s.Kind = "find"
		}
		if len(s.Faults) > 1 {
			s.Faults = s.Faults[:1]
		}
		o.Sub = append(o.Sub, s)
	}
	if depth > 0 && g.r.P(1, 3) {
		n := g.txn(depth-1, f)
		n.Manual, n.Handle, n.Ctx = false, "", false
		o.Sub = append(o.Sub, n)
		if g.r.P(1, 2) {
			s := f()
			s.Handle, s.Ctx, s.PreCancel, s.Faults = "", false, false, nil
			if s.Kind == "batches" {
				s.Kind = "find"
			}
			o.Sub = append(o.Sub, s)
		}
	}
	kinds := writeFaults
	if o.Ctx {
		kinds = append([]string{"cancel"}, kinds...)
	}
	o.Faults = g.fault(4, kinds...)
	return o
}

func (g *pg) badUses(model string) []Use {
	x := g.gen(model, "gorm")
	if g.r.P(1, 4) {
		g.rels(x)
	}
	bad := x.Bad()
	var u []Use
	switch g.r.Intn(6) {
	case 0:
		u = []Use{g.viaAny(bad), g.viaAny(g.simpleFilter(model))}
	case 1:
		u = []Use{g.viaAny(g.simpleFilter(model)), g.viaAny(bad)}
	case 2:
		l := []string{g.simpleFilter(model), bad}
		if g.r.P(1, 2) {
			l[0], l[1] = l[1], l[0]
		}
		u = []Use{{Via: "list", Texts: l}}
	default:
		u = []Use{g.viaAny(bad)}
	}
	return u
}

func (g *pg) badOp() Op {
	if g.r.P(1, 10) {
		return g.relRead(true)
	}
	if g.r.P(1, 14) {
		return g.noModel()
	}
	m := g.gormModel()
	u := g.badUses(m)
	if g.r.P(1, 2) {
		o := g.write(m, u)
		if g.r.P(1, 6) {
			o.Kind, o.How, o.Set, o.Sess = g.pick("create", "save", "firstcreate"), "", 0, nil
			for _, x := range u {
				if x.Via != "apply" && x.Via != "list" && x.Via != "wire" {
					// a condition of its own, which an insert never looks at
					o.Kind = "firstcreate"
				}
			}
		}
		return o
	}
	return g.read(m, u, true)
}

func (g *pg) c01() {
	g.clients(1, 3, 4, func(int) []Op {
		switch {
		case g.r.P(1, 4):
			if g.r.P(1, 2) {
				return one(g.goodWrite())
			}
			return one(g.goodRead())
		case g.r.P(1, 5):
			return one(g.txn(1, func() Op {
				if g.r.P(1, 2) {
					return g.badOp()
				}
				return g.goodWrite()
			}))
		}
		o := g.badOp()
		l := one(o)
		for g.r.P(1, 3) && len(l) < 4 {
			x := o
			x.Faults = nil
			l = append(l, x)
		}
		return l
	})
}

func (g *pg) c02() {
	g.clients(1, 3, 5, func(int) []Op {
		switch {
		case g.r.P(1, 6):
			return one(g.goodWrite())
		case g.r.P(1, 12):
			return one(g.txn(0, func() Op {
				if g.r.P(1, 2) {
					return g.goodWrite()
				}
				return g.goodRead()
			}))
		}
		return one(g.goodRead())
	})
}

func (g *pg) c03() {
	g.clients(1, 4, 4, func(int) []Op {
		switch {
		case g.r.P(1, 8):
			return one(g.goodRead())
		case g.r.P(1, 6):
			return one(g.txn(1, g.goodWrite))
		case g.r.P(1, 16):
			return one(g.badOp())
		}
		return one(g.goodWrite())
	})
}

func (g *pg) c04() {
	if g.style == 0 && g.r.P(2, 3) {
		g.style = 2
	}
	g.clients(1, 2, 4, func(int) []Op {
		m := g.model()
		x := g.gen(m, "gorm")
		x.Weird = 8
		x.Mixed = true
		switch g.r.Intn(8) {
		case 0, 1:
			if g.r.P(1, 3) {
				g.rels(x)
			}
			t := x.Filter(g.depth())
			if m == "accounts" && g.r.P(1, 4) {
				t += "\n" + g.pick("and", "or") + " " + g.pick("date(created_at, "+x.lit('s')+") is null", "date(created_at, "+x.lit('s')+", "+x.lit('s')+") = "+x.lit('s'), "date("+x.lit('s')+", age, "+x.lit('i')+") > age")
			}
			return one(Op{Kind: "shape", Model: m, Text: t})
		case 2:
			x.Backend = "entsql"
			return one(Op{Kind: "shape", Model: m, Text: x.Filter(g.depth()), Dialect: g.pick("sqlite", "mysql", "postgres"), NoCast: g.r.P(1, 2)})
		case 3:
			x.Backend = "entsql"
			return one(g.entOp("entsql", x))
		case 4:
			x.Backend = "entql"
			return one(g.entOp("entql", x))
		case 5:
			return one(g.write(m, []Use{g.via(x.Filter(g.depth()))}))
		case 6:
			// hostile text may be accepted by chance
			h := x.Hostile()
			if len(h) > 2000 {
				h = h[:2000]
			}
			o := g.read(m, []Use{g.via(h)}, true)
			return one(o)
		}
		rel := g.r.P(1, 3)
		if rel {
			g.rels(x)
		}
		return one(g.read(m, []Use{g.via(x.Filter(g.depth()))}, rel))
	})
}

func (g *pg) entOp(kind string, x *Gen) Op {
	o := Op{Kind: kind, Model: x.T.Name, Text: x.Filter(g.depth()), Dialect: g.pick("sqlite", "sqlite", "mysql", "postgres", "postgres")}
	key := kind + x.T.Name
	if l := g.pool[key]; len(l) > 0 && g.r.P(1, 5) {
		o.Text = l[g.r.Intn(len(l))]
		if g.r.P(1, 2) {
			o.Text = g.near(o.Text)
		}
	} else {
		g.pool[key] = append(g.pool[key], o.Text)
	}
	if g.r.P(2, 3) && x.T.Idx("hits") >= 0 {
		o.Compose = g.pick("and_before", "and_after", "and_both", "or", "or_after", "not", "and_or", "or_and", "not_and")
	}
	o.NoCast = g.r.P(1, 2)
	if kind == "entsql" {
		o.Embed = g.r.P(1, 3)
		o.Schema = o.Dialect != "sqlite" && g.r.P(1, 3)
		if g.r.P(1, 12) {
			o.NoModel = "none"
		}
		if g.r.P(1, 4) {
			o.Repeat = 1 + g.r.Intn(2)
		}
	}
	o.Ctx = g.r.P(1, 6)
	kinds := readFaults
	if o.Ctx {
		kinds = append([]string{"cancel"}, kinds...)
	}
	o.Faults = g.fault(3, kinds...)
	return o
}

func (g *pg) badEnt(kind string, x *Gen) string {
	good := func() string { return x.Cond(g.r.Intn(2)) }
	var b string
	switch g.r.Intn(8) {
	case 0:
		b = x.Corrupt(x.Filter(2))
		return b
	case 1:
		b = x.Hostile()
		if len(b) > 600 {
			b = b[:600]
		}
		return b
	case 2:
		return x.Bad()
	}
	if kind == "entsql" {
		b = g.pick("has_edge(nope)", "has_edge(profile, nope(1) = 1)", "has_edge(profile, has_edge(nope))", "has_edge(devices, Profile.age = 1)", "upper(name) = 'A'", "Profile.age = 1", "active is true", "age is not false", "has_edge(profile, age is true)", "has_edge()", "has_edge(profile())", "has_edge(devices(1))", "has_edge(staff())", "has_edge(account(1), age = 1)", "has_edge(profile(name), age > 0)", "has_edge(not profile)", "has_edge((profile))", "has_edge(profile = 1)", "date()", "date(1,2) = 1", "has_edge(profile, 1)", "has_edge(profile, age)", "has_edge(profile, age = 1, age = 2)", "has_edge('profile')", "has_edge(groups, has_edge(accounts, has_edge(nope)))", "has_edge(company, sleep(1) = 0)", "has_edge(manager, has_edge(manager, nope() is null))", "has_edge(Profile)", "has_edge(profile_)", "has_edge(DEVICES)", "has_edge(Groups, size = 1)", "has_edge(account_s)", "has_edge(managers)", "has_edge(Company, has_edge(staff))", "has_edge(company, has_edge(Staff))", "has_edge(report)", "HAS_EDGE(profile)", "hasEdge(profile)",
			"has_edge(company, age > 1)", "has_edge(profile, hits = 1)", "has_edge(devices, nick <> 'x')", "has_edge(groups, account_id > 0)", "has_edge(badge, has_edge(account, shine >= 0))", "has_edge(groups, group_id = 1 or size = 1)", "not has_edge(company, name = 'x')", "has_edge(manager, has_edge(company, age in (1,2,3)))")
	} else {
		b = g.pick("date(created_at) = '2024-01-01'", "has_edge(profile)", "name like 'a%'", "name not like 'a%'", "Profile.age = 1", "active is true", "active is not false", "upper(name) = 'A'", "not age", "age", "not 1", "active is false", "age = date('2024-01-01')", "1 = 1", "1 = age", "1 between 0 and 2", "(age = 1) = 1", "age = (hits = 1)", "age in (hits = 1)", "'a' <> name", "age between (hits = 1) and 2", "age between 1 and (hits = 1)", "(age = 1) between 0 and 1", "1 is null", "(age = 1) is not null", "1 in (1,2)", "not 1 = 1", "age = not hits = 1", "true and false", "true or age = 1", "age = 1 and true", "age = 1 and 1", "1 or 2", "null and age = 1", "age = 1 or 'x'", "(true or true) and age = 1", "'x'", "1", "null", "age and hits", "age or 1 = 1", "(age)", "true", "not (name like 'x')", "f()", "date()", "[1]")
	}
	switch g.r.Intn(8) {
	case 0:
		return good() + " and " + b
	case 1:
		return b + " or " + good()
	case 2:
		return "(" + b + ")"
	case 3:
		return "not (" + b + ")"
	case 4:
		return good() + " or (" + good() + " and " + b + ")"
	}
	return b
}

func (g *pg) ent(kind string) {
	tabs := []string{"accounts", "accounts", "accounts", "devices", "groups", "badges", "profiles", "companies"}
	if g.r.P(1, 3) {
		g.simple = true
	}
	g.clients(1, 3, 5, func(c int) []Op {
		if g.r.P(1, 8) {
			old := g.simple
			g.simple = true
			o := g.goodWrite()
			g.simple = old
			return one(o)
		}
		x := g.gen(tabs[g.r.Intn(len(tabs))], kind)
		if kind == "entql" && g.r.P(1, 20) {
			t := g.pick(x.Filter(1), x.Filter(1), g.badEnt(kind, x))
			return one(Op{Kind: "entqlbuild", Text: t, Reuse: g.pick(t, g.near(t), x.Filter(1), g.badEnt(kind, x))})
		}
		if g.r.P(1, 4) {
			o := g.entOp(kind, x)
			o.Text = g.badEnt(kind, x)
			return one(o)
		}
		if kind == "entql" && g.r.P(1, 4) {
			o := g.entOp(kind, x)
			o.Kind = "entqllist"
			o.Text = ""
			n := 1 + g.r.Intn(4)
			if g.r.P(1, 8) {
				n += g.r.Intn(10)
			}
			for i := 0; i < n; i++ {
				s := x.Filter(1)
				if i > 0 && g.r.P(1, 4) {
					s = o.Texts[g.r.Intn(i)]
					if g.r.P(1, 3) {
						s = g.near(s)
					}
				}
				if g.r.P(1, 6) {
					s = ""
				} else if g.r.P(1, 6) {
					s = g.badEnt(kind, x)
				}
				o.Texts = append(o.Texts, s)
			}
			return one(o)
		}
		return one(g.entOp(kind, x))
	})
}

// pure makes a library-only operation.
// small is one of the smallest texts of each kind.
func (g *pg) small() string {
	return g.pick("1", "true", "'x'", "null", "[1,2]", "age", "a.b", "f()", "date(age)", "not age", "(1)", "age is null", "age in [1]", "age = 1", "age between 1 and 2", "()", "[]", "'x' = 1")
}

func (g *pg) pure() Op {
	x := g.gen(g.model(), g.pick("gorm", "entsql", "entql"))
	text := x.Filter(g.depth())
	if g.r.P(1, 5) {
		text = x.Corrupt(text)
	}
	if g.r.P(1, 8) {
		text = g.small()
	}
	if g.r.P(1, 12) {
		// understood, but refused in the end
		text = g.pick("age = 99999999999999999999", "age in [1, 18446744073709551616]") + " or " + text
	}
	key := "pure"
	if l := g.pool[key]; len(l) > 0 && g.r.P(1, 3) {
		text = l[g.r.Intn(len(l))]
		if g.r.P(1, 3) {
			text = g.near(text)
		}
	} else {
		g.pool[key] = append(g.pool[key], text)
	}
	switch g.r.Intn(12) {
	case 0, 1, 2, 3:
		return Op{Kind: "parse", Text: text, Mutate: g.r.P(1, 4)}
	case 4, 5:
		o := Op{Kind: "string", Text: text}
		if g.r.P(1, 2) {
			o.Share = 1 + g.r.Intn(2)
		}
		return o
	case 6:
		o := Op{Kind: "join"}
		for i := g.r.Intn(4); i >= 0; i-- {
			o.Texts = append(o.Texts, g.pick(text, x.Filter(1), "", " "))
		}
		if g.r.P(1, 2) {
			o.Share = 3 + g.r.Intn(2)
		}
		return o
	case 7:
		return Op{Kind: "normalize", Text: g.pick("is  NULL", "Not\tIn", ">=", "<>", "&&", "LIKE", " is\nnot null ", "NOT BETWEEN", "isnull", "eq", "||", ",", "gte", "Is Not  True")}
	case 8, 9:
		return Op{Kind: "entrender", Model: "accounts", Text: x.Filter(1), Dialect: g.pick("sqlite", "postgres", "mysql"), NoCast: g.r.P(1, 2)}
	case 10:
		o := Op{Kind: "entqlbuild", Text: text}
		if g.r.P(1, 2) {
			o.Reuse = g.pick(text, x.Filter(1), x.Corrupt(x.Filter(1)), "date(age) = 1", "age like 'x'", "age = 1 and a.b = 2")
		}
		return o
	}
	o := Op{Kind: "visit", Text: text, Cbs: g.cbs(), Share: 5 + g.r.Intn(2)}
	return o
}

func (g *pg) c05() {
	shared := g.r.P(1, 2)
	if shared {
		g.shared()
	}
	onlyPure := g.r.P(1, 2)
	// all clients do the same kind of thing, and meet inside it
	crowd := ""
	if !onlyPure && g.r.P(1, 2) {
		crowd = g.pick("relations", "refused")
	}
	lo, hi, ops := 2, 4, 4
	if g.r.P(1, 8) {
		// many at once
		lo, hi, ops = 8, 24, 2
	}
	g.clients(lo, hi, ops, func(int) []Op {
		if onlyPure || crowd == "" && g.r.P(1, 2) {
			return one(g.pure())
		}
		var o Op
		switch {
		case crowd == "relations" && g.r.P(3, 4):
			x := g.gen("accounts", "gorm")
			for len(x.Rels) == 0 {
				g.rels(x)
			}
			o = g.read("accounts", []Use{g.via(x.Cond(1) + " and " + x.Cond(0))}, true)
			if g.r.P(1, 3) {
				o.Handle = "dry"
			}
			return one(o)
		case crowd == "refused" && g.r.P(1, 2):
			return one(g.badOp())
		}
		switch g.r.Intn(5) {
		case 0:
			o = g.goodWrite()
		case 1:
			x := g.gen("accounts", "entsql")
			o = g.entOp("entsql", x)
			return one(o)
		case 2:
			x := g.gen("accounts", "entql")
			o = g.entOp("entql", x)
			return one(o)
		default:
			o = g.goodRead()
		}
		if g.r.P(1, 6) {
			o.Handle = "dry"
		}
		return one(g.useShared(o))
	})
}

// c05race makes operations that need no database, for the race detector.
func (g *pg) c05race() {
	if g.r.P(2, 3) {
		g.shared()
	}
	if g.r.P(1, 3) {
		g.simple = true
	}
	if g.p.SchedMean < 30 {
		g.p.SchedMean = 30
	}
	g.clients(2, 4, 4, func(int) []Op {
		if g.r.P(2, 3) {
			return one(g.pure())
		}
		o := g.goodRead()
		if g.r.P(1, 3) {
			o = g.goodWrite()
		}
		if g.r.P(1, 4) {
			o = g.badOp()
		}
		o = g.useShared(o)
		if o.Rel != "" {
			o.Model, o.Kind = Tables[o.Model].Rel(o.Rel).Table, "find"
		}
		if o.Model != "accounts" {
			o.Handle = g.pick("", "sess", "dry")
		} else {
			o.Handle = g.pick("", "sess", "dry", "model", "where")
		}
		return one(Op{Kind: o.Kind, Model: o.Model, Handle: o.Handle, Uses: o.Uses, Set: o.Set})
	})
}

// shared fills Plan.Shared with scopes valid for accounts and devices.
func (g *pg) shared() {
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		x := g.gen("devices", "gorm")
		// only columns both models have
		x.NoCols = map[string]bool{}
		for _, c := range Tables["devices"].Cols {
			a := Tables["accounts"].Idx(c.Name)
			if a < 0 {
				x.NoCols[c.Name] = true
			}
		}
		u := Use{Via: "apply", Texts: []string{x.Filter(1)}}
		switch g.r.Intn(5) {
		case 0:
			u = Use{Via: "list", Texts: []string{x.Filter(1), x.Filter(1), " "}}
			if i := g.r.Intn(3); i < 2 {
				u.Texts[i], u.Texts[2] = u.Texts[2], u.Texts[i]
			}
		case 1:
			y := g.gen("accounts", "gorm")
			u.Texts[0] = y.Bad()
		case 2:
			y := g.gen("accounts", "gorm")
			g.rels(y)
			u.Texts[0] = y.Filter(1)
		case 3:
			u.Texts[0] = g.simpleFilter("devices")
		}
		g.p.Shared = append(g.p.Shared, u)
	}
}

// useShared replaces the filters of an operation by a shared scope.
func (g *pg) useShared(o Op) Op {
	if len(g.p.Shared) == 0 || !g.r.P(2, 3) {
		return o
	}
	i := 1 + g.r.Intn(len(g.p.Shared))
	o.Uses = []Use{{Shared: i}}
	if g.r.P(1, 6) && len(g.p.Shared) > 1 {
		o.Uses = append(o.Uses, Use{Shared: 1 + g.r.Intn(len(g.p.Shared))})
	}
	if strings.Contains(strings.Join(g.p.Shared[i-1].Texts, " "), ".") {
		o.Select, o.Distinct = nil, false
		if o.Kind == "pluck" || o.Kind == "groupby" {
			o.Kind = "find"
		}
	}
	return o
}

// wear makes one use over and over.
func (g *pg) wear() Op {
	o := Op{Kind: "wear", Model: g.gormModel(), Repeat: 11 + g.r.Intn(30), Dialect: g.pick("", "", "sqlite", "postgres")}
	f, _ := g.filter(o.Model, true)
	if o.Dialect != "" || g.r.P(1, 2) {
		x := g.gen(o.Model, "gorm")
		f = g.pick(x.Filter(1), x.Bad())
	}
	o.Uses = []Use{g.via(f)}
	if g.r.P(1, 2) {
		o = g.useShared(o)
	}
	return o
}

func (g *pg) c06() {
	g.shared()
	g.clients(1, 2, 6, func(int) []Op {
		switch {
		case g.r.P(1, 6):
			return one(g.pure())
		case g.r.P(1, 16):
			o := g.wear()
			if g.r.P(1, 16) {
				o.Many = floodSize(g.r)
			}
			return one(o)
		case g.r.P(1, 12):
			return g.alike()
		case g.r.P(1, 12):
			// the caller changes a tree, then the text is used again
			x := g.gen("accounts", "gorm")
			t := g.small()
			if g.r.P(1, 2) {
				t = x.Filter(1)
			}
			l := []Op{{Kind: "parse", Text: t, Mutate: true}, {Kind: "parse", Text: t}}
			switch g.r.Intn(4) {
			case 0:
				l[1] = g.read("accounts", []Use{g.via(t)}, true)
			case 1:
				l[1] = Op{Kind: "string", Text: t}
			case 2:
				l[1] = Op{Kind: g.pick("entqlbuild", "entrender"), Text: t, Model: "accounts", Dialect: "sqlite"}
			}
			return l
		case g.r.P(1, 8):
			x := g.gen("accounts", "entsql")
			o := g.entOp("entsql", x)
			o.Embed = false
			o.Repeat = 1 + g.r.Intn(2)
			if g.r.P(1, 2) {
				o.Reuse = g.pick(x.Filter(1), g.near(o.Text))
			}
			if g.r.P(1, 4) {
				o.Text = g.badEnt("entsql", x)
			}
			p := o
			p.Faults = nil
			return []Op{o, p}
		case g.r.P(1, 8):
			x := g.gen("accounts", "entql")
			o := g.entOp("entql", x)
			p := o
			p.Faults = nil
			return []Op{o, p}
		case g.r.P(1, 12):
			// several queries built from one handle
			m := g.gormModel()
			var uses []Use
			for n := 2 + g.r.Intn(4); n > 0; n-- {
				u := g.viaAny(g.simpleFilter(m))
				if len(u.Texts) == 1 && g.r.P(3, 4) {
					u = Use{Via: "wire", Texts: u.Texts}
				}
				uses = append(uses, u)
			}
			o := g.read(m, uses, false)
			if g.r.P(1, 3) {
				o = g.write(m, uses)
			}
			o.Fork = g.simpleFilter(m)
			return one(o)
		case g.r.P(1, 6):
			o := g.badOp()
			if g.r.P(2, 3) {
				o.Handle = g.pick("sess", "model", "where")
				if o.Model != "accounts" {
					o.Handle = "sess"
				}
				for i := range o.Uses {
					if o.Uses[i].Via == "apply" {
						o.Uses[i].Via = "wire"
					}
					o.Uses[i].Now = o.Uses[i].Via == "list"
				}
				if g.r.P(1, 2) {
					o.Conds = nil
				}
			}
			return one(o)
		case g.r.P(1, 8):
			return one(g.txn(1, func() Op {
				if g.r.P(1, 4) {
					return g.badOp()
				}
				return g.useShared(g.goodWrite())
			}))
		}
		o := g.goodRead()
		if g.r.P(1, 3) {
			o = g.goodWrite()
		}
		o = g.useShared(o)
		if g.r.P(1, 2) {
			o.Handle = g.pick("sess", "model", "where", "model", "where", "dry")
			if o.Model != "accounts" && o.Handle != "dry" {
				o.Handle = "sess"
			}
		}
		if g.r.P(1, 4) {
			p := o
			p.Faults = nil
			return []Op{o, p}
		}
		return one(o)
	})
}

func (g *pg) c07() {
	rels := false // members may use relations
	member := func(m string) string {
		x := g.gen(m, "gorm")
		if rels {
			g.rels(x)
		}
		switch g.r.Intn(8) {
		case 0:
			return g.pick("", " ", "\n", "\t ")
		case 1:
			return g.simpleFilter(m)
		}
		return x.Filter(g.r.Intn(2))
	}
	list := func(m string) []string {
		n := 1 + g.r.Intn(4)
		var l []string
		if g.r.P(1, 6) {
			// many members, each excludes one row
			n = 0
			key := Tables[m].Cols[0].Name
			for i := 2 + g.r.Intn(24); i > 0; i-- {
				k := strconv.Itoa(1 + g.r.Intn(14))
				l = append(l, g.pick(key+" <> "+k, "not "+key+" = "+k, key+" < "+k+" or "+key+" > "+k, key+" > "+k+" || "+key+" lt "+k, key+" not in ["+k+"]", key+" <> "+k+" and 1 = 1", "(("+key+" != "+k+"))", key+" = "+k+" = false", ""))
			}
		}
		if g.r.P(1, 30) {
			// very many, only the last ones matter
			n = 0
			key := Tables[m].Cols[0].Name
			for i := 30 + g.r.Intn(200); i > 0; i-- {
				l = append(l, key+" <> "+strconv.Itoa(1000+i))
			}
			l = append(l, key+" <> "+strconv.Itoa(1+g.r.Intn(6)), key+" <> "+strconv.Itoa(1+g.r.Intn(6)))
		}
		if g.r.P(1, 8) {
			// members that differ only in the case or spaces of a text
			if c := g.textCol(m); c != "" {
				n = 0
				op := g.pick(" <> ", " != ", " ne ")
				for i := 2 + g.r.Intn(3); i > 0; i-- {
					l = append(l, c+op+g.pick("'ann'", "'Ann'", "'ANN'", "' ann'", "'a b'", "'a  b'"))
				}
			}
		}
		for i := 0; i < n; i++ {
			if len(l) > 0 && g.r.P(1, 3) {
				l = append(l, g.near(l[g.r.Intn(len(l))]))
				continue
			}
			l = append(l, member(m))
		}
		if !g.r.P(2, 5) {
			return l
		}
		x := g.gen(m, "gorm")
		pos := g.r.Intn(len(l))
		switch g.r.Intn(7) {
		case 0:
			l[pos] = g.pick("id = 1) or (id > 0", "1=1) or (1=1", "id = 1) || (id = 2", "id = 0) or not (id = 0", "(id = 1)) or ((id > 0)", "id = 1) and (id = 1) or (2 = 2")
		case 1:
			// two members that only fit together
			a := g.pick("name = 'x", `name = "x`, "id = 1 --", "id = 1 //", "id in [1", "id = 1) or (", "name = 'a' or (id", "(id = 1")
			b := g.pick("' or id > 0", `" or id > 0`, "\n) or (id > 0", "\n or id > 0", ",2]", "id > 0", "= 1)", ") or id > 0", "' = 'x") // partner
			l = append(l[:pos:pos], append([]string{a, b}, l[pos:]...)...)
		case 2:
			f := []rune(x.Filter(2))
			k := g.r.Intn(len(f) + 1)
			l = append(l[:pos:pos], append([]string{string(f[:k]), string(f[k:])}, l[pos:]...)...)
		case 3:
			l[pos] = x.Corrupt(x.Filter(1))
		case 4:
			l[pos] = x.Bad()
		case 5:
			f := "(" + x.Filter(1) + ") and (" + x.Filter(1) + ")"
			f = f[1 : len(f)-1]
			l[pos] = f
		case 6:
			l[pos] = g.pick("age = 1 or", "or age = 1", "and", ") or (", "'", "--", "//", "--\n", "()", "not", "id = 1 and", "((", "))")
		}
		return l
	}
	g.clients(1, 3, 4, func(int) []Op {
		m := g.gormModel()
		if g.r.P(1, 8) {
			return one(g.goodWrite())
		}
		write := g.r.P(1, 4)
		rels = !write && g.r.P(1, 3)
		l := list(m)
		var uses []Use
		if g.r.P(1, 5) {
			for _, t := range l {
				if strings.TrimSpace(t) != "" {
					u := Use{Via: g.pick("apply", "wire", "apply", "wire", "group", "gscope"), Texts: []string{t}}
					if rels {
						u.Via = g.pick("apply", "wire")
					}
					uses = append(uses, u)
				}
			}
		} else {
			uses = []Use{{Via: "list", Texts: l}}
		}
		if write {
			return one(g.write(m, uses))
		}
		return one(g.read(m, uses, true))
	})
}

func (g *pg) c10() {
	g.clients(1, 3, 3, func(c int) []Op {
		m := g.model()
		x := g.gen(m, g.pick("gorm", "entsql", "entql"))
		x.Weird = 8
		x.Mixed = true
		text := x.Hostile()
		switch {
		case g.r.P(1, 4):
			text = x.Bad()
		case g.r.P(1, 30):
			text = x.deepRefusal()
			if g.r.P(1, 2) {
				return one(Op{Kind: "entqlbuild", Text: text})
			}
		}
		switch g.r.Intn(10) {
		case 0, 1:
			return one(Op{Kind: "parse", Text: text})
		case 2:
			return one(Op{Kind: "string", Text: text})
		case 3:
			return one(Op{Kind: "entrender", Model: g.pick("accounts", "devices", ""), Text: text, Dialect: g.pick("sqlite", "postgres", "mysql"), NoCast: g.r.P(1, 2)})
		case 4:
			return one(Op{Kind: "entqlbuild", Text: text})
		case 5:
			o := g.read(m, []Use{g.viaAny(text)}, true)
			if g.r.P(1, 2) {
				o.Handle = "dry"
			}
			return one(o)
		case 6:
			return one(g.write(m, []Use{g.via(text, g.simpleFilter(m))}))
		case 7:
			o := g.entOp("entsql", x)
			o.Text = text
			return one(o)
		case 8:
			return one(Op{Kind: "entqlbuild", Text: text})
		}
		if g.r.P(1, 2) {
			return one(g.goodRead())
		}
		return one(Op{Kind: "visit", Text: text, Cbs: g.cbs()})
	})
}

func (g *pg) cbs() []string {
	var l []string
	p := 1 + g.r.Intn(5)
	for _, c := range AllCallbacks {
		if g.r.P(p, 6) {
			l = append(l, c)
		}
	}
	return l
}

func (g *pg) c11() {
	g.clients(1, 4, 4, func(int) []Op {
		x := g.gen(g.model(), g.pick("gorm", "entsql"))
		if g.r.P(1, 2) {
			g.rels(x)
		}
		o := Op{Kind: "visit", Text: x.Filter(g.depth()), Cbs: g.cbs()}
		if g.r.P(1, 20) {
			o.Text = x.long()
		}
		if g.r.P(1, 12) {
			h := x.Hostile()
			if len(h) > 400 {
				h = h[:400]
			}
			o.Text = h
		}
		if g.r.P(1, 2) {
			o.Share = 1 + g.r.Intn(2)
		}
		if g.faults && g.r.P(2, 3) {
			o.FailAt = 1 + g.r.Intn(12)
			o.FailBy = g.pick("", "", "eof", "canceled", "deadline", "wrapped", "nested")
		}
		o.Ended = g.r.P(1, 6)
		o.Deep = g.r.P(1, 3)
		o.Repeat = g.r.Intn(2)
		return one(o)
	})
}

func (g *pg) c12() {
	g.simple = true
	rel := func() Use {
		return g.via(g.pick("Profile.rank > 1", "Company.title != 'x'", "Badge.color = 'ann' or Badge.id is null", "Profile.verified is true", "Profile.rank > 1 or Company.title != 'x'"))
	}
	options := func() []string {
		return g.sess("hooks", "fields", "notx", "nonested", "global", "batch", "save", "unscoped", "set", "preload", "lock", "columns", "orders")
	}
	sub := func() Op {
		if g.r.P(1, 2) {
			return g.goodRead()
		}
		if g.r.P(1, 8) {
			return g.badOp()
		}
		return g.goodWrite()
	}
	g.clients(1, 3, 4, func(int) []Op {
		switch {
		case g.r.P(1, 2):
			return one(g.txn(1, sub))
		case g.r.P(1, 8):
			o := sub()
			o.PreErr = true
			o.Faults = nil
			return one(o)
		case g.r.P(1, 8):
			o := sub()
			o.Ctx, o.PreCancel = true, true
			o.Faults = nil
			return one(o)
		case g.r.P(1, 6):
			o := sub()
			o.Handle = "dry"
			if o.Kind == "find" && o.Model == "accounts" && g.r.P(1, 2) {
				o.Uses = []Use{rel()}
				o.Sess = []string{g.pick("preload", "lock")}
				if g.r.P(1, 2) {
					o.Sess = options()
				}
			}
			o.Ended = o.Kind == "find" && g.r.P(1, 2)
			return one(o)
		}
		o := sub()
		o.Ctx = g.r.P(1, 2)
		if o.Kind == "find" && g.r.P(1, 2) {
			o.Order = g.pick("asc", "desc")
			o.Limit = g.limit()
		}
		// one relation filter next to a plain one keeps ordering and limits
		if o.Kind == "find" && o.Model == "accounts" && g.r.P(1, 2) {
			o.Uses = []Use{rel()}
			if g.r.P(1, 2) {
				o.Sess = options()
			}
		}
		return one(o)
	})
}

// textCol is a text column of the model.
func (g *pg) textCol(m string) string {
	var l []string
	for _, c := range Tables[m].Cols {
		if c.T == 's' {
			l = append(l, c.Name)
		}
	}
	if len(l) == 0 {
		return ""
	}
	return g.pick(l...)
}

// limit is mostly one that matters, sometimes one larger than any table.
func (g *pg) limit() int {
	if g.r.P(1, 8) {
		return []int{25, 100, 1001, 1 << 20, 1<<31 - 1}[g.r.Intn(5)]
	}
	return 1 + g.r.Intn(4)
}
