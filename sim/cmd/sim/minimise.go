package main

import (
	"encoding/json"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verifsim/core"
	"verifsim/simrt"
)

type minimiser struct {
	d        *checker
	bin      string
	v        core.Violation
	crash    bool
	keepMine bool
	deadline time.Time
	last     *ExecResult
}

// pick finds the violation that is being minimised.
func (m *minimiser) pick(r *core.Result) *core.Violation {
	for i := range r.Violations {
		v := &r.Violations[i]
		if v.Has(m.d.prop) && v.Class == m.v.Class {
			return v
		}
	}
	return nil
}

// try reports whether the plans still show the violation.
func (m *minimiser) try(plans []*core.Plan) (bool, error) {
	r, crashed, err := m.d.exec(m.bin, plans, false)
	if err != nil {
		return false, err
	}
	if crashed != "" {
		return m.crash, nil
	}
	if m.crash {
		return false, nil
	}
	v := m.pick(r.Result)
	if v == nil {
		return false, nil
	}
	m.v = *v
	m.last = r
	return true, nil
}

func clonePlan(p *core.Plan) *core.Plan {
	b, _ := json.Marshal(p)
	var q core.Plan
	_ = json.Unmarshal(b, &q)
	return &q
}

// good reports whether a candidate still shows the violation and still belongs to
// the property. Harness trouble counts as no.
func (m *minimiser) good(plans []*core.Plan) bool {
	r, crashed, err := m.d.exec(m.bin, plans, false)
	if err != nil {
		return false
	}
	if crashed != "" {
		return m.crash
	}
	if m.crash {
		return false
	}
	v := m.pick(r.Result)
	if v == nil {
		return false
	}
	if m.keepMine {
		mine, err := m.d.attribute(m.bin, plans[len(plans)-1], *v)
		if err != nil || !mine {
			return false
		}
	}
	return true
}

// firstGood tries candidates in parallel and returns the first good one in order.
func (m *minimiser) firstGood(c [][]*core.Plan) []*core.Plan {
	const width = 8
	for i := 0; i < len(c); i += width {
		if time.Now().After(m.deadline) {
			return nil
		}
		part := c[i:min(i+width, len(c))]
		ok := make([]bool, len(part))
		var wg sync.WaitGroup
		for j := range part {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[j] = m.good(part[j])
			}()
		}
		wg.Wait()
		for j := range part {
			if ok[j] {
				return part[j]
			}
		}
	}
	return nil
}

func (m *minimiser) minimise(plans []*core.Plan) ([]*core.Plan, error) {
	// history: drop whole plans
	if len(plans) > 1 {
		plans = m.dropPlans(plans)
	}
	last := len(plans) - 1
	with := func(p *core.Plan) []*core.Plan {
		return append(append([]*core.Plan(nil), plans[:last]...), p)
	}
	for {
		p := plans[last]
		var cands [][]*core.Plan
		for _, c := range reductions(p) {
			cands = append(cands, with(c))
			// the old schedule rarely fits; also try a serial one and other seeds
			s := clonePlan(c)
			s.Schedule = &[]simrt.Decision{}
			if p.Schedule == nil || len(*p.Schedule) > 0 {
				cands = append(cands, with(s))
			}
		}
		g := m.firstGood(cands)
		if g == nil {
			// other random schedules for the reductions that matter most
			var more [][]*core.Plan
			if len(p.Clients) > 1 {
				for _, c := range reductions(p) {
					for k := uint64(1); k <= 3; k++ {
						x := clonePlan(c)
						x.Schedule = nil
						x.Seed = p.Seed*31 + k*2
						if p.Seed&1 == 1 {
							x.Seed |= 1
						}
						x.SchedMean = []int64{7, 40, 300}[k-1]
						more = append(more, with(x))
					}
					if len(more) > 120 {
						break
					}
				}
				g = m.firstGood(more)
			}
		}
		if g == nil {
			break
		}
		plans = g
		if time.Now().After(m.deadline) {
			break
		}
	}
	m.deadline = time.Now().Add(30 * time.Second)
	return m.schedule(plans)
}

// dropPlans removes plans of the history, halves first.
func (m *minimiser) dropPlans(plans []*core.Plan) []*core.Plan {
	last := plans[len(plans)-1]
	pre := plans[:len(plans)-1]
	for n := len(pre); n >= 1; {
		var c [][]*core.Plan
		var cut [][]*core.Plan
		for i := 0; i < len(pre); i += n {
			rest := append(append([]*core.Plan(nil), pre[:i]...), pre[min(i+n, len(pre)):]...)
			cut = append(cut, rest)
			c = append(c, append(append([]*core.Plan(nil), rest...), last))
		}
		g := m.firstGood(c)
		if g != nil {
			pre = g[:len(g)-1]
			if n > len(pre) {
				n = len(pre)
			}
			continue
		}
		if n == 1 {
			break
		}
		n = (n + 1) / 2
		if time.Now().After(m.deadline) {
			break
		}
	}
	return append(append([]*core.Plan(nil), pre...), last)
}

// schedule replaces the seeded schedule by the shortest list of decisions.
func (m *minimiser) schedule(plans []*core.Plan) ([]*core.Plan, error) {
	last := len(plans) - 1
	with := func(d []simrt.Decision) []*core.Plan {
		x := clonePlan(plans[last])
		dd := append([]simrt.Decision{}, d...)
		x.Schedule = &dd
		return append(append([]*core.Plan(nil), plans[:last]...), x)
	}
	if m.crash {
		return plans, nil
	}
	if g := m.firstGood([][]*core.Plan{with(nil)}); g != nil {
		return g, nil
	}
	ok, err := m.try(plans)
	if err != nil {
		return nil, err
	}
	if !ok {
		return plans, nil
	}
	dec := m.last.Sched
	if g := m.firstGood([][]*core.Plan{with(dec)}); g == nil {
		return plans, nil // too many decisions to record: the seed repeats it
	}
	for n := (len(dec) + 1) / 2; n >= 1 && len(dec) > 0; {
		var c [][]*core.Plan
		for i := 0; i < len(dec); i += n {
			c = append(c, with(append(append([]simrt.Decision(nil), dec[:i]...), dec[min(i+n, len(dec)):]...)))
		}
		if g := m.firstGood(c); g != nil {
			dec = *g[last].Schedule
			n = min(n, max(1, len(dec)))
			continue
		}
		if n == 1 || time.Now().After(m.deadline) {
			break
		}
		n = (n + 1) / 2
	}
	return with(dec), nil
}

// reductions lists simpler plans, the boldest first.
func reductions(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	mod := func(f func(*core.Plan)) {
		q := clonePlan(p)
		f(q)
		out = append(out, q)
	}
	if len(p.Clients) > 1 {
		for i := range p.Clients {
			mod(func(q *core.Plan) { q.Clients = append(q.Clients[:i], q.Clients[i+1:]...) })
		}
	}
	for i, c := range p.Clients {
		if len(c.Ops) > 1 {
			for j := range c.Ops {
				mod(func(q *core.Plan) { q.Clients[i].Ops = append(q.Clients[i].Ops[:j], q.Clients[i].Ops[j+1:]...) })
			}
		}
	}
	if p.Cfg != (core.Cfg{}) {
		mod(func(q *core.Plan) { q.Cfg = core.Cfg{} })
		c := p.Cfg
		if c.LatencyNS > 0 {
			mod(func(q *core.Plan) { q.Cfg.LatencyNS = 0 })
		}
		if c.PrepareStmt {
			mod(func(q *core.Plan) { q.Cfg.PrepareStmt = false })
		}
		if c.SkipTx {
			mod(func(q *core.Plan) { q.Cfg.SkipTx = false })
		}
		if c.PG {
			mod(func(q *core.Plan) { q.Cfg.PG = false })
		}
		if c.QueryFields {
			mod(func(q *core.Plan) { q.Cfg.QueryFields = false })
		}
		if c.MaxIdle > 0 {
			mod(func(q *core.Plan) { q.Cfg.MaxIdle = 0 })
		}
	}
	if p.WallNS != 0 {
		mod(func(q *core.Plan) { q.WallNS = 0 })
	}
	if p.DataSize > 3 {
		mod(func(q *core.Plan) { q.DataSize = 3 })
		mod(func(q *core.Plan) { q.DataSize = (p.DataSize + 3) / 2 })
	}
	for i := range p.Clients {
		for j := range p.Clients[i].Ops {
			opReductions(p.Clients[i].Ops[j], func(o core.Op) {
				mod(func(q *core.Plan) { q.Clients[i].Ops[j] = o })
			})
		}
	}
	for i, u := range p.Shared {
		used := false
		b, _ := json.Marshal(p.Clients)
		used = strings.Contains(string(b), `"shared":`)
		if !used {
			mod(func(q *core.Plan) { q.Shared = nil })
			break
		}
		for k := range u.Texts {
			if len(u.Texts) > 1 {
				mod(func(q *core.Plan) {
					q.Shared[i].Texts = append(q.Shared[i].Texts[:k], q.Shared[i].Texts[k+1:]...)
				})
			}
			for _, t := range textReductions(u.Texts[k]) {
				mod(func(q *core.Plan) { q.Shared[i].Texts[k] = t })
			}
		}
	}
	return out
}

func cloneOp(o core.Op) core.Op {
	b, _ := json.Marshal(o)
	var q core.Op
	_ = json.Unmarshal(b, &q)
	return q
}

func opReductions(o core.Op, emit func(core.Op)) {
	mod := func(f func(*core.Op)) {
		q := cloneOp(o)
		f(&q)
		emit(q)
	}
	for i := range o.Sub {
		if len(o.Sub) > 1 {
			mod(func(q *core.Op) { q.Sub = append(q.Sub[:i], q.Sub[i+1:]...) })
		}
		emit(cloneOp(o.Sub[i]))
	}
	for i := range o.Faults {
		mod(func(q *core.Op) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
	}
	if o.DueNS > 0 {
		mod(func(q *core.Op) { q.DueNS = 0 })
	}
	if o.Many > 0 {
		mod(func(q *core.Op) { q.Many = 0 })
		mod(func(q *core.Op) { q.Many /= 2 })
		mod(func(q *core.Op) { q.Many -= 1 + q.Many/8 })
	}
	if o.PauseNS > 0 {
		mod(func(q *core.Op) { q.PauseNS = 0 })
	}
	if o.Fork != "" {
		mod(func(q *core.Op) { q.Fork = "" })
	}
	if o.FailAt > 0 {
		mod(func(q *core.Op) { q.FailAt = 0 })
		if o.FailAt > 1 {
			mod(func(q *core.Op) { q.FailAt = 1 })
		}
	}
	for i := range o.Conds {
		mod(func(q *core.Op) { q.Conds = append(q.Conds[:i], q.Conds[i+1:]...) })
	}
	if len(o.Uses) > 1 {
		for i := range o.Uses {
			mod(func(q *core.Op) { q.Uses = append(q.Uses[:i], q.Uses[i+1:]...) })
		}
	}
	if o.Kind != "find" && o.Kind != "update" && o.Kind != "delete" && o.Sub == nil && len(o.Uses) > 0 {
		mod(func(q *core.Op) { q.Kind, q.Rel = "find", "" })
	}
	for i := range o.Joins {
		mod(func(q *core.Op) { q.Joins = append(q.Joins[:i], q.Joins[i+1:]...) })
	}
	if o.Schema {
		mod(func(q *core.Op) { q.Schema = false })
	}
	if o.NoModel != "" {
		mod(func(q *core.Op) { q.NoModel = "" })
	}
	if o.Alias {
		mod(func(q *core.Op) { q.Alias = false })
	}
	for i, u := range o.Uses {
		if u.Shared == 0 && u.Via != "apply" && len(u.Texts) == 1 {
			mod(func(q *core.Op) { q.Uses[i].Via = "apply" })
		}
		if u.Now {
			mod(func(q *core.Op) { q.Uses[i].Now = false })
		}
	}
	if o.Unscoped {
		mod(func(q *core.Op) { q.Unscoped = false })
	}
	if o.Order != "" {
		mod(func(q *core.Op) { q.Order, q.Limit, q.Offset = "", 0, 0 })
		mod(func(q *core.Op) { q.Limit, q.Offset = 0, 0 })
	}
	if o.How != "" {
		mod(func(q *core.Op) { q.How = "" })
	}
	if o.Select != nil || o.Distinct {
		mod(func(q *core.Op) { q.Select, q.Distinct = nil, false })
	}
	if o.Handle != "" {
		mod(func(q *core.Op) { q.Handle = "" })
	}
	if o.Ctx {
		mod(func(q *core.Op) { q.Ctx, q.PreCancel = false, false })
	}
	if o.Set > 0 {
		mod(func(q *core.Op) { q.Set = 0 })
	}
	if o.Manual || o.Ignore {
		mod(func(q *core.Op) { q.Manual, q.Ignore = false, false })
	}
	if o.End != "" && o.End != "commit" {
		mod(func(q *core.Op) { q.End = "commit" })
	}
	if o.Compose != "" {
		mod(func(q *core.Op) { q.Compose = "" })
	}
	if o.Embed {
		mod(func(q *core.Op) { q.Embed = false })
	}
	if o.Repeat > 0 {
		mod(func(q *core.Op) { q.Repeat = 0 })
	}
	if o.Dialect != "" && o.Dialect != "sqlite" && o.Kind != "shape" {
		mod(func(q *core.Op) { q.Dialect = "sqlite" })
	}
	if o.Share > 0 {
		mod(func(q *core.Op) { q.Share = 0 })
	}
	for i := range o.Cbs {
		mod(func(q *core.Op) { q.Cbs = append(q.Cbs[:i], q.Cbs[i+1:]...) })
	}
	for i := range o.Sub {
		opReductions(o.Sub[i], func(s core.Op) { mod(func(q *core.Op) { q.Sub[i] = s }) })
	}
	for _, t := range textReductions(o.Text) {
		mod(func(q *core.Op) { q.Text = t })
	}
	for i := range o.Texts {
		if len(o.Texts) > 1 {
			mod(func(q *core.Op) { q.Texts = append(q.Texts[:i], q.Texts[i+1:]...) })
		}
		for _, t := range textReductions(o.Texts[i]) {
			mod(func(q *core.Op) { q.Texts[i] = t })
		}
	}
	for i := range o.Uses {
		for k := range o.Uses[i].Texts {
			if len(o.Uses[i].Texts) > 1 {
				mod(func(q *core.Op) {
					q.Uses[i].Texts = append(q.Uses[i].Texts[:k], q.Uses[i].Texts[k+1:]...)
				})
			}
			for _, t := range textReductions(o.Uses[i].Texts[k]) {
				mod(func(q *core.Op) { q.Uses[i].Texts[k] = t })
			}
		}
	}
}

// textReductions removes pieces of a text.
func textReductions(t string) []string {
	if len(t) < 2 || !utf8.ValidString(t) {
		return nil
	}
	r := []rune(t)
	var out []string
	n := len(r)
	for w := n / 2; w >= 1; w /= 2 {
		stepW := w
		if n/stepW > 40 {
			continue
		}
		for i := 0; i < n; i += stepW {
			out = append(out, string(r[:i])+string(r[min(i+w, n):]))
		}
	}
	return out
}
