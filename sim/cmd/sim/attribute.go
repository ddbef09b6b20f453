package main

import (
	"fmt"
	"strings"

	"verifsim/core"
)

// attribute decides whether a violation that several properties share belongs to
// the property under check: it must vanish when the ingredient the property is
// about is taken away.
func (d *checker) attribute(bin string, p *core.Plan, v core.Violation) (bool, error) {
	if v.Client < 0 || v.Client >= len(p.Clients) {
		return true, nil
	}
	switch d.prop {
	case "C05":
		return d.vanishes(bin, v, alone(p, v))
	case "C10":
		switch v.Class {
		case "panic", "stall", "deadlock", "crash":
			return true, nil
		}
		return d.vanishes(bin, v, alone(p, v))
	case "C06":
		switch v.Class {
		case "read-rows", "write-rows", "refused-valid", "tree", "panic", "stall", "unexplained-error", "not-executed":
		default:
			return true, nil
		}
		op := opAt(p, v)
		if op == nil {
			return true, nil
		}
		q := clonePlan(p)
		o := cloneOp(*op)
		unfork(&o)
		q.Clients = []core.Client{{Ops: []core.Op{o}}}
		q.Schedule = nil
		return d.vanishes(bin, v, q)
	case "C07":
		if op := leafAt(p, v); op != nil && op.Rel != "" {
			return false, nil
		}
		switch v.Class {
		case "read-rows", "write-rows", "refused-valid", "refused-executed", "refused-no-error", "panic", "stall", "unexplained-error":
		default:
			return true, nil
		}
		op := leafAt(p, v)
		if op == nil {
			return true, nil
		}
		var members []string
		for _, u := range op.Uses {
			if u.Shared > 0 {
				u = p.Shared[u.Shared-1]
			}
			members = append(members, u.Texts...)
		}
		for _, m := range members {
			if strings.TrimSpace(m) == "" {
				continue
			}
			for _, kind := range []string{"find", op.Kind} {
				o := core.Op{Kind: kind, Model: op.Model, Unscoped: op.Unscoped, Uses: []core.Use{{Via: "apply", Texts: []string{m}}}}
				q := clonePlan(p)
				q.Cfg = core.Cfg{PG: p.Cfg.PG}
				q.Clients = []core.Client{{Ops: []core.Op{o}}}
				q.Schedule = nil
				ok, err := d.silent(bin, q)
				if err != nil || !ok {
					return false, err
				}
			}
		}
		return true, nil
	case "C12":
		switch v.Class {
		case "read-rows", "write-rows", "refused-valid", "panic", "stall":
		default:
			return true, nil
		}
		op := leafAt(p, v)
		if op == nil || op.Kind == "txn" {
			return true, nil
		}
		o := core.Op{Kind: op.Kind, Model: op.Model, Set: op.Set, Uses: op.Uses}
		switch op.Kind {
		case "update", "delete":
		default:
			o.Kind = "find"
		}
		if op.Rel != "" {
			o.Model = core.Tables[op.Model].Rel(op.Rel).Table
		}
		q := clonePlan(p)
		q.Cfg = core.Cfg{PG: p.Cfg.PG}
		q.Clients = []core.Client{{Ops: []core.Op{cloneOp(o)}}}
		q.Schedule = nil
		return d.silent(bin, q)
	}
	return true, nil
}

func alone(p *core.Plan, v core.Violation) *core.Plan {
	q := clonePlan(p)
	q.Clients = []core.Client{q.Clients[v.Client]}
	q.Schedule = nil
	return q
}

// vanishes reports whether the class of violation does not show up on the plan.
func (d *checker) vanishes(bin string, v core.Violation, p *core.Plan) (bool, error) {
	r, crashed, err := d.exec(bin, []*core.Plan{p}, false)
	if err != nil {
		return false, err
	}
	if crashed != "" {
		return false, nil
	}
	for _, x := range r.Result.Violations {
		if x.Class == v.Class && x.Has(d.prop) || x.Class == v.Class && x.Client == v.Client {
			return false, nil
		}
		if x.Class == v.Class && x.Client == 0 {
			return false, nil
		}
	}
	return true, nil
}

// silent reports whether the plan shows no violation at all.
func (d *checker) silent(bin string, p *core.Plan) (bool, error) {
	r, crashed, err := d.exec(bin, []*core.Plan{p}, false)
	if err != nil {
		return false, err
	}
	return crashed == "" && len(r.Result.Violations) == 0, nil
}

// opAt finds the top-level operation of a violation ("c1.3.0 find" is in c1.3).
func opAt(p *core.Plan, v core.Violation) *core.Op {
	var c, i int
	if n, _ := fmt.Sscanf(v.Op, "c%d.%d", &c, &i); n != 2 || c >= len(p.Clients) || i >= len(p.Clients[c].Ops) {
		return nil
	}
	return &p.Clients[c].Ops[i]
}

// leafAt finds the innermost operation of a violation.
func leafAt(p *core.Plan, v core.Violation) *core.Op {
	f := strings.Fields(v.Op)
	if len(f) == 0 {
		return nil
	}
	parts := strings.Split(strings.TrimPrefix(f[0], "c"), ".")
	op := opAt(p, v)
	for _, s := range parts[min(2, len(parts)):] {
		i := 0
		if _, err := fmt.Sscanf(s, "%d", &i); err != nil || op == nil || i >= len(op.Sub) {
			return nil
		}
		op = &op.Sub[i]
	}
	return op
}

// unfork takes away the other queries built from the same handle.
func unfork(o *core.Op) {
	o.Fork = ""
	for i := range o.Sub {
		unfork(&o.Sub[i])
	}
}
