package main

import (
	"frozenverif/tr"

	"github.com/arr-ai/frozen"
)

// ext implements the calls on collections of collections for one Env.
type ext[T, V any] struct {
	e  *Env[T, V]
	n  []frozen.Set[frozen.Set[T]]
	nm []frozen.Map[frozen.Set[T], V]
}

func withExt[T, V any](e *Env[T, V]) {
	e.ext = &ext[T, V]{
		e: e, n: make([]frozen.Set[frozen.Set[T]], len(e.reg)), nm: make([]frozen.Map[frozen.Set[T], V], len(e.reg)),
	}
}

func (x *ext[T, V]) setNest(o int, n frozen.Set[frozen.Set[T]]) {
	x.e.reg[o] = reg[T, V]{k: "nest"}
	x.n[o] = n
}

func (x *ext[T, V]) setNMap(o int, m frozen.Map[frozen.Set[T], V]) {
	x.e.reg[o] = reg[T, V]{k: "nmap"}
	x.nm[o] = m
}

func (x *ext[T, V]) obs(o int) (c int, em bool, it any) {
	e := x.e
	if e.reg[o].k == "nest" {
		out := [][]int{}
		for i := x.n[o].Range(); i.Next(); {
			out = append(out, e.iterSet(i.Value()))
		}
		return x.n[o].Count(), x.n[o].IsEmpty(), out
	}
	out := [][]any{}
	for i := x.nm[o].Range(); i.Next(); {
		out = append(out, []any{e.iterSet(i.Key()), e.vu.dec(i.Value())})
	}
	return x.nm[o].Count(), x.nm[o].IsEmpty(), out
}

func (x *ext[T, V]) equal(i, j int) []bool {
	if x.e.reg[i].k == "nest" {
		a, b := x.n[i], x.n[j]
		return []bool{a.Equal(b), b.Equal(a), a.Same(b), b.Same(a)}
	}
	a, b := x.nm[i], x.nm[j]
	return []bool{a.Equal(b), b.Equal(a), a.Same(b), b.Same(a)}
}

func (x *ext[T, V]) hash(o int, seed uintptr) uintptr {
	if x.e.reg[o].k == "nest" {
		return x.n[o].Hash(seed)
	}
	return x.nm[o].Hash(seed)
}

func (x *ext[T, V]) exec(op Op) tr.M {
	e := x.e
	ku, vu := e.ku, e.vu
	ev := tr.M{"op": op.Op, "a": op.A, "b": op.B, "x": op.X}
	A, B := &e.reg[op.A], &e.reg[op.B]
	switch op.Op {
	// ------------------------------------------------------------ nested
	case "newnest":
		ss := make([]frozen.Set[T], len(op.As))
		for i, a := range op.As {
			ss[i] = e.reg[a].s
		}
		n := frozen.NewSet(ss...)
		for i := range ss {
			ss[i] = frozen.Set[T]{}
		}
		ev["as"] = op.As
		x.setNest(op.O, n)
		return e.obsInto(ev, op.O)
	case "nestwith":
		x.setNest(op.O, x.n[op.A].With(B.s))
		return e.obsInto(ev, op.O)
	case "nestwithout":
		x.setNest(op.O, x.n[op.A].Without(B.s))
		return e.obsInto(ev, op.O)
	case "nestop":
		var n frozen.Set[frozen.Set[T]]
		switch op.How {
		case "union":
			n = x.n[op.A].Union(x.n[op.B])
		case "inter":
			n = x.n[op.A].Intersection(x.n[op.B])
		case "diff":
			n = x.n[op.A].Difference(x.n[op.B])
		}
		ev["how"] = op.How
		x.setNest(op.O, n)
		return e.obsInto(ev, op.O)
	case "nesthas":
		ev["r"] = x.n[op.A].Has(B.s)
		return ev
	case "powerset":
		x.setNest(op.O, frozen.Powerset(A.s))
		return e.obsInto(ev, op.O)
	case "powq": // a large powerset, its members as bit masks over the elements
		es := A.s.Elements()
		p := frozen.Powerset(A.s)
		ms := []int{}
		pos := map[int]int{}
		for i, v := range es {
			pos[ku.dec(v)] = i
		}
		for i := p.Range(); i.Next(); {
			m, n := 0, 0
			s := i.Value()
			for j := s.Range(); j.Next(); n++ {
				k, ok := pos[ku.dec(j.Value())]
				if !ok || m&(1<<k) != 0 {
					m = bad
					break
				}
				m |= 1 << k
			}
			if m >= 0 && s.Count() != n {
				m = bad
			}
			ms = append(ms, m)
		}
		found := true
		for k := 0; k < 5; k++ {
			var sub []T
			for i := range es {
				if e.r.P(1, 2) {
					sub = append(sub, es[i])
				}
			}
			found = found && p.Has(frozen.NewSet(sub...))
		}
		ev["es"], ev["ms"], ev["c"], ev["ok"] = e.decs(es), ms, p.Count(), found
		return ev
	case "newnmap":
		b := frozen.NewMapBuilder[frozen.Set[T], V](op.N)
		kvs := []frozen.KeyValue[frozen.Set[T], V]{}
		for _, p := range op.KV {
			kvs = append(kvs, frozen.KV(e.reg[p[0]].s, vu.mk(p[1])))
			b.Put(e.reg[p[0]].s, vu.mk(p[1]))
		}
		m := frozen.NewMap(kvs...)
		if op.N%2 == 1 {
			m = b.Finish()
		}
		ev["kv"] = op.KV
		x.setNMap(op.O, m)
		return e.obsInto(ev, op.O)
	case "nmapwith":
		x.setNMap(op.O, x.nm[op.A].With(B.s, vu.mk(op.X)))
		return e.obsInto(ev, op.O)
	case "nmapwithout":
		x.setNMap(op.O, x.nm[op.A].Without(B.s))
		return e.obsInto(ev, op.O)
	case "nmapget":
		v, has := x.nm[op.A].Get(B.s)
		ev["ok"], ev["x"] = has, 0
		if has {
			ev["x"] = vu.dec(v)
		}
		return ev
	case "groupby":
		g := frozen.SetGroupBy(A.s, func(x T) V {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(x))
			return vu.mk(at(op.F, ku.dec(x)))
		})
		rows := [][]any{}
		o := op.O
		e.setReg(o, frozen.Set[T]{})
		pick := -1
		for i := g.Range(); i.Next(); {
			k, s := i.Entry()
			kid := vu.dec(k)
			rows = append(rows, []any{kid, s.Count(), e.iterSet(s)})
			if pick < 0 || len(rows)%3 == op.N%3 {
				pick = kid
				e.setReg(o, s)
			}
		}
		// the groups are also found by key
		for kid := 0; kid < vu.n && kid < 6; kid++ {
			s, has := g.Get(vu.mk(kid))
			rows = append(rows, []any{kid, -1, e.iterSet(s)})
			if !has {
				rows[len(rows)-1][1] = -2
			}
		}
		ev["f"], ev["rows"], ev["n"], ev["y"] = op.F, rows, pick, g.Count()
		return e.obsInto(ev, o)
	}
	panic("harness: unknown op " + op.Op)
}
