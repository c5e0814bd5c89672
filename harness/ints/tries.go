package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"frozenverif/tr"
)

func runTries(t *tr.Tracer, r *tr.Rng, path string, part, parts, sample int) {
	keys, by := tr.ReadCases(path)
	max := 1
	for _, k := range keys {
		if len(by[k]) > max {
			max = len(by[k])
		}
	}
	t.Ev(tr.M{"op": "head", "nr": max, "nb": 1, "ni": 1, "wt": []int{}})
	for i, k := range keys {
		cs := by[k]
		for typ := 0; typ < 12; typ++ {
			if (typ == 1 || typ == 6) && cs[0].Lay[len(cs[0].Lay)-1][0] > 3 {
				continue // eight bits make four cells
			}
			if (i*12+typ)%parts != part || sample > 1 && !r.P(1, sample) {
				continue
			}
			switch typ {
			case 0:
				tries(t, r, "int", place[int](r, cs[0].Lay), cs)
			case 1:
				tries(t, r, "int8", place[int8](r, cs[0].Lay), cs)
			case 2:
				tries(t, r, "int16", place[int16](r, cs[0].Lay), cs)
			case 3:
				tries(t, r, "int32", place[int32](r, cs[0].Lay), cs)
			case 4:
				tries(t, r, "int64", place[int64](r, cs[0].Lay), cs)
			case 5:
				tries(t, r, "uint", place[uint](r, cs[0].Lay), cs)
			case 6:
				tries(t, r, "uint8", place[uint8](r, cs[0].Lay), cs)
			case 7:
				tries(t, r, "uint16", place[uint16](r, cs[0].Lay), cs)
			case 8:
				tries(t, r, "uint32", place[uint32](r, cs[0].Lay), cs)
			case 9:
				tries(t, r, "uint64", place[uint64](r, cs[0].Lay), cs)
			case 10:
				tries(t, r, "uintptr", place[uintptr](r, cs[0].Lay), cs)
			case 11:
				tries(t, r, "myInt", place[myInt](r, cs[0].Lay), cs)
			}
		}
	}
}

// place picks integers that share cells as the layout says: cells next to each
// other, at the ends of the type, or anywhere; bits at the ends of a cell or anywhere.
func place[I integer](r *tr.Rng, lay [][]int) []I {
	ones := ^I(0)
	lo := I(0)
	if ones < 0 {
		hi := I(0)
		for v := I(1); v > 0; v <<= 1 {
			hi |= v
		}
		lo = ^hi
	}
	bases := []I{0, lo, lo - 1, ones, I(r.U64())}
	used := map[I]bool{}
	cells := map[int]I{} // first integer of the cell
	near := bases[r.N(len(bases))]
	var out []I
	taken := map[I]bool{}
	for _, l := range lay {
		first, ok := cells[l[0]]
		for tries := 0; !ok; tries++ {
			b := near
			if r.P(1, 3) {
				b = bases[r.N(len(bases))]
			}
			if tries > 20 {
				b = I(r.U64())
			}
			first = (b + I(r.N(3)-1)*64) &^ 63
			ok = !used[first]
		}
		used[first] = true
		cells[l[0]] = first
		for {
			v := first | I(r.Pick(0, 63, 1, 62, 31, 32, r.N(64)))
			if !taken[v] {
				taken[v] = true
				out = append(out, v)
				break
			}
		}
	}
	return out
}

func tries[I integer](t *tr.Tracer, r *tr.Rng, name string, vals []I, cs []tr.Case) {
	e := newEnv(t, r, vals)
	e.reg = make([]frozen.IntSet[I], len(cs))
	n := len(vals)
	t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("tries IntSet[%s] %v", name, cs[0].Lay)})
	mask := func(s frozen.IntSet[I]) int {
		m := 0
		for _, id := range e.iter(s) {
			if id < 0 || m>>uint(id)&1 == 1 {
				return -1
			}
			m |= 1 << uint(id)
		}
		return m
	}
	b01 := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	guard(func() {
		canon := map[int]int{}
		for i, c := range cs {
			e.do("script", func(ev tr.M) {
				var s frozen.IntSet[I]
				if i%3 == 2 { // the same by construction, then With and Without
					s = frozen.NewIntSet[I]()
				}
				for _, kv := range c.Hist {
					if kv[1] < 0 {
						s = s.Without(e.mk(kv[0]))
					} else {
						s = s.With(e.mk(kv[0]))
					}
				}
				e.reg[i] = s
				ev["o"], ev["k"], ev["q"] = i, "set", c.Hist
				ev["c"], ev["e"], ev["it"] = s.Count(), s.IsEmpty(), e.iter(s)
			})
			if m := mask(e.reg[i]); canon[m] == 0 || r.P(1, 3) {
				canon[m] = i
			}
		}
		show := func(s frozen.IntSet[I]) []int { return []int{mask(s), s.Count()} }
		showC := func(s frozen.IntSet[I]) []int {
			m := mask(s)
			c := canon[m]
			return []int{m, s.Count(), c, b01(s.Equal(e.reg[c]) && e.reg[c].Equal(s) && s.Same(e.reg[c]) && s.Hash(0) == e.reg[c].Hash(0))}
		}
		for a := range e.reg {
			A := e.reg[a]
			e.do("ipairs", func(ev tr.M) {
				rows := []tr.M{}
				for b, B := range e.reg {
					rows = append(rows, tr.M{"b": b, "u": showC(A.Union(B)), "i": showC(A.Intersection(B)), "eq": b01(A.Equal(B)), "sub": b01(A.IsSubsetOf(B))})
				}
				ev["a"], ev["rows"] = a, rows
			})
			e.do("singles", func(ev tr.M) {
				w, wo, h, wh := [][]int{}, [][]int{}, []int{}, [][]int{}
				for x := 0; x < n; x++ {
					w = append(w, show(A.With(e.mk(x))))
					wo = append(wo, show(A.Without(e.mk(x))))
					h = append(h, b01(A.Has(e.mk(x))))
				}
				for k := 0; k < 1<<uint(n); k++ {
					wh = append(wh, show(A.Where(func(v I) bool { id := e.dec(v); return id >= 0 && k>>uint(id)&1 == 1 })))
				}
				ev["a"], ev["n"], ev["y"], ev["w"], ev["wo"], ev["h"], ev["wh"] = a, n, 0, w, wo, h, wh
			})
			e.do("chain", func(ev tr.M) { e.chain(ev, a, n, show) })
		}
	})
}

// chain derives sets from register a and from those, as the trie driver does.
func (e *env[I]) chain(ev tr.M, a, n int, show func(frozen.IntSet[I]) []int) {
	base := e.reg[a]
	vals, rows := []frozen.IntSet[I]{}, [][6]any{}
	of := func(i int) frozen.IntSet[I] {
		if i < 0 {
			return base
		}
		return vals[i]
	}
	do := func(op string, src, x int) {
		var v frozen.IntSet[I]
		switch op {
		case "reg":
			v = e.reg[x]
		case "with":
			v = of(src).With(e.mk(x))
		case "without":
			v = of(src).Without(e.mk(x))
		case "where":
			v = of(src).Where(func(v I) bool { id := e.dec(v); return id >= 0 && x>>uint(id)&1 == 1 })
		case "union":
			v = of(src).Union(of(x))
		case "inter":
			v = of(src).Intersection(of(x))
		}
		vals = append(vals, v)
		rows = append(rows, [6]any{op, src, x, 0, show(v), nil})
	}
	two := []string{"union", "inter"}
	for i := 0; i < 3; i++ {
		do("reg", -1, e.r.N(len(e.reg)))
	}
	kids := []int{-1, 0}
	for x := 0; x < n; x++ {
		do("with", -1, x)
		do("without", -1, x)
		kids = append(kids, len(rows)-2, len(rows)-1)
	}
	for i := 0; i < 3; i++ {
		do("union", -1, i)
		do("inter", i, -1)
		kids = append(kids, len(rows)-2, len(rows)-1)
	}
	for _, k := range kids {
		for x := 0; x < n; x++ {
			do("with", k, x)
			do("without", k, x)
		}
		do(two[e.r.N(2)], k, kids[e.r.N(len(kids))])
		do(two[e.r.N(2)], kids[e.r.N(len(kids))], k)
		do("where", k, e.r.N(1<<uint(n)))
	}
	for i := range rows {
		rows[i][5] = show(vals[i])
	}
	ev["a"], ev["rows"], ev["cf"], ev["last"] = a, rows, []int{}, show(base)
}
