package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/arr-ai/frozen"

	"frozenverif/tr"
)

// embed gives each key a real hash: digit j of its layout becomes the digit at
// one of the 22 real levels; all other levels are the same for all keys.
func embed(r *tr.Rng, lay [][]int) (string, []uint64) {
	n := len(lay[0])
	var at []int
	switch r.N(5) {
	case 0:
		for j := 0; j < n; j++ {
			at = append(at, j)
		}
	case 1:
		for j := 0; j < n; j++ {
			at = append(at, 22-n+j)
		}
	case 2:
		at = append(at, 0)
		for j := 1; j < n; j++ {
			at = append(at, 22-n+j)
		}
	default:
		at = r.Perm(22)[:n]
		sort.Ints(at)
	}
	base := r.U64()
	h := make([]uint64, len(lay))
	for k := range h {
		h[k] = base
	}
	for j, lv := range at {
		perm := r.Perm(8)
		if lv == 21 { // one bit only
			perm = []int{0, 4, 0, 4, 0, 4, 0, 4}
			if r.P(1, 2) {
				perm = []int{4, 0, 4, 0, 4, 0, 4, 0}
			}
		}
		for k := range h {
			d := uint64(perm[lay[k][j]])
			if lv == 21 {
				h[k] = h[k]&^1 | d>>2
			} else {
				sh := uint(61 - 3*lv)
				h[k] = h[k]&^(7<<sh) | d<<sh
			}
		}
	}
	return fmt.Sprintf("trie%v@%v", lay, at), h
}

// runTries replays the cases in the file: part i of n.
func runTries(t *tr.Tracer, r *tr.Rng, path, what string, part, parts, sample int) {
	keys, by := tr.ReadCases(path)
	max := 1
	for _, k := range keys {
		if len(by[k]) > max {
			max = len(by[k])
		}
	}
	t.Ev(tr.M{"op": "head", "nr": max, "nb": 1, "ni": 1, "wt": []int{}})
	for i, k := range keys {
		// small layouts are done in one part, large ones are cut in pieces
		cs := by[k]
		lo, hi := 0, len(cs)
		if len(cs) <= 60 {
			if i%parts != part {
				continue
			}
		} else {
			lo, hi = len(cs)*part/parts, len(cs)*(part+1)/parts
		}
		name, h := embed(r, cs[0].Lay)
		n := len(h)
		switch i % 4 {
		case 0, 1:
			tries(t, r, uniE(n, name, h), uniSmallInt(5), cs, what, lo, hi, sample)
		case 2:
			tries(t, r, uniHs(n, name, h), uniSmallInt(5), cs, what, lo, hi, sample)
		default:
			tries(t, r, uniPe(n, name, h), uniPt(5), cs, what, lo, hi, sample)
		}
	}
}

func tries[T, V any](t *tr.Tracer, r *tr.Rng, ku *Uni[T], vu *Uni[V], cs []tr.Case, what string, lo, hi, sample int) {
	e := newEnv[T, V](t, r, ku, vu, len(cs), 1, 1)
	t.Ev(tr.M{"op": "reset", "what": what + " " + ku.name})
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopEpisode); !ok {
				panic(x)
			}
		}
	}()
	call := func(op string, f func(ev tr.M)) {
		t.Begin(op)
		ev := tr.M{"op": op}
		if pan, msg := tr.Try(func() { f(ev) }); pan {
			b, _ := json.Marshal(ev)
			t.Ev(tr.M{"op": "panic", "in": op, "msg": msg, "args": string(b)})
			panic(stopEpisode{})
		}
		t.Ev(ev)
	}
	n := len(cs[0].Lay)
	if what == "builders" {
		e.trieBuilders(call, cs[lo:hi], n)
		return
	}
	kind := "set"
	if what == "maps" || what == "mapchains" {
		kind = "map"
	}
	for i, c := range cs {
		call("script", func(ev tr.M) {
			ev["o"], ev["k"], ev["q"] = i, kind, c.Hist
			if kind == "set" {
				var s frozen.Set[T]
				for _, kv := range c.Hist {
					if kv[1] < 0 {
						s = s.Without(ku.mk(kv[0]))
					} else {
						s = s.With(ku.mk(kv[0]))
					}
				}
				e.setReg(i, s)
			} else {
				var m frozen.Map[T, V]
				for _, kv := range c.Hist {
					if kv[1] < 0 {
						m = m.Without(ku.mk(kv[0]))
					} else {
						m = m.With(ku.mk(kv[0]), vu.mk(kv[1]))
					}
				}
				e.mapReg(i, m)
			}
			e.obsInto(ev, i)
		})
	}
	if what == "chains" || what == "mapchains" {
		for a := lo; a < hi; a++ {
			if sample <= 1 || r.P(1, sample) {
				call("chain", func(ev tr.M) { e.trieChain(ev, a, n) })
			}
		}
	} else if kind == "set" {
		e.trieSets(call, n, lo, hi, sample)
	} else {
		e.trieMaps(call, n, lo, hi, sample)
	}
	e.Do(Op{Op: "obs"})
}

func (e *Env[T, V]) maskOf(s frozen.Set[T]) int {
	m := 0
	for _, id := range e.iterSet(s) {
		if id < 0 || m>>uint(id)&1 == 1 {
			return -1
		}
		m |= 1 << uint(id)
	}
	return m
}

func (e *Env[T, V]) code(m frozen.Map[T, V]) int {
	pow := []int{1, 6, 36, 216, 1296, 7776}
	c := 0
	for _, kv := range e.iterMap(m) {
		if kv[0] < 0 || kv[0] >= len(pow) || kv[1] < 0 || kv[1] > 4 || c/pow[kv[0]]%6 != 0 {
			return -1
		}
		c += (kv[1] + 1) * pow[kv[0]]
	}
	return c
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (e *Env[T, V]) trieSets(call func(string, func(tr.M)), n, lo, hi, sample int) {
	ku := e.ku
	canon := map[int]int{} // a register listing these elements
	for i := range e.reg {
		m := e.maskOf(e.reg[i].s)
		if _, ok := canon[m]; !ok || e.r.P(1, 8) {
			canon[m] = i
		}
	}
	show := func(s frozen.Set[T]) []int { return []int{e.maskOf(s), s.Count()} }
	showC := func(s frozen.Set[T]) []int {
		m := e.maskOf(s)
		c := canon[m]
		same := s.Equal(e.reg[c].s) && e.reg[c].s.Equal(s) && s.Hash(0) == e.reg[c].s.Hash(0)
		return []int{m, s.Count(), c, b01(same)}
	}
	for a := lo; a < hi; a++ {
		A := e.reg[a].s
		call("pairs", func(ev tr.M) {
			rows := []tr.M{}
			for b := range e.reg {
				if sample > 1 && !e.r.P(1, sample) {
					continue
				}
				B := e.reg[b].s
				rows = append(rows, tr.M{"b": b, "u": showC(A.Union(B)), "i": showC(A.Intersection(B)), "d": showC(A.Difference(B)),
					"s": showC(A.SymmetricDifference(B)), "eq": b01(A.Equal(B)), "sub": b01(A.IsSubsetOf(B))})
			}
			ev["a"], ev["rows"], ev["cf"] = a, rows, []int{}
		})
		call("singles", func(ev tr.M) {
			w, wo, h, wh := [][]int{}, [][]int{}, []int{}, [][]int{}
			for x := 0; x < n; x++ {
				w = append(w, show(A.With(ku.mk(x))))
				wo = append(wo, show(A.Without(ku.mk(x))))
				h = append(h, b01(A.Has(ku.mk(x))))
			}
			for k := 0; k < 1<<uint(n); k++ {
				wh = append(wh, show(A.Where(func(v T) bool { id := ku.dec(v); return id >= 0 && k>>uint(id)&1 == 1 })))
			}
			ev["a"], ev["n"], ev["y"], ev["w"], ev["wo"], ev["h"], ev["wh"] = a, n, 0, w, wo, h, wh
		})
	}
}

func (e *Env[T, V]) trieMaps(call func(string, func(tr.M)), n, lo, hi, sample int) {
	ku, vu := e.ku, e.vu
	const nv = 3
	canon := map[int]int{}
	for i := range e.reg {
		m := e.code(e.reg[i].m)
		if _, ok := canon[m]; !ok || e.r.P(1, 8) {
			canon[m] = i
		}
	}
	show := func(m frozen.Map[T, V]) []int { return []int{e.code(m), m.Count()} }
	showC := func(m frozen.Map[T, V]) []int {
		k := e.code(m)
		c := canon[k]
		same := m.Equal(e.reg[c].m) && e.reg[c].m.Equal(m) && m.Hash(0) == e.reg[c].m.Hash(0)
		return []int{k, m.Count(), c, b01(same)}
	}
	for a := lo; a < hi; a++ {
		A := e.reg[a].m
		call("pairs", func(ev tr.M) {
			rows := []tr.M{}
			c := []int{1 + e.r.N(4), 1 + e.r.N(4), 1 + e.r.N(4), e.r.N(5), 5}
			for b := range e.reg {
				if sample > 1 && !e.r.P(1, sample) {
					continue
				}
				B := e.reg[b].m
				merged := A.Merge(B, func(k T, x, y V) V { return vu.mk(lin3(c, ku.dec(k), vu.dec(x), vu.dec(y))) })
				rows = append(rows, tr.M{"b": b, "u": showC(A.Update(B)), "m": show(merged), "eq": b01(A.Equal(B))})
			}
			ev["a"], ev["rows"], ev["cf"] = a, rows, c
		})
		call("singles", func(ev tr.M) {
			w, wo, h, wh := [][]int{}, [][]int{}, []int{}, [][]int{}
			for x := 0; x < n; x++ {
				for y := 0; y < nv; y++ {
					w = append(w, show(A.With(ku.mk(x), vu.mk(y))))
				}
				wo = append(wo, show(A.Without(ku.mk(x))))
				if v, ok := A.Get(ku.mk(x)); ok {
					h = append(h, vu.dec(v)+1)
				} else {
					h = append(h, 0)
				}
			}
			for k := 0; k < 1<<uint(n); k++ {
				wh = append(wh, show(A.Where(func(key T, _ V) bool { id := ku.dec(key); return id >= 0 && k>>uint(id)&1 == 1 })))
			}
			ev["a"], ev["n"], ev["y"], ev["w"], ev["wo"], ev["h"], ev["wh"] = a, n, nv, w, wo, h, wh
		})
	}
}

// trieBuilders feeds builders with every script followed by every call.
func (e *Env[T, V]) trieBuilders(call func(string, func(tr.M)), cs []tr.Case, n int) {
	ku, vu := e.ku, e.vu
	for ci, c := range cs {
		for x := 0; x < 2*n; x++ {
			last := []int{x / 2, x%2 - 1}
			q := append(append([][]int{}, c.Hist...), last)
			call("bscript", func(ev tr.M) {
				log := [][]int{}
				if (ci+x)%2 == 0 {
					var b frozen.SetBuilder[T]
					for _, kv := range q {
						if kv[1] < 0 {
							b.Remove(ku.mk(kv[0]))
						} else {
							b.Add(ku.mk(kv[0]))
						}
						m := 0
						for i := 0; i < n; i++ {
							m |= b01(b.Has(ku.mk(i))) << uint(i)
						}
						log = append(log, []int{b.Count(), m})
					}
					s := b.Finish()
					ev["k"], ev["fin"], ev["y"] = "set", []int{e.maskOf(s), s.Count()}, b.Count()
					for i := range q { // the builder goes on, with all keys
						b.Add(ku.mk(q[len(q)-1-i][0]))
						b.Remove(ku.mk(q[i][0]))
					}
					for i := 0; i < n; i++ {
						b.Add(ku.mk(i))
					}
					ev["again"] = []int{e.maskOf(s), s.Count()}
				} else {
					var b frozen.MapBuilder[T, V]
					for i, kv := range q {
						if kv[1] < 0 {
							b.Remove(ku.mk(kv[0]))
						} else {
							q[i] = []int{kv[0], (i + x) % 4}
							b.Put(ku.mk(kv[0]), vu.mk((i+x)%4))
						}
						m := 0
						for i := 0; i < n; i++ {
							m |= b01(b.Has(ku.mk(i))) << uint(i)
						}
						log = append(log, []int{b.Count(), m})
					}
					s := b.Finish()
					ev["k"], ev["fin"], ev["y"] = "map", []int{e.code(s), s.Count()}, b.Count()
					for i := range q {
						b.Put(ku.mk(q[len(q)-1-i][0]), vu.mk(3))
						b.Remove(ku.mk(q[i][0]))
					}
					for i := 0; i < n; i++ {
						b.Put(ku.mk(i), vu.mk(4))
					}
					ev["again"] = []int{e.code(s), s.Count()}
				}
				ev["q"], ev["log"] = q, log
			})
		}
	}
}

// trieChain derives values from register a, and values from those, and shows
// every one of them when it is made and again in the end.
func (e *Env[T, V]) trieChain(ev tr.M, a, n int) {
	type val struct {
		s frozen.Set[T]
		m frozen.Map[T, V]
	}
	type row [6]any
	ku, vu := e.ku, e.vu
	isMap := e.reg[a].k == "map"
	c := []int{1 + e.r.N(4), 1 + e.r.N(4), 1 + e.r.N(4), e.r.N(5), 5}
	show := func(v val) [2]int {
		if isMap {
			return [2]int{e.code(v.m), v.m.Count()}
		}
		return [2]int{e.maskOf(v.s), v.s.Count()}
	}
	base := val{e.reg[a].s, e.reg[a].m}
	vals, rows := []val{}, []row{}
	of := func(i int) val {
		if i < 0 {
			return base
		}
		return vals[i]
	}
	do := func(op string, src, x, y int) {
		var v val
		S := of(src)
		switch {
		case op == "reg":
			v = val{e.reg[x].s, e.reg[x].m}
		case op == "with" && isMap:
			v.m = S.m.With(ku.mk(x), vu.mk(y))
		case op == "with":
			v.s = S.s.With(ku.mk(x))
		case op == "without" && isMap:
			v.m = S.m.Without(ku.mk(x))
		case op == "without":
			v.s = S.s.Without(ku.mk(x))
		case op == "where" && isMap:
			v.m = S.m.Where(func(k T, _ V) bool { id := ku.dec(k); return id >= 0 && x>>uint(id)&1 == 1 })
		case op == "where":
			v.s = S.s.Where(func(k T) bool { id := ku.dec(k); return id >= 0 && x>>uint(id)&1 == 1 })
		case op == "union" && isMap:
			v.m = S.m.Update(of(x).m)
		case op == "union":
			v.s = S.s.Union(of(x).s)
		case op == "merge":
			v.m = S.m.Merge(of(x).m, func(k T, p, q V) V { return vu.mk(lin3(c, ku.dec(k), vu.dec(p), vu.dec(q))) })
		case op == "inter":
			v.s = S.s.Intersection(of(x).s)
		case op == "diff":
			v.s = S.s.Difference(of(x).s)
		case op == "symdiff":
			v.s = S.s.SymmetricDifference(of(x).s)
		}
		vals = append(vals, v)
		rows = append(rows, row{op, src, x, y, show(v), nil})
	}
	two := []string{"union", "inter", "diff", "symdiff"}
	if isMap {
		two = []string{"union", "merge"}
	}
	for i := 0; i < 3; i++ {
		do("reg", -1, e.r.N(len(e.reg)), 0)
	}
	kids := []int{-1, 0, 1}
	kid := func(op string, src, x, y int) {
		do(op, src, x, y)
		kids = append(kids, len(rows)-1)
	}
	for x := 0; x < n; x++ {
		kid("with", -1, x, 3)
		if isMap {
			kid("with", -1, x, 2)
		}
		kid("without", -1, x, 0)
		kid("where", -1, e.r.N(1<<uint(n)), 0)
	}
	for i := 0; i < 3; i++ {
		for _, op := range two {
			kid(op, -1, i, 0)
			kid(op, i, -1, 0)
		}
	}
	for _, k := range kids {
		for x := 0; x < n; x++ {
			do("with", k, x, 1)
			if isMap {
				do("with", k, x, 4)
			}
			do("without", k, x, 0)
		}
		do(two[e.r.N(len(two))], k, kids[e.r.N(len(kids))], 0)
		do(two[e.r.N(len(two))], kids[e.r.N(len(kids))], k, 0)
		do("where", k, e.r.N(1<<uint(n)), 0)
	}
	for i := range rows {
		rows[i][5] = show(vals[i])
	}
	ev["a"], ev["rows"], ev["cf"], ev["last"] = a, rows, c, show(base)
}
