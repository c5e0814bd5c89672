// lazyset drives frozen/lazy and records what it does.
package main

import (
	"flag"
	"fmt"
	"math/bits"
	"strconv"
	"time"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"frozenverif/tr"
)

const (
	nr  = 8
	ni  = 4
	bad = -1
)

// Ea is identified by its Equal method; hashes collide.
type Ea struct {
	ID, Tag int
}

func (e Ea) Equal(a any) bool          { o, is := a.(Ea); return is && e.ID == o.ID }
func (e Ea) Hash(seed uintptr) uintptr { return uintptr(e.ID%2)<<61 + seed }

// Ho is comparable and all its values collide.
type Ho struct{ ID int }

func (e Ho) Hash(seed uintptr) uintptr { return 7 + seed }

type env struct {
	t    *tr.Tracer
	r    *tr.Rng
	n    int
	kind int
	reg  []lazy.Set
	k    []string   // none set pow bigpow
	den  []uint64   // set, bigpow: what it should denote (guides the generator, checks nothing)
	pden [][]uint64 // pow
	it   []float64  // estimated cost of one iteration / one membership test
	hc   []float64
	tnt  []bool // powerset of an empty set: FastIsEmpty is a known finding
	itr  []lazy.SetIterator
	itk  []string
	ito  []int
	ion  []bool // the last step of the iterator found an element
}

func (e *env) mk(id int) any {
	switch {
	case e.kind == 0:
		return id
	case e.kind == 1:
		return Ea{ID: id, Tag: int(tr.NextTag())}
	case e.kind == 2:
		return Ho{id}
	}
	switch id % 5 {
	case 0:
		return id
	case 1:
		return strconv.Itoa(id)
	case 2:
		return Ea{ID: id, Tag: int(tr.NextTag())}
	case 3:
		return Ho{id}
	default:
		return float64(id)
	}
}

func (e *env) dec(v any) int {
	id := bad
	switch v := v.(type) {
	case int:
		id = v
	case string:
		i, err := strconv.Atoi(v)
		if err != nil {
			return bad
		}
		id = i
	case Ea:
		id = v.ID
	case Ho:
		id = v.ID
	case float64:
		id = int(v)
	}
	return id
}

// list reads a set of plain elements.
func (e *env) list(s lazy.Set) []int {
	q := []int{}
	for i := s.Range(); i.Next() && len(q) < 10000; {
		q = append(q, e.dec(i.Value()))
	}
	return q
}

// el records an element of a register of kind k.
func (e *env) el(k string, v any) any {
	if k == "set" {
		return e.dec(v)
	}
	switch v := v.(type) {
	case lazy.Set:
		return e.list(v)
	}
	return []int{bad}
}

func (e *env) mask(v any) (m uint64) {
	if s, ok := v.(lazy.Set); ok {
		for _, id := range e.list(s) {
			if id >= 0 && id < 64 {
				m |= 1 << uint(id)
			}
		}
	}
	return m
}

// sub makes a lazy set of the ids in m, one way or another.
func (e *env) sub(m uint64) lazy.Set {
	var ids []any
	for x := m; x != 0; x &= x - 1 {
		ids = append(ids, e.mk(bits.TrailingZeros64(x)))
	}
	switch e.r.N(4) {
	case 0:
		if m == 0 {
			return lazy.EmptySet{}
		}
		return lazy.Frozen(frozen.NewSet(ids...))
	case 1:
		var s lazy.Set = lazy.EmptySet{}
		for _, x := range ids {
			s = s.With(x)
		}
		return s
	case 2:
		h := len(ids) / 2
		return lazy.Frozen(frozen.NewSet(ids[:h]...)).Union(lazy.Frozen(frozen.NewSet(ids[h/2:]...)))
	default:
		all := []any{}
		for id := 0; id < e.n && id < 64; id++ {
			all = append(all, e.mk(id))
		}
		return lazy.Frozen(frozen.NewSet(all...)).Where(func(v any) bool {
			id := e.dec(v)
			return id >= 0 && m>>uint(id)&1 == 1
		})
	}
}

func ids(m uint64) []int {
	q := []int{}
	for ; m != 0; m &= m - 1 {
		q = append(q, bits.TrailingZeros64(m))
	}
	return q
}

func lists(p []uint64) [][]int {
	q := [][]int{}
	for _, m := range p {
		q = append(q, ids(m))
	}
	return q
}

type stop struct{}

func (e *env) do(op string, f func(ev tr.M)) {
	e.t.Begin(op)
	ev := tr.M{"op": op}
	pan, msg := tr.Try(func() { f(ev) })
	if pan {
		e.t.Ev(tr.M{"op": "panic", "in": op, "msg": msg, "args": fmt.Sprint(ev)})
		panic(stop{})
	}
	e.t.Ev(ev)
}

func (e *env) put(o int, s lazy.Set, k string, den uint64, pden []uint64, it, hc float64) {
	e.reg[o], e.k[o], e.den[o], e.pden[o], e.it[o], e.hc[o], e.tnt[o] = s, k, den, pden, it, hc, false
}

func (e *env) card(a int) float64 {
	if e.k[a] == "pow" {
		return float64(len(e.pden[a]))
	}
	return float64(bits.OnesCount64(e.den[a]))
}

func (e *env) isEmpty(a int) bool {
	return e.k[a] == "set" && e.den[a] == 0 || e.k[a] == "pow" && len(e.pden[a]) == 0
}

func (e *env) pick(ok func(a int) bool) int {
	var c []int
	for a := range e.reg {
		if e.k[a] != "none" && ok(a) {
			c = append(c, a)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[e.r.N(len(c))]
}

func tract(e *env) func(int) bool {
	return func(a int) bool { return e.k[a] != "bigpow" }
}

// ok: an operand whose FastIsEmpty can be relied on
func sound(e *env) func(int) bool {
	return func(a int) bool { return e.k[a] != "bigpow" && !e.tnt[a] }
}

func uniq(p []uint64) []uint64 {
	seen := map[uint64]bool{}
	out := []uint64{}
	for _, m := range p {
		if !seen[m] {
			seen[m] = true
			out = append(out, m)
		}
	}
	return out
}

func in(p []uint64, m uint64) bool {
	for _, x := range p {
		if x == m {
			return true
		}
	}
	return false
}

// Op is one call, chosen by the generator or read from a generated behaviour.
type Op struct {
	Op  string `json:"op"`
	O   int    `json:"o"`
	A   int    `json:"a"`
	B   int    `json:"b"`
	X   int    `json:"x"`
	I   int    `json:"i"`
	Y   int    `json:"y"`
	Q   []int  `json:"q"`
	How string `json:"how"`
	M   uint64 `json:"-"`
}

// builds: the call makes a set; the others observe
func (op Op) builds() bool {
	switch op.Op {
	case "lnew", "lwith", "lwithout", "lunion", "linter", "ldiff", "lsym", "lwhere", "lmap", "lpow":
		return true
	}
	return false
}

const tooDear = 4000.0

func (e *env) exec(op Op) {
	if op.Q == nil {
		op.Q = []int{}
	}
	a, b, o := op.A, op.B, op.O
	A, B := e.reg[a], e.reg[b]
	ka := e.k[a]
	// an element argument: an id, or the list of the members of M
	arg := func() (v any, rec any) {
		if ka == "set" {
			return e.mk(op.X), op.X
		}
		return e.sub(op.M), ids(op.M)
	}
	bit := func() uint64 { return 1 << uint(op.X) }
	ca := e.card(a)
	switch op.Op {
	case "lnew":
		e.do("lnew", func(ev tr.M) {
			var xs []any
			var m uint64
			for _, id := range op.Q {
				xs = append(xs, e.mk(id))
				m |= 1 << uint(id)
			}
			ev["o"], ev["q"] = o, op.Q
			var s lazy.Set
			if len(op.Q) == 0 && op.How == "empty" {
				s = lazy.EmptySet{}
			} else {
				s = lazy.Frozen(frozen.NewSet(xs...))
			}
			e.put(o, s, "set", m, nil, float64(len(xs)+1), 1)
		})
	case "lwith", "lwithout":
		e.do(op.Op, func(ev tr.M) {
			v, rec := arg()
			ev["o"], ev["a"], ev["x"] = o, a, rec
			var s lazy.Set
			den, pden := e.den[a], append([]uint64{}, e.pden[a]...)
			if op.Op == "lwith" {
				s = A.With(v)
				den |= bit()
				pden = uniq(append(pden, op.M))
			} else {
				s = A.Without(v)
				den &^= bit()
				pden = nil
				for _, m := range e.pden[a] {
					if m != op.M {
						pden = append(pden, m)
					}
				}
			}
			e.put(o, s, ka, den, pden, e.it[a]+ca+1, e.hc[a]+1)
		})
	case "lunion", "linter", "ldiff", "lsym":
		e.do(op.Op, func(ev tr.M) {
			ev["o"], ev["a"], ev["b"] = o, a, b
			k := ka
			if (op.Op == "lunion" || op.Op == "lsym") && e.isEmpty(a) {
				k = e.k[b]
			}
			da, db, pa, pb := e.den[a], e.den[b], e.pden[a], e.pden[b]
			if ka != "set" || e.isEmpty(a) {
				da = 0
			}
			if e.k[b] != "set" {
				db = 0
			}
			if ka != "pow" {
				pa = nil
			}
			if e.k[b] != "pow" {
				pb = nil
			}
			var s lazy.Set
			var d uint64
			p := []uint64{}
			itc, hc := e.it[a]+e.it[b]+1, e.hc[a]+e.hc[b]+1
			switch op.Op {
			case "lunion":
				s, d, p = A.Union(B), da|db, uniq(append(append(p, pa...), pb...))
			case "linter":
				s, d = A.Intersection(B), da&db
				for _, m := range pa {
					if in(pb, m) {
						p = append(p, m)
					}
				}
				itc = e.it[a] + e.it[a]*e.hc[b]
			case "ldiff":
				s, d = A.Difference(B), da&^db
				for _, m := range pa {
					if !in(pb, m) {
						p = append(p, m)
					}
				}
				itc = e.it[a] + e.it[a]*e.hc[b]
			case "lsym":
				s, d = A.SymmetricDifference(B), da^db
				for _, m := range pa {
					if !in(pb, m) {
						p = append(p, m)
					}
				}
				for _, m := range pb {
					if !in(pa, m) {
						p = append(p, m)
					}
				}
				itc = e.it[a]*(1+e.hc[b]) + e.it[b]*(1+e.hc[a])
				hc *= 2
			}
			e.put(o, s, k, d, p, itc, hc)
		})
	case "lwhere":
		e.do("lwhere", func(ev tr.M) {
			ev["o"], ev["a"], ev["how"], ev["q"], ev["x"] = o, a, op.How, op.Q, op.X
			var s lazy.Set
			var d, keep uint64
			p := []uint64{}
			for _, id := range op.Q {
				keep |= 1 << uint(id)
			}
			holds := func(m uint64) bool {
				if op.How == "has" {
					return m>>uint(op.X)&1 == 1
				}
				return bits.OnesCount64(m)%2 == 0
			}
			if ka == "set" {
				d = e.den[a] & keep
				dom := e.den[a]
				ev["d"] = ids(dom)
				s = A.Where(func(v any) bool {
					id := e.dec(v)
					if id < 0 || dom>>uint(id)&1 == 0 {
						panic("predicate applied to something that is not in the set")
					}
					return keep>>uint(id)&1 == 1
				})
			} else {
				dom := e.pden[a]
				for _, m := range e.pden[a] {
					if holds(m) {
						p = append(p, m)
					}
				}
				ev["d"] = lists(dom)
				s = A.Where(func(v any) bool {
					m := e.mask(v)
					if _, is := v.(lazy.Set); !is || !in(dom, m) {
						panic("predicate applied to something that is not in the set")
					}
					return holds(m)
				})
			}
			e.put(o, s, ka, d, p, e.it[a]*2, e.hc[a]+1)
		})
	case "lmap":
		e.do("lmap", func(ev tr.M) {
			ev["o"], ev["a"], ev["how"], ev["q"], ev["x"] = o, a, op.How, op.Q, op.X
			var s lazy.Set
			var d uint64
			p := []uint64{}
			k := "set"
			switch op.How {
			case "ids":
				for x := e.den[a]; x != 0; x &= x - 1 {
					d |= 1 << uint(op.Q[bits.TrailingZeros64(x)])
				}
				dom := e.den[a]
				s = A.Map(func(v any) any {
					id := e.dec(v)
					if id < 0 || dom>>uint(id)&1 == 0 {
						panic("mapping applied to something that is not in the set")
					}
					return e.mk(op.Q[id])
				})
			case "single":
				k = "pow"
				for x := e.den[a]; x != 0; x &= x - 1 {
					p = append(p, x&-x)
				}
				s = A.Map(func(v any) any { return lazy.Frozen(frozen.NewSet(v)) })
			case "card":
				for _, m := range e.pden[a] {
					d |= 1 << uint(bits.OnesCount64(m))
				}
				s = A.Map(func(v any) any { return e.mk(v.(lazy.Set).Count()) })
			case "add":
				k = "pow"
				for _, m := range e.pden[a] {
					p = append(p, m|bit())
				}
				p = uniq(p)
				x := e.mk(op.X)
				s = A.Map(func(v any) any { return v.(lazy.Set).With(x) })
			}
			e.put(o, s, k, d, p, e.it[a]*2, e.it[a]*2)
		})
	case "lpow":
		e.do("lpow", func(ev tr.M) {
			ev["o"], ev["a"] = o, a
			empty := ca == 0
			defer func() { e.tnt[o] = empty }()
			if ca <= 6 {
				ms := ids(e.den[a])
				p := []uint64{}
				for z := 0; z < 1<<len(ms); z++ {
					var m uint64
					for j, id := range ms {
						if z>>j&1 == 1 {
							m |= 1 << uint(id)
						}
					}
					p = append(p, m)
				}
				c := float64(len(p))
				e.put(o, A.Powerset(), "pow", 0, p, c*4+e.it[a], e.hc[a]*6+6)
			} else {
				e.put(o, A.Powerset(), "bigpow", e.den[a], nil, 1e6, e.hc[a]*6+6)
			}
		})
	case "lsame":
		e.do("lsame", func(ev tr.M) {
			ev["o"], ev["a"] = o, a
			s := A
			if op.How == "freeze" {
				s = A.Freeze()
			}
			t := e.tnt[a] && op.How != "freeze"
			e.put(o, s, ka, e.den[a], e.pden[a], e.it[a], e.hc[a])
			e.tnt[o] = t
			if op.How == "freeze" {
				e.it[o], e.hc[o] = ca+1, 1
			}
		})
	case "lempty":
		e.do(op.Op, func(ev tr.M) { ev["a"], ev["r"] = a, A.IsEmpty() })
	case "lfempty":
		e.do(op.Op, func(ev tr.M) { ev["a"] = a; ev["r"], ev["ok"] = A.FastIsEmpty() })
	case "lcount":
		e.do(op.Op, func(ev tr.M) { ev["a"], ev["n"] = a, A.Count() })
	case "lfcount":
		e.do(op.Op, func(ev tr.M) {
			ev["a"] = a
			n, ok := A.FastCount()
			if n >= 1<<30 {
				n = -1
			}
			ev["n"], ev["ok"] = n, ok
		})
	case "lupto":
		e.do(op.Op, func(ev tr.M) { ev["a"], ev["y"], ev["n"] = a, op.Y, A.CountUpTo(op.Y) })
	case "lfupto":
		e.do(op.Op, func(ev tr.M) {
			ev["a"], ev["y"] = a, op.Y
			ev["n"], ev["ok"] = A.FastCountUpTo(op.Y)
		})
	case "lhas":
		e.do(op.Op, func(ev tr.M) {
			v, rec := arg()
			ev["a"], ev["x"], ev["r"] = a, rec, A.Has(v)
		})
	case "lfhas":
		e.do(op.Op, func(ev tr.M) {
			v, rec := arg()
			ev["a"], ev["x"] = a, rec
			ev["r"], ev["ok"] = A.FastHas(v)
		})
	case "lalien":
		e.do(op.Op, func(ev tr.M) {
			ev["a"] = a
			r := A.Has(struct{}{}) || A.Has(int8(3)) || A.Has("no such")
			if h, ok := A.FastHas(uint16(1)); ok && h {
				r = true
			}
			if ka != "set" {
				r = r || A.Has(1) || A.Has(e.mk(0))
			}
			ev["r"] = r
		})
	case "lequal":
		e.do(op.Op, func(ev tr.M) {
			ev["a"], ev["b"] = a, b
			ev["r"] = []bool{A.EqualSet(B), B.EqualSet(A), A.Equal(B), B.Equal(A)}
			ev["z"] = A.Equal(1) || A.Equal("x")
		})
	case "lsubset":
		e.do(op.Op, func(ev tr.M) { ev["a"], ev["b"], ev["r"] = a, b, A.IsSubsetOf(B) })
	case "lhashes":
		e.do(op.Op, func(ev tr.M) {
			hs := [][]any{}
			for i := range e.reg {
				if e.k[i] == "set" || e.k[i] == "pow" {
					hs = append(hs, []any{i, strconv.FormatUint(uint64(e.reg[i].Hash(uintptr(op.Y))), 16)})
				}
			}
			ev["hs"] = hs
		})
	case "lelems":
		e.do(op.Op, func(ev tr.M) {
			q := []any{}
			for i := A.Range(); i.Next() && len(q) < 10000; {
				q = append(q, e.el(ka, i.Value()))
			}
			ev["a"], ev["q"] = a, q
		})
	case "lrange":
		e.do(op.Op, func(ev tr.M) {
			e.itr[op.I], e.itk[op.I], e.ito[op.I], e.ion[op.I] = A.Range(), ka, 0, false
			ev["i"], ev["a"] = op.I, a
		})
	case "lval":
		if e.itr[op.I] == nil || !e.ion[op.I] {
			return
		}
		e.do(op.Op, func(ev tr.M) {
			ev["i"], ev["x"] = op.I, e.el(e.itk[op.I], e.itr[op.I].Value())
		})
	case "lnext":
		if e.itr[op.I] == nil {
			return
		}
		e.do(op.Op, func(ev tr.M) {
			i := op.I
			ok := e.itr[i].Next()
			e.ion[i] = ok
			ev["i"], ev["ok"], ev["x"] = i, ok, 0
			if e.itk[i] != "set" {
				ev["x"] = []int{}
			}
			if ok {
				ev["x"] = e.el(e.itk[i], e.itr[i].Value())
			}
		})
	default:
		panic("harness: unknown call " + op.Op)
	}
}

var weights = []struct {
	op string
	w  int
}{
	{"lnew", 5}, {"lwith", 5}, {"lwithout", 5}, {"lunion", 9}, {"linter", 7}, {"ldiff", 7}, {"lsym", 4}, {"lwhere", 7}, {"lmap", 6}, {"lpow", 4}, {"lsame", 3},
	{"lempty", 3}, {"lfempty", 4}, {"lcount", 4}, {"lfcount", 4}, {"lupto", 4}, {"lfupto", 4}, {"lhas", 7}, {"lfhas", 7}, {"lalien", 1}, {"lequal", 6},
	{"lsubset", 6}, {"lhashes", 2}, {"lelems", 4}, {"lrange", 6}, {"lnext", 16}, {"lval", 5},
}

func (e *env) gen(iterHeavy bool) (Op, bool) {
	r := e.r
	total := 0
	for _, w := range weights {
		total += w.w
	}
	k := r.N(total)
	op := Op{O: r.N(nr), X: r.N(e.n), I: r.N(ni), Y: r.N(e.n + 3)}
	for _, w := range weights {
		if k -= w.w; k < 0 {
			op.Op = w.op
			break
		}
	}
	if iterHeavy && r.P(1, 2) {
		op.Op = []string{"lnext", "lnext", "lnext", "lnext", "lval", "lrange"}[r.N(6)]
	}
	// an element for registers of sets: often one that is there
	ab := func(a int) {
		op.A = a
		if a < 0 {
			return
		}
		op.M = r.U64() & (1<<uint(e.n) - 1) & r.U64()
		switch e.k[a] {
		case "pow":
			if p := e.pden[a]; len(p) > 0 && r.P(1, 2) {
				op.M = p[r.N(len(p))]
			}
		case "bigpow":
			if r.P(1, 2) {
				op.M &= e.den[a]
			}
		case "set":
			if q := ids(e.den[a]); len(q) > 0 && r.P(1, 2) {
				op.X = q[r.N(len(q))]
			}
		}
	}
	cheap := func(a int) bool { return e.it[a] < tooDear && e.hc[a] < tooDear }
	switch op.Op {
	case "lnew":
		op.Q = r.Subset(e.n)
		if r.P(1, 3) {
			op.Q = op.Q[:r.N(len(op.Q)+1)]
		}
		if r.P(1, 2) {
			op.How = "empty"
		}
	case "lwith", "lwithout":
		ab(e.pick(sound(e)))
	case "lunion", "linter", "ldiff", "lsym":
		ab(e.pick(sound(e)))
		if op.A < 0 {
			return op, false
		}
		op.B = e.pick(func(b int) bool {
			return sound(e)(b) && (e.k[b] == e.k[op.A] || e.isEmpty(op.A) || e.isEmpty(b))
		})
		ia, ib, ha, hb := e.it[op.A], e.it[op.B], e.hc[op.A], e.hc[op.B]
		if (ia+ib)+ia*hb+ib*ha > tooDear {
			// too expensive unless one operand is frozen first
			e.exec(Op{Op: "lsame", O: op.A, A: op.A, How: "freeze"})
			e.exec(Op{Op: "lsame", O: op.B, A: op.B, How: "freeze"})
		}
	case "lwhere":
		ab(e.pick(func(a int) bool { return sound(e)(a) && cheap(a) }))
		if op.A < 0 {
			return op, false
		}
		op.How = "ids"
		if e.k[op.A] == "pow" {
			op.How = []string{"has", "even"}[r.N(2)]
		} else {
			op.Q = r.Subset(e.n)
		}
	case "lmap":
		ab(e.pick(func(a int) bool { return sound(e)(a) && cheap(a) }))
		if op.A < 0 {
			return op, false
		}
		if e.k[op.A] == "pow" {
			op.How = []string{"card", "add"}[r.N(2)]
		} else if r.P(1, 4) && e.card(op.A) < 9 {
			op.How = "single"
		} else {
			op.How = "ids"
			m := 1 + r.N(e.n)
			op.Q = make([]int, max(e.n, bits.Len64(e.den[op.A])))
			for i := range op.Q {
				op.Q[i] = r.N(m)
			}
		}
	case "lpow":
		op.A = e.pick(func(a int) bool { return e.k[a] == "set" && (e.den[a] != 0 || r.P(1, 4)) && cheap(a) })
	case "lsame":
		op.How = []string{"freeze", "copy"}[r.N(2)]
		op.A = e.pick(func(a int) bool { return op.How == "copy" || e.k[a] != "bigpow" })
	case "lempty", "lfempty", "lfcount", "lupto", "lfupto":
		op.A = e.pick(func(a int) bool { return op.Op != "lfempty" || !e.tnt[a] })
		if op.A >= 0 && (op.Op == "lupto" || op.Op == "lfupto") {
			switch c := int(e.card(op.A)); {
			case r.P(1, 2):
				op.Y = c + r.N(3) - 1
				if op.Y < 0 {
					op.Y = 0
				}
			case e.k[op.A] == "bigpow":
				op.Y = r.Pick(0, 1, 2, 100, 129)
			}
		}
	case "lcount", "lelems":
		op.A = e.pick(tract(e))
	case "lhas", "lfhas", "lalien":
		ab(e.pick(func(a int) bool { return e.hc[a] < 10*tooDear }))
	case "lequal", "lsubset":
		op.A = e.pick(tract(e))
		if op.A >= 0 {
			op.B = e.pick(tract(e))
			if r.P(1, 2) {
				op.B = e.pick(func(b int) bool { return e.k[b] == e.k[op.A] && e.card(b) == e.card(op.A) })
			}
		}
	case "lhashes":
		op.Y = r.Pick(0, 1, 77)
	case "lrange":
		op.A = e.pick(func(a int) bool { return true })
	case "lnext":
		// more than the end: two extra steps at most for intractable ones
		if e.itk[op.I] == "bigpow" {
			if e.ito[op.I]++; e.ito[op.I] > 40 {
				return op, false
			}
		}
	}
	return op, op.A >= 0 && op.B >= 0
}

func newEnv(t *tr.Tracer, r *tr.Rng, n, kind int) *env {
	e := &env{t: t, r: r, n: n, kind: kind, reg: make([]lazy.Set, nr), k: make([]string, nr), den: make([]uint64, nr), pden: make([][]uint64, nr),
		it: make([]float64, nr), hc: make([]float64, nr), tnt: make([]bool, nr), itr: make([]lazy.SetIterator, ni), itk: make([]string, ni), ito: make([]int, ni), ion: make([]bool, ni)}
	for i := range e.k {
		e.k[i] = "none"
	}
	return e
}

func guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func main() {
	mode := flag.String("mode", "random", "random, conc, exprs or memo")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "trace file")
	in := flag.String("in", "", "generated expressions: one JSON list of calls per line")
	eps := flag.Int("eps", 20, "episodes")
	steps := flag.Int("steps", 80, "calls per episode")
	in2 := flag.String("in2", "", "histories of iterators (memo)")
	part := flag.Int("part", 0, "which part of the input")
	parts := flag.Int("parts", 1, "in how many parts the input is done")
	sample := flag.Int("sample", 1, "one expression in so many (exprs), expressions per history (memo)")
	after := flag.Int("after", 6, "observers after the first (exprs)")
	iters := flag.Bool("iters", false, "mostly iterator steps")
	sync := flag.Bool("sync", false, "flush after every event")
	hang := flag.Duration("hang", 60*time.Second, "report a call that takes longer")
	flag.Parse()
	r := tr.NewRng(*seed)
	tr.SeedHash(*seed)
	t := tr.NewTracer(*out, *sync, *hang)
	t.Ev(tr.M{"op": "head", "nr": nr, "ni": ni})
	switch *mode {
	case "random":
		for i := 0; i < *eps; i++ {
			n := r.Pick(2, 4, 6, 12)
			steps := *steps
			if r.P(1, 5) {
				n = r.Pick(40, 62)
			}
			e := newEnv(t, r, n, r.N(5))
			t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("n=%d kind=%d", n, e.kind)})
			guard(func() {
				e.exec(Op{Op: "lnew", O: 0, Q: r.Subset(n)})
				e.exec(Op{Op: "lnew", O: 1, Q: r.Subset(n)})
				for s := 0; s < steps; s++ {
					if op, ok := e.gen(*iters); ok {
						e.exec(op)
					}
				}
				for a := range e.reg {
					if e.k[a] == "set" || e.k[a] == "pow" {
						e.exec(Op{Op: "lelems", A: a})
						e.exec(Op{Op: "lcount", A: a})
					}
				}
				e.exec(Op{Op: "lhashes"})
			})
		}
	case "conc":
		for i := 0; i < *eps; i++ {
			n := r.Pick(2, 4, 6, 12)
			b := tr.NewBuf()
			e := newEnv(b, r, n, r.N(5))
			guard(func() {
				e.exec(Op{Op: "lnew", O: 0, Q: r.Subset(n)})
				e.exec(Op{Op: "lnew", O: 1, Q: r.Subset(n)})
				for s := 0; s < 20; s++ {
					// build only: what the goroutines share has not been looked at
					if op, ok := e.gen(false); ok && op.builds() {
						e.exec(op)
					}
				}
			})
			s0 := r.U64()
			reset := tr.M{"op": "reset", "what": fmt.Sprintf("conc n=%d kind=%d", n, e.kind)}
			t.Fork(2+int(*seed%5), reset, b.Bytes(), func(g int, t *tr.Tracer) {
				c := newEnv(t, tr.NewRng(s0+uint64(g)), n, e.kind)
				copy(c.reg, e.reg)
				copy(c.k, e.k)
				copy(c.den, e.den)
				copy(c.pden, e.pden)
				copy(c.it, e.it)
				copy(c.hc, e.hc)
				copy(c.tnt, e.tnt)
				guard(func() {
					for s := 0; s < *steps; s++ {
						if op, ok := c.gen(*iters); ok && (!op.builds() || c.r.P(1, 4)) {
							c.exec(op)
						}
					}
				})
			})
		}
	case "exprs":
		runExprs(t, r, *in, *part, *parts, *sample, *after)
	case "memo":
		runMemo(t, r, *in, *in2, *part, *parts, *sample)
	case "probe":
		// the known finding: FastIsEmpty of the powerset of an empty frozen set
		p := lazy.Frozen(frozen.Set[any]{}).Powerset()
		empty, ok := p.FastIsEmpty()
		fmt.Println("powerset-empty", empty, ok)
	}
	t.Close()
}
