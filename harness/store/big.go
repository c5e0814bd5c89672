package main

import (
	"frozenverif/tr"

	"fmt"
	"runtime"
	"sort"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/hash"
)

// Large collections. One id stands for a block of elements ("wt" in the header
// of the trace says how many), so that the specification can follow sets of
// hundreds of thousands of elements. A register holds a block wholly or not at
// all; a real value that holds part of a block shows id -1, which no step of
// the specification explains.

// Bw hashes poorly: g elements share each hash.
type Bw struct{ v, g int }

func (b Bw) Equal(c Bw) bool { return b.v == c.v }
func (b Bw) Hash(seed uintptr) uintptr {
	return hash.Uintptr(uintptr(b.v/b.g), seed)
}

// bigUni is a universe of elements 0..n-1 that fall into blocks.
type bigUni struct {
	n   int
	blk []uint8
	mem [][]int // elements of a block
	pos []int   // position of an element in its block
}

func newBigUni(r *tr.Rng, wt []int) *bigUni {
	u := &bigUni{mem: make([][]int, len(wt))}
	for _, w := range wt {
		u.n += w
	}
	u.blk = make([]uint8, u.n)
	u.pos = make([]int, u.n)
	p := make([]int, u.n)
	for i := range p {
		p[i] = i
	}
	switch r.N(3) {
	case 0: // any element in any block
		p = r.Perm(u.n)
	case 1: // neighbours in different blocks
		s := 7
		for u.n%s == 0 {
			s += 2
		}
		for gcd(s, u.n) != 1 {
			s += 2
		}
		for i := range p {
			p[i] = i * s % u.n
		}
	}
	k := 0
	for b, w := range wt {
		for j := 0; j < w; j++ {
			e := p[k]
			k++
			u.blk[e] = uint8(b)
			u.pos[e] = j
			u.mem[b] = append(u.mem[b], e)
		}
	}
	return u
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

type bigEnv[T any] struct {
	t   *tr.Tracer
	r   *tr.Rng
	wt  []int
	u   *bigUni
	mk  func(int) T
	dec func(T) int
	reg []reg[T, int]
	bld []builder[T, int]
	cb  callbacks
	nv  int
}

func (e *bigEnv[T]) elems(bs ...int) []T {
	var out []T
	for _, b := range bs {
		for _, x := range e.u.mem[b] {
			out = append(out, e.mk(x))
		}
	}
	return out
}

func (e *bigEnv[T]) block(x T) int {
	if i := e.dec(x); i >= 0 && i < e.u.n {
		return int(e.u.blk[i])
	}
	return bad
}

// tally turns a stream of elements into the blocks it covers exactly once.
type tally[T any] struct {
	e     *bigEnv[T]
	seen  []bool
	cnt   []int
	wrong bool
}

func (e *bigEnv[T]) tally() *tally[T] {
	return &tally[T]{e: e, seen: make([]bool, e.u.n), cnt: make([]int, len(e.wt))}
}

func (y *tally[T]) add(x T) int {
	i := y.e.dec(x)
	if i < 0 || i >= y.e.u.n || y.seen[i] {
		y.wrong = true
		return bad
	}
	y.seen[i] = true
	b := int(y.e.u.blk[i])
	y.cnt[b]++
	return b
}

func (y *tally[T]) blocks() []int {
	out := []int{}
	for b, c := range y.cnt {
		if c == y.e.wt[b] {
			out = append(out, b)
		} else if c != 0 {
			y.wrong = true
		}
	}
	if y.wrong {
		out = append(out, bad)
	}
	return out
}

// counts lists <<block, elements>> for a stream that need not cover blocks wholly.
func (y *tally[T]) counts() [][2]int {
	out := [][2]int{}
	for b, c := range y.cnt {
		if c != 0 {
			out = append(out, [2]int{b, c})
		}
	}
	if y.wrong {
		out = append(out, [2]int{bad, 1})
	}
	return out
}

func (e *bigEnv[T]) listing(xs []T) []int {
	y := e.tally()
	for _, x := range xs {
		y.add(x)
	}
	return y.blocks()
}

func (e *bigEnv[T]) obs(o int) (c int, em bool, it any) {
	switch r := &e.reg[o]; r.k {
	case "set":
		y := e.tally()
		for i := r.s.Range(); i.Next(); {
			if y.add(i.Value()); y.wrong {
				break
			}
		}
		return r.s.Count(), r.s.IsEmpty(), y.blocks()
	case "map":
		y := e.tally()
		val := make([]int, len(e.wt))
		for i := r.m.Range(); i.Next(); {
			k, v := i.Entry()
			b := y.add(k)
			if y.wrong {
				break
			}
			if y.cnt[b] > 1 && val[b] != v {
				y.wrong = true
				break
			}
			val[b] = v
		}
		out := [][2]int{}
		for _, b := range y.blocks() {
			if b == bad {
				out = append(out, [2]int{bad, bad})
			} else {
				out = append(out, [2]int{b, val[b]})
			}
		}
		return r.m.Count(), r.m.IsEmpty(), out
	}
	return 0, true, []int{}
}

func (e *bigEnv[T]) in() { e.cb.enter() }

func (e *bigEnv[T]) do(name string, f func() tr.M) {
	e.t.Begin(name)
	atomic.StoreInt32(&e.cb.open, 1)
	var ev tr.M
	pan, msg := tr.Try(func() { ev = f() })
	atomic.StoreInt32(&e.cb.open, 0)
	if pan {
		e.t.Ev(tr.M{"op": "panic", "in": name, "msg": msg})
		panic(stopEpisode{})
	}
	if ev == nil {
		e.t.Begin("")
		return
	}
	ev["op"] = name
	if late := atomic.LoadInt64(&e.cb.active); late != 0 {
		e.t.Ev(tr.M{"op": "late", "in": name, "active": late})
		time.Sleep(50 * time.Millisecond)
		panic(stopEpisode{})
	}
	e.t.Ev(ev)
	if stray := atomic.SwapInt64(&e.cb.stray, 0); stray != 0 {
		e.t.Ev(tr.M{"op": "stray", "in": name, "calls": stray})
		panic(stopEpisode{})
	}
}

// seen: a call that ran callbacks has returned. They must all be over by now, so
// this is looked at before anything else is done with the result.
func (e *bigEnv[T]) seen(ev tr.M, o int) tr.M {
	late := atomic.LoadInt64(&e.cb.active)
	c, em, it := e.obs(o)
	ev["o"], ev["c"], ev["e"], ev["it"] = o, c, em, it
	if late != 0 {
		ev["it"] = [][2]int{{bad, int(late)}}
	}
	return ev
}

func (e *bigEnv[T]) pick(k string) int {
	var c []int
	for i := range e.reg {
		if e.reg[i].k == k {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[e.r.N(len(c))]
}

// someBlocks chooses some blocks, most of the time most of them.
func (e *bigEnv[T]) someBlocks() []int {
	if e.r.P(1, 4) {
		return e.r.Subset(len(e.wt))
	}
	p := e.r.Perm(len(e.wt))
	return p[:len(p)-e.r.N(len(p)/2)]
}

func (e *bigEnv[T]) single() int {
	var c []int
	for b, w := range e.wt {
		if w == 1 {
			c = append(c, b)
		}
	}
	return c[e.r.N(len(c))]
}

func (e *bigEnv[T]) shuffled(bs []int) []T {
	xs := e.elems(bs...)
	p := e.r.Perm(len(xs))
	out := make([]T, len(xs))
	for i, j := range p {
		out[i] = xs[j]
	}
	return out
}

func (e *bigEnv[T]) rank() []int {
	n := len(e.wt)
	f := make([]int, n)
	m := e.r.Pick(1, 2, 3, n)
	for i := range f {
		f[i] = e.r.N(m)
	}
	return f
}

// less orders by the rank of the block, and within a rank by block and element
// unless ties are asked for.
func (e *bigEnv[T]) less(f []int) func(a, b T) bool {
	return func(a, b T) bool {
		e.in()
		defer e.cb.leave()
		return at(f, e.block(a)) < at(f, e.block(b))
	}
}

func (e *bigEnv[T]) step(op string) {
	r := e.r
	o := r.N(len(e.reg))
	a, b := e.pick("set"), e.pick("set")
	m, n := e.pick("map"), e.pick("map")
	if a < 0 && op != "newmap" {
		op = "new"
	}
	if m < 0 && (op[0] == 'm') {
		op = "newmap"
	}
	var A, B *reg[T, int]
	if a >= 0 {
		A, B = &e.reg[a], &e.reg[b]
	}
	ev := tr.M{}
	wr := func(s frozen.Set[T]) tr.M {
		e.reg[o] = reg[T, int]{k: "set", s: s}
		return e.seen(ev, o)
	}
	wrm := func(s frozen.Map[T, int]) tr.M {
		e.reg[o] = reg[T, int]{k: "map", m: s}
		return e.seen(ev, o)
	}
	e.do(op, func() tr.M {
		switch op {
		case "new":
			bs := e.someBlocks()
			ev["q"] = bs
			xs := e.shuffled(bs)
			if r.P(1, 2) && len(xs) > 0 {
				xs = append(xs, xs[:len(xs)/3]...)
			}
			s := frozen.NewSet(xs...)
			for i := range xs {
				xs[i] = e.mk(0)
			}
			return wr(s)
		case "with", "without":
			x := e.single()
			ev["a"], ev["x"] = a, x
			v := e.mk(e.u.mem[x][0])
			if op == "with" {
				return wr(A.s.With(v))
			}
			return wr(A.s.Without(v))
		case "where":
			bs := e.someBlocks()
			keep := contains(bs)
			ev["a"], ev["q"] = a, bs
			slow := e.slow()
			return wr(A.s.Where(func(v T) bool {
				e.in()
				defer e.cb.leave()
				slow(e.dec(v))
				return keep[e.block(v)]
			}))
		case "smap":
			f := make([]int, len(e.wt))
			for x := range f {
				f[x] = x
				for t := 0; t < 5; t++ {
					if y := r.N(len(f)); e.wt[y] <= e.wt[x] {
						f[x] = y
						break
					}
				}
			}
			ev["a"], ev["f"] = a, f
			return wr(frozen.SetMap(A.s, func(v T) T {
				e.in()
				defer e.cb.leave()
				i := e.dec(v)
				y := f[e.u.blk[i]]
				return e.mk(e.u.mem[y][e.u.pos[i]%e.wt[y]])
			}))
		case "union":
			ev["a"], ev["b"] = a, b
			return wr(A.s.Union(B.s))
		case "inter":
			ev["a"], ev["b"] = a, b
			return wr(A.s.Intersection(B.s))
		case "diff":
			ev["a"], ev["b"] = a, b
			return wr(A.s.Difference(B.s))
		case "symdiff":
			ev["a"], ev["b"] = a, b
			return wr(A.s.SymmetricDifference(B.s))
		case "nunion", "ninter":
			as := []int{a, b, e.pick("set")}
			ss := []frozen.Set[T]{}
			for _, i := range as {
				ss = append(ss, e.reg[i].s)
			}
			ev["as"], ev["p"] = as, false
			if op == "nunion" {
				return wr(frozen.Union(ss...))
			}
			return wr(frozen.Intersection(ss...))
		case "rebuild":
			ev["a"] = a
			_, _, it := e.obs(a)
			if q := it.([]int); len(q) > 0 && q[len(q)-1] == bad {
				return nil
			}
			return wr(e.rebuild(it.([]int)))
		case "viaany":
			ev["a"] = a
			return wr(frozen.SetAs[T](A.s.AsSetAny()))
		case "equal":
			if r.P(1, 3) && m >= 0 {
				M, N := &e.reg[m].m, &e.reg[n].m
				ev["a"], ev["b"], ev["z"] = m, n, false
				ev["r"] = []bool{M.Equal(*N), N.Equal(*M)}
				return ev
			}
			ev["a"], ev["b"], ev["z"] = a, b, false
			ev["r"] = []bool{A.s.Equal(B.s), B.s.Equal(A.s)}
			return ev
		case "subset":
			ev["a"], ev["b"] = a, b
			ev["r"] = A.s.IsSubsetOf(B.s)
			return ev
		case "hasall":
			ev["a"], ev["n"] = a, len(e.wt)
			y := e.tally()
			for i := 0; i < e.u.n; i++ {
				if x := e.mk(i); A.s.Has(x) {
					y.add(x)
				}
			}
			ev["hs"] = y.blocks()
			return ev
		case "view":
			ev["a"], ev["how"] = a, "elements"
			xs := A.s.Elements()
			ev["q"] = e.listing(xs)
			for i := range xs {
				xs[i] = e.mk(0)
			}
			return ev
		case "iters": // three iterators in turn
			type it struct {
				a  int
				it frozen.Iterator[T]
				y  *tally[T]
				ok bool
			}
			its := []*it{}
			for k := 0; k < 3; k++ {
				x := e.pick("set")
				its = append(its, &it{x, e.reg[x].s.Range(), e.tally(), true})
			}
			for left := len(its); left > 0; {
				i := its[r.N(len(its))]
				for n := r.N(1 + e.u.n/7); n >= 0 && i.ok; n-- {
					if i.ok = i.it.Next(); i.ok {
						i.y.add(i.it.Value())
						i.ok = !i.y.wrong
					}
					if !i.ok {
						left--
					}
				}
			}
			vs := [][]any{}
			for _, i := range its {
				if i.it.Next() { // it keeps saying that it is exhausted
					i.y.wrong = true
				}
				vs = append(vs, []any{i.a, i.y.blocks()})
			}
			ev["vs"] = vs
			return ev
		case "any":
			ev["a"], ev["r"] = a, -1
			p, _ := tr.Try(func() { ev["r"] = e.block(A.s.Any()) })
			ev["p"] = p
			return ev
		case "anynw":
			k := r.N(A.s.Count() + 3)
			s := A.s.AnyN(k)
			y := e.tally()
			for i := s.Range(); i.Next(); {
				y.add(i.Value())
			}
			ev["a"], ev["n"], ev["c"], ev["q"] = a, k, s.Count(), y.counts()
			return ev
		case "ordw": // the k smallest, as a list, as a set, or by iterating
			f := e.rank()
			k := r.N(A.s.Count() + 3)
			if r.P(1, 3) {
				k = A.s.Count() + r.N(2)
			}
			ev["a"], ev["f"], ev["n"] = a, f, k
			var xs []T
			how := r.N(3)
			if how == 2 || e.u.n > 50000 && k > 2000 && how == 0 {
				how = 2
				k = A.s.Count()
				ev["n"] = k
				xs = A.s.OrderedElements(e.less(f))
			} else if how == 1 {
				xs = A.s.FirstN(k, e.less(f)).OrderedElements(e.less(f))
			} else {
				xs = A.s.OrderedFirstN(k, e.less(f))
			}
			// by rank: the sequence of ranks and how many of each block are in
			y := e.tally()
			rk := [][2]int{}
			for _, x := range xs {
				y.add(x)
				v := at(f, e.block(x))
				if n := len(rk); n > 0 && rk[n-1][0] == v {
					rk[n-1][1]++
				} else if n < 100 {
					rk = append(rk, [2]int{v, 1})
				}
			}
			ev["c"], ev["q"], ev["rk"] = len(xs), y.counts(), rk
			return ev
		case "rtab":
			mod := e.u.n
			red := func(xs ...T) T {
				e.in()
				defer e.cb.leave()
				t := 0
				for _, x := range xs {
					t += e.dec(x)
				}
				for i := range xs {
					xs[i] = e.mk(0)
				}
				return e.mk(t % mod)
			}
			f := make([]int, len(e.wt))
			for b := range f {
				for _, x := range e.u.mem[b] {
					f[b] = (f[b] + x) % mod
				}
			}
			v, ok := A.s.Reduce(red)
			late := atomic.LoadInt64(&e.cb.active)
			ev["a"], ev["f"], ev["n"], ev["ok"], ev["r"] = a, f, mod, ok, 0
			if ok {
				ev["r"] = e.dec(v)
			}
			if late != 0 {
				ev["r"] = -1
			}
			return ev
		case "groupby":
			f := make([]int, len(e.wt))
			for i := range f {
				f[i] = r.N(r.Pick(1, 2, 5, len(f)))
			}
			g := frozen.SetGroupBy(A.s, func(v T) int {
				e.in()
				defer e.cb.leave()
				return at(f, e.block(v))
			})
			rows := [][]any{}
			pick, k := -1, 0
			var ps frozen.Set[T]
			for i := g.Range(); i.Next(); {
				y := e.tally()
				for j := i.Value().Range(); j.Next(); {
					y.add(j.Value())
				}
				rows = append(rows, []any{i.Key(), i.Value().Count(), y.blocks()})
				k++
				if r.N(k) == 0 {
					pick, ps = i.Key(), i.Value()
				}
			}
			ev["a"], ev["f"], ev["rows"], ev["y"], ev["n"] = a, f, rows, g.Count(), pick
			return wr(ps)
		case "hashes":
			hs := [][]any{}
			for i := range e.reg {
				switch x := &e.reg[i]; x.k {
				case "set":
					hs = append(hs, []any{i, strconv.FormatUint(uint64(x.s.Hash(5)), 16)})
				case "map":
					hs = append(hs, []any{i, strconv.FormatUint(uint64(x.m.Hash(5)), 16)})
				}
			}
			ev["hs"] = hs
			return ev
		case "obs":
			os := [][]any{}
			for i := range e.reg {
				if e.reg[i].k != "none" {
					c, em, it := e.obs(i)
					os = append(os, []any{i, c, em, it})
				}
			}
			ev["os"] = os
			return ev
		// ---------------------------------------------------------- maps
		case "newmap":
			bs := e.someBlocks()
			kv := [][2]int{}
			var mb frozen.MapBuilder[T, int]
			for _, x := range bs {
				v := r.N(e.nv)
				kv = append(kv, [2]int{x, v})
				for _, i := range e.u.mem[x] {
					if i%3 == 0 {
						mb.Put(e.mk(i), e.nv)
					}
				}
			}
			for _, p := range kv {
				for _, i := range e.u.mem[p[0]] {
					mb.Put(e.mk(i), p[1])
				}
			}
			ev["kv"] = kv
			return wrm(mb.Finish())
		case "mwith", "mwithout":
			x := e.single()
			ev["a"], ev["x"] = m, x
			k := e.mk(e.u.mem[x][0])
			if op == "mwith" {
				y := r.N(e.nv)
				ev["y"] = y
				return wrm(e.reg[m].m.With(k, y))
			}
			return wrm(e.reg[m].m.Without(k))
		case "mupdate":
			ev["a"], ev["b"] = m, n
			return wrm(e.reg[m].m.Update(e.reg[n].m))
		case "mmerge":
			c := []int{r.N(5), r.N(5), r.N(5), r.N(5), e.nv}
			ev["a"], ev["b"], ev["cf"] = m, n, c
			slow := e.slow()
			return wrm(e.reg[m].m.Merge(e.reg[n].m, func(k T, a, b int) int {
				e.in()
				defer e.cb.leave()
				slow(e.dec(k))
				return lin3(c, e.block(k), a, b)
			}))
		case "mwhere":
			c := []int{r.N(5), r.N(5), 0, r.N(5), 7, r.N(8)}
			ev["a"], ev["cf"] = m, c
			return wrm(e.reg[m].m.Where(func(k T, v int) bool {
				e.in()
				defer e.cb.leave()
				return lin2(c, e.block(k), v) < c[5]
			}))
		case "mmap":
			c := []int{r.N(5), r.N(5), 0, r.N(5), e.nv}
			ev["a"], ev["cf"] = m, c
			return wrm(frozen.MapMap(e.reg[m].m, func(k T, v int) int {
				e.in()
				defer e.cb.leave()
				return lin2(c, e.block(k), v)
			}))
		case "mproject":
			bs := e.someBlocks()
			ev["a"], ev["q"] = m, bs
			return wrm(e.reg[m].m.Project(e.shuffled(bs)...))
		case "mkeys":
			ev["a"] = m
			return wr(e.reg[m].m.Keys())
		case "mvalues":
			vs := e.reg[m].m.Values()
			q := []int{}
			for i := vs.Range(); i.Next(); {
				q = append(q, i.Value())
			}
			ev["a"], ev["q"], ev["c"] = m, q, vs.Count()
			return ev
		case "fromkeys":
			f := make([]int, len(e.wt))
			for i := range f {
				f[i] = r.N(e.nv)
			}
			ev["a"], ev["f"] = a, f
			return wrm(frozen.NewMapFromKeys(A.s, func(k T) int { return at(f, e.block(k)) }))
		case "mgetall":
			y := e.tally()
			M := e.reg[m].m
			val := make([]int, len(e.wt))
			okv := true
			for i := 0; i < e.u.n; i++ {
				if v, has := M.Get(e.mk(i)); has {
					b := y.add(e.mk(i))
					if y.cnt[b] > 1 && val[b] != v {
						okv = false
					}
					val[b] = v
				}
			}
			q := [][2]int{}
			for _, b := range y.blocks() {
				if b == bad || !okv {
					q = append(q, [2]int{bad, bad})
				} else {
					q = append(q, [2]int{b, val[b]})
				}
			}
			ev["a"], ev["q"] = m, q
			return ev
		// ------------------------------------------------------ builders
		case "badd", "brem", "bput":
			i := r.N(len(e.bld))
			d := &e.bld[i]
			x := r.N(len(e.wt))
			ev["i"], ev["x"] = i, x
			xs := e.elems(x)
			for _, j := range r.Perm(len(xs)) {
				switch {
				case op == "badd" && d.k == "set":
					d.s.Add(xs[j])
				case op == "bput" && d.k == "map":
					d.m.Put(xs[j], x%e.nv)
				case op == "brem" && d.k == "set":
					d.s.Remove(xs[j])
				case op == "brem":
					d.m.Remove(xs[j])
				default:
					return nil
				}
			}
			ev["y"] = x % e.nv
			if d.k == "set" {
				ev["n"] = d.s.Count()
			} else {
				ev["n"] = d.m.Count()
			}
			return ev
		case "bhasall":
			i := r.N(len(e.bld))
			d := &e.bld[i]
			y := e.tally()
			for k := 0; k < e.u.n; k++ {
				x := e.mk(k)
				if d.k == "set" && d.s.Has(x) || d.k == "map" && d.m.Has(x) {
					y.add(x)
				}
			}
			ev["i"], ev["hs"], ev["n"] = i, y.blocks(), len(e.wt)
			if d.k == "set" {
				ev["y"] = d.s.Count()
			} else {
				ev["y"] = d.m.Count()
			}
			return ev
		case "bfinish":
			i := r.N(len(e.bld))
			d := &e.bld[i]
			ev["i"] = i
			if d.k == "set" {
				s := d.s.Finish()
				ev["n"] = d.s.Count()
				return wr(s)
			}
			s := d.m.Finish()
			ev["n"] = d.m.Count()
			return wrm(s)
		}
		panic("harness: big: " + op)
	})
}

// slow makes some callbacks linger, so that an operation that does not wait for
// them is caught.
func (e *bigEnv[T]) slow() func(i int) {
	if e.u.n == 0 || !e.r.P(1, 2) {
		return func(int) {}
	}
	at := e.r.N(e.u.n)
	return func(i int) {
		if i == at {
			time.Sleep(3 * time.Millisecond)
		} else if i%64 == 0 {
			runtime.Gosched()
		}
	}
}

func (e *bigEnv[T]) rebuild(bs []int) frozen.Set[T] {
	in := contains(bs)
	switch e.r.N(4) {
	case 0:
		return frozen.NewSet(e.shuffled(bs)...)
	case 1: // build more and remove it again
		var b frozen.SetBuilder[T]
		all := e.r.Perm(len(e.wt))
		for _, x := range all {
			for _, v := range e.elems(x) {
				b.Add(v)
			}
		}
		for _, x := range all {
			if !in[x] {
				for _, v := range e.elems(x) {
					b.Remove(v)
				}
			}
		}
		return b.Finish()
	case 2:
		all := e.r.Perm(len(e.wt))
		var out []int
		for _, x := range all {
			if !in[x] {
				out = append(out, x)
			}
		}
		s := frozen.NewSet(e.shuffled(append(append([]int{}, out...), bs...))...)
		if e.r.P(1, 2) {
			return s.Difference(frozen.NewSet(e.shuffled(out)...))
		}
		for _, v := range e.shuffled(out) {
			s = s.Without(v)
		}
		return s
	default:
		h := len(bs) / 2
		return frozen.NewSet(e.shuffled(bs[:h])...).Union(frozen.NewSet(e.shuffled(bs[h/2:])...))
	}
}

var bigOps = map[string]map[string]int{
	"sets": {"new": 4, "with": 6, "without": 6, "where": 6, "smap": 3, "union": 8, "inter": 8, "diff": 8, "symdiff": 4, "nunion": 2, "ninter": 2,
		"rebuild": 4, "equal": 8, "subset": 8, "hasall": 3, "viaany": 1},
	"maps":     {"newmap": 5, "mwith": 6, "mwithout": 6, "mupdate": 7, "mmerge": 9, "mwhere": 4, "mmap": 3, "mproject": 3, "mkeys": 2, "mvalues": 2, "fromkeys": 2, "mgetall": 5, "equal": 4, "new": 1},
	"builders": {"badd": 20, "bput": 20, "brem": 20, "bhasall": 10, "bfinish": 6, "union": 2, "with": 2, "without": 2, "mupdate": 1, "mwithout": 1, "diff": 1, "where": 1},
	"select":   {"new": 4, "anynw": 10, "ordw": 20, "any": 2, "with": 2, "without": 2, "union": 2, "diff": 1},
	"fold":     {"new": 5, "rtab": 20, "groupby": 12, "fromkeys": 4, "viaany": 4, "smap": 4, "mkeys": 2, "diff": 3, "without": 3},
	"iters":    {"new": 3, "iters": 20, "with": 3, "without": 3, "diff": 3, "union": 3, "inter": 2, "where": 2, "view": 3, "any": 1},
	"equality": {"new": 3, "rebuild": 10, "equal": 16, "hashes": 6, "with": 6, "without": 6, "newmap": 3, "mwith": 3, "mwithout": 3, "union": 2, "diff": 2, "where": 2, "mmap": 2},
	"fan": {"new": 3, "where": 12, "union": 10, "inter": 10, "diff": 4, "symdiff": 3, "equal": 12, "subset": 12, "rtab": 8, "rebuild": 3, "newmap": 4, "mmerge": 10, "mupdate": 6,
		"with": 6, "without": 6, "nunion": 1, "ninter": 1},
	"persist": {"new": 3, "with": 6, "without": 6, "where": 4, "union": 6, "inter": 4, "diff": 4, "rtab": 4, "newmap": 2, "mupdate": 3, "mmerge": 3, "mwith": 3, "mwithout": 3,
		"badd": 6, "bput": 6, "brem": 6, "bfinish": 6, "groupby": 2, "smap": 1, "obs": 10},
}

func bigWeights(r *tr.Rng, size int) []int {
	wt := []int{1, 1, 1, 1, 2 + r.N(3)}
	left := size
	for k := 3 + r.N(6); k > 0; k-- {
		w := left / (k + 1)
		if k == 1 {
			w = left
		}
		w = w/2 + r.N(w+1)
		if w < 1 {
			w = 1
		}
		left -= w
		if left < 0 {
			left = 0
		}
		wt = append(wt, w)
	}
	return wt
}

func sortedKeys(w map[string]int) []string {
	out := []string{}
	for k := range w {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func runBig(t *tr.Tracer, r *tr.Rng, profile string, eps, steps, size int) {
	w := bigOps[profile]
	if w == nil {
		panic("harness: no such profile for big: " + profile)
	}
	names := []string{}
	for _, op := range sortedKeys(w) {
		for k := 0; k < w[op]; k++ {
			names = append(names, op)
		}
	}
	wt := bigWeights(r, size)
	t.Ev(tr.M{"op": "head", "nr": maxRegs, "nb": maxBld, "ni": maxItr, "wt": wt})
	for i := 0; i < eps; i++ {
		u := newBigUni(r, wt)
		switch k := r.N(4); k {
		case 0, 1:
			off := r.N(1000) - 500
			bigEpisode(t, r, wt, u, names, steps, "int", func(i int) int { return i + off }, func(v int) int { return v - off })
		case 2:
			bigEpisode(t, r, wt, u, names, steps, "string", func(i int) string { return "k" + strconv.Itoa(i) }, func(v string) int {
				n, err := strconv.Atoi(v[1:])
				if err != nil {
					return bad
				}
				return n
			})
		default:
			g := r.Pick(1, 2, 3, 3, 4, 9)
			bigEpisode(t, r, wt, u, names, steps, fmt.Sprintf("Bw/%d", g), func(i int) Bw { return Bw{i, g} }, func(v Bw) int { return v.v })
		}
	}
}

func bigEpisode[T any](t *tr.Tracer, r *tr.Rng, wt []int, u *bigUni, names []string, steps int, what string, mk func(int) T, dec func(T) int) {
	e := &bigEnv[T]{t: t, r: r, wt: wt, u: u, mk: mk, dec: dec, nv: 6}
	e.reg = make([]reg[T, int], maxRegs)
	for i := range e.reg {
		e.reg[i].k = "none"
	}
	t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("big %s n=%d", what, u.n)})
	e.bld = make([]builder[T, int], maxBld)
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopEpisode); !ok {
				panic(x)
			}
		}
	}()
	for i := range e.bld {
		k := "set"
		e.bld[i] = builder[T, int]{k: k, s: &frozen.SetBuilder[T]{}}
		if i%2 == 1 {
			k = "map"
			e.bld[i] = builder[T, int]{k: k, m: frozen.NewMapBuilder[T, int](r.N(100))}
		}
		t.Ev(tr.M{"op": "bnew", "i": i, "how": k})
	}
	e.step("new")
	e.step("new")
	for i := 0; i < steps; i++ {
		e.step(names[r.N(len(names))])
	}
	e.step("obs")
}
