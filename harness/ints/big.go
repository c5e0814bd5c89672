package main

import (
	"frozenverif/tr"

	"strconv"

	"github.com/arr-ai/frozen"
)

// Large IntSets: one id stands for a block of integers (see store/big.go).

type bigEnv[I integer] struct {
	t    *tr.Tracer
	r    *tr.Rng
	vals []I
	idx  map[I]int
	blk  []int
	mem  [][]int
	wt   []int
	reg  []frozen.IntSet[I]
	set  []bool
}

func (e *bigEnv[I]) blocks(next func() (I, bool)) []int {
	seen := make([]bool, len(e.vals))
	cnt := make([]int, len(e.wt))
	out := []int{}
	for {
		v, ok := next()
		if !ok {
			break
		}
		i, known := e.idx[v]
		if !known || seen[i] {
			return []int{bad}
		}
		seen[i] = true
		cnt[e.blk[i]]++
	}
	for b, c := range cnt {
		if c == e.wt[b] {
			out = append(out, b)
		} else if c != 0 {
			return []int{bad}
		}
	}
	return out
}

func (e *bigEnv[I]) iter(s frozen.IntSet[I]) []int {
	it := s.Range()
	return e.blocks(func() (v I, ok bool) {
		if ok = it.Next(); ok {
			v = it.Value()
		}
		return
	})
}

func (e *bigEnv[I]) list(xs []I) []int {
	i := 0
	return e.blocks(func() (v I, ok bool) {
		if i < len(xs) {
			v, ok = xs[i], true
			i++
		}
		return
	})
}

func (e *bigEnv[I]) vs(bs []int) []I {
	var ids []int
	for _, b := range bs {
		ids = append(ids, e.mem[b]...)
	}
	out := make([]I, len(ids))
	for i, j := range e.r.Perm(len(ids)) {
		out[i] = e.vals[ids[j]]
	}
	return out
}

func (e *bigEnv[I]) step(op string) {
	r := e.r
	pick := func() int {
		for {
			if a := r.N(nr); e.set[a] {
				return a
			}
		}
	}
	o, a, b := r.N(nr), pick(), pick()
	A, B := e.reg[a], e.reg[b]
	some := func() []int { p := r.Perm(len(e.wt)); return p[:len(p)-r.N(len(p))] }
	ev := tr.M{"op": op, "a": a, "b": b}
	wr := func(s frozen.IntSet[I]) {
		e.reg[o], e.set[o] = s, true
		ev["o"], ev["c"], ev["e"], ev["it"] = o, s.Count(), s.IsEmpty(), e.iter(s)
	}
	keep := func(bs []int) func(v I) bool {
		in := map[int]bool{}
		for _, x := range bs {
			in[x] = true
		}
		return func(v I) bool { i, ok := e.idx[v]; return ok && in[e.blk[i]] }
	}
	e.t.Begin(op)
	pan, msg := tr.Try(func() {
		switch op {
		case "new":
			bs := some()
			ev["q"] = bs
			xs := e.vs(bs)
			wr(frozen.NewIntSet(append(xs, xs[:len(xs)/2]...)...))
		case "with", "without":
			x := r.N(5)
			ev["x"] = x
			v := e.vals[e.mem[x][0]]
			if op == "with" {
				wr(A.With(v))
			} else {
				wr(A.Without(v))
			}
		case "where":
			bs := some()
			ev["q"] = bs
			wr(A.Where(keep(bs)))
		case "smap":
			f := make([]int, len(e.wt))
			for x := range f {
				f[x] = x
				for k := 0; k < 4; k++ {
					if y := r.N(len(f)); e.wt[y] <= e.wt[x] {
						f[x] = y
						break
					}
				}
			}
			pos := map[int]int{}
			for _, m := range e.mem {
				for j, i := range m {
					pos[i] = j
				}
			}
			ev["f"] = f
			wr(A.Map(func(v I) I {
				i := e.idx[v]
				y := f[e.blk[i]]
				return e.vals[e.mem[y][pos[i]%e.wt[y]]]
			}))
		case "union":
			wr(A.Union(B))
		case "inter":
			wr(A.Intersection(B))
		case "rebuild":
			bs := e.iter(A)
			if len(bs) > 0 && bs[0] == bad {
				wr(A)
				return
			}
			all := make([]int, len(e.wt))
			for i := range all {
				all[i] = i
			}
			switch r.N(3) {
			case 0:
				s := frozen.IntSet[I]{}
				for _, v := range e.vs(bs) {
					s = s.With(v)
				}
				wr(s)
			case 1:
				s := frozen.NewIntSet(e.vals...)
				in := keep(bs)
				for _, v := range e.vals {
					if !in(v) {
						s = s.Without(v)
					}
				}
				wr(s)
			default:
				wr(frozen.NewIntSet(e.vs(all)...).Where(keep(bs)))
			}
		case "equal":
			ev["r"], ev["z"] = []bool{A.Equal(B), B.Equal(A), A.EqualSet(B), A.Same(B)}, false
		case "subset":
			ev["r"] = A.IsSubsetOf(B)
		case "hasall":
			i := 0
			ev["n"] = len(e.wt)
			ev["hs"] = e.blocks(func() (v I, ok bool) {
				for ; i < len(e.vals); i++ {
					if A.Has(e.vals[i]) {
						v = e.vals[i]
						i++
						return v, true
					}
				}
				return
			})
		case "view":
			ev["q"] = e.list(A.Elements())
		case "any":
			ev["r"] = bad
			ev["p"], _ = tr.Try(func() {
				if i, ok := e.idx[A.Any()]; ok {
					ev["r"] = e.blk[i]
				}
			})
		case "hashes":
			hs := [][]any{}
			for i := range e.reg {
				if e.set[i] {
					hs = append(hs, []any{i, strconv.FormatUint(uint64(e.reg[i].Hash(3)), 16)})
				}
			}
			ev["hs"] = hs
		case "obs":
			os := [][]any{}
			for i, s := range e.reg {
				if e.set[i] {
					os = append(os, []any{i, s.Count(), s.IsEmpty(), e.iter(s)})
				}
			}
			ev["os"] = os
		}
	})
	if pan {
		e.t.Ev(tr.M{"op": "panic", "in": op, "msg": msg})
		panic(stop{})
	}
	e.t.Ev(ev)
}

// bigValues: whole cells, nearly empty cells and everything between, on both
// sides of zero and at the ends of the type.
func bigValues[I integer](r *tr.Rng, n int) []I {
	seen := map[I]bool{}
	var out []I
	add := func(v I) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for tries := 0; len(out) < n && tries < 3*n; tries++ {
		base := I(r.U64()) &^ 63
		if r.P(1, 2) {
			base = I(r.N(2*n)-n) &^ 63
		}
		switch r.N(3) {
		case 0:
			for i := 0; i < 64; i++ {
				add(base + I(i))
			}
		case 1:
			add(base + I(r.N(64)))
		default:
			for k := r.N(10); k >= 0; k-- {
				add(base + I(r.N(64)))
			}
		}
	}
	return out
}

func runBig(t *tr.Tracer, r *tr.Rng, eps, steps, size int) {
	wt := []int{1, 1, 1, 1, 1, 2, 64}
	left := size
	for k := 4; k > 0; k-- {
		w := 1 + r.N(left/2+1)
		left -= w
		if left < 1 {
			left = 1
		}
		wt = append(wt, w)
	}
	t.Ev(tr.M{"op": "head", "nr": nr, "nb": 1, "ni": ni, "wt": wt})
	for i := 0; i < eps; i++ {
		switch r.N(5) {
		case 0:
			bigEpisode[int](t, r, wt, steps, "int")
		case 1:
			bigEpisode[int64](t, r, wt, steps, "int64")
		case 2:
			bigEpisode[uint32](t, r, wt, steps, "uint32")
		case 3:
			bigEpisode[uint](t, r, wt, steps, "uint")
		default:
			bigEpisode[int32](t, r, wt, steps, "int32")
		}
	}
}

func bigEpisode[I integer](t *tr.Tracer, r *tr.Rng, wt []int, steps int, name string) {
	n := 0
	for _, w := range wt {
		n += w
	}
	e := &bigEnv[I]{t: t, r: r, wt: wt, idx: map[I]int{}, reg: make([]frozen.IntSet[I], nr), set: make([]bool, nr)}
	for len(e.vals) < n {
		for _, v := range bigValues[I](r, n) {
			if _, dup := e.idx[v]; !dup && len(e.vals) < n {
				e.idx[v] = len(e.vals)
				e.vals = append(e.vals, v)
			}
		}
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if r.P(1, 2) {
		p = r.Perm(n)
	}
	e.blk = make([]int, n)
	k := 0
	for b, w := range wt {
		m := append([]int{}, p[k:k+w]...)
		for _, i := range m {
			e.blk[i] = b
		}
		e.mem = append(e.mem, m)
		k += w
	}
	t.Ev(tr.M{"op": "reset", "what": "big " + name + " n=" + strconv.Itoa(n)})
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); !ok {
				panic(x)
			}
		}
	}()
	e.set[0] = true // the zero value, known to the specification through "new"
	t.Ev(tr.M{"op": "new", "o": 0, "q": []int{}, "c": 0, "e": e.reg[0].IsEmpty(), "it": e.iter(e.reg[0])})
	ops := []string{"new", "new", "with", "with", "with", "without", "without", "without", "where", "where", "smap", "union", "union", "union", "inter", "inter", "inter",
		"rebuild", "rebuild", "equal", "equal", "subset", "subset", "hasall", "view", "any", "hashes", "obs"}
	for i := 0; i < steps; i++ {
		e.step(ops[r.N(len(ops))])
	}
	e.step("obs")
}
