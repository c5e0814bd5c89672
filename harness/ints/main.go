// ints drives frozen.IntSet over every integer type and records what it does.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/arr-ai/frozen"

	"frozenverif/tr"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

type myInt int16

const bad = -1

type env[I integer] struct {
	t    *tr.Tracer
	r    *tr.Rng
	vals []I
	idx  map[I]int
	reg  []frozen.IntSet[I]
	set  []bool
	itr  []frozen.Iterator[I]
	on   []bool // the last step of the iterator found an element
	cb   bool
}

func (e *env[I]) dec(v I) int {
	if i, ok := e.idx[v]; ok {
		return i
	}
	return bad
}

func (e *env[I]) mk(id int) I { return e.vals[id] }

func (e *env[I]) vs(q []int) []I {
	out := make([]I, len(q))
	for i, x := range q {
		out[i] = e.vals[x]
	}
	return out
}

func (e *env[I]) iter(s frozen.IntSet[I]) []int {
	out := []int{}
	for i := s.Range(); i.Next() && len(out) < 1<<17; {
		out = append(out, e.dec(i.Value()))
	}
	return out
}

// values picks n distinct integers of the type, crowding the interesting places.
func values[I integer](r *tr.Rng, n int, whole bool) []I {
	var vals []I
	seen := map[I]bool{}
	add := func(v I) {
		if !seen[v] {
			seen[v] = true
			vals = append(vals, v)
		}
	}
	if whole {
		for v, i := I(0), 0; i < 256; v, i = v+1, i+1 {
			add(v)
		}
		return vals
	}
	zero := I(0)
	ones := ^zero
	var lo, hi I = 0, ones
	if ones < 0 { // signed
		hi = 0
		for v := I(1); v > 0; v <<= 1 {
			hi |= v
		}
		lo = ^hi
	}
	bases := []I{0, lo, hi, ones, 64, zero - 64, 127, zero - 127}
	for i := 0; i < 3; i++ {
		bases = append(bases, I(r.U64()))
	}
	if r.P(1, 4) { // dense around zero
		bases = []I{0}
	}
	w := r.Pick(3, 12, 70, 130)
	for tries := 0; len(vals) < n && tries < 20*n; tries++ {
		b := bases[r.N(len(bases))]
		d := I(r.N(w)) // w fits every type but int8, where it wraps
		if r.P(1, 2) {
			d = -d
		}
		add(b + d)
	}
	return vals
}

func newEnv[I integer](t *tr.Tracer, r *tr.Rng, vals []I) *env[I] {
	e := &env[I]{t: t, r: r, vals: vals, idx: map[I]int{}}
	for i, v := range vals {
		e.idx[v] = i
	}
	e.reg = make([]frozen.IntSet[I], nr)
	e.set = make([]bool, nr)
	e.itr = make([]frozen.Iterator[I], ni)
	e.on = make([]bool, ni)
	return e
}

const nr, ni = 6, 3

type stop struct{}

func (e *env[I]) do(op string, f func(ev tr.M)) {
	e.t.Begin(op)
	ev := tr.M{"op": op}
	pan, msg := tr.Try(func() { f(ev) })
	if pan {
		e.t.Ev(tr.M{"op": "panic", "in": op, "msg": msg})
		panic(stop{})
	}
	if ev["skip"] != nil {
		e.t.Begin("")
		return
	}
	e.t.Ev(ev)
}

func (e *env[I]) obs(ev tr.M, o int) {
	s := e.reg[o]
	ev["o"], ev["c"], ev["e"], ev["it"] = o, s.Count(), s.IsEmpty(), e.iter(s)
}

func (e *env[I]) put(ev tr.M, o int, s frozen.IntSet[I]) {
	e.reg[o], e.set[o] = s, true
	e.obs(ev, o)
}

// by builds the set of the ids along one of several histories.
func (e *env[I]) by(q []int) frozen.IntSet[I] {
	r := e.r
	p := r.Perm(len(q))
	switch r.N(5) {
	case 0:
		return frozen.NewIntSet(e.vs(q)...)
	case 1:
		s := frozen.IntSet[I]{}
		for _, j := range p {
			s = s.With(e.mk(q[j]))
		}
		return s
	case 2:
		s := frozen.NewIntSet(e.vals...)
		in := map[int]bool{}
		for _, x := range q {
			in[x] = true
		}
		for id := range e.vals {
			if !in[id] {
				s = s.Without(e.mk(id))
			}
		}
		return s
	case 3:
		h := len(q) / 2
		return frozen.NewIntSet(e.vs(q[h/2:])...).Union(frozen.NewIntSet(e.vs(q[:h])...))
	default:
		in := map[int]bool{}
		for _, x := range q {
			in[x] = true
		}
		return frozen.NewIntSet(e.vals...).Where(func(v I) bool { return in[e.dec(v)] })
	}
}

func (e *env[I]) step() {
	r := e.r
	n := len(e.vals)
	o, a, b := r.N(nr), r.N(nr), r.N(nr)
	for !e.set[a] {
		a = r.N(nr)
	}
	for !e.set[b] {
		b = r.N(nr)
	}
	A, B := e.reg[a], e.reg[b]
	x := r.N(n)
	if r.P(1, 2) {
		if q := e.iter(A); len(q) > 0 {
			if y := q[r.N(len(q))]; y >= 0 {
				x = y
			}
		}
	}
	with := func(ev tr.M) { ev["a"], ev["b"], ev["x"] = a, b, x }
	switch k := r.N(100); {
	case k < 6:
		q := r.Subset(n)
		if r.P(1, 2) && len(q) > 0 {
			q = append(q, q[:r.N(len(q))]...)
		}
		e.do("new", func(ev tr.M) {
			xs := e.vs(q)
			s := frozen.NewIntSet(xs...)
			for i := range xs {
				xs[i] = 0
			}
			ev["q"] = q
			e.put(ev, o, s)
		})
	case k < 11:
		e.do("rebuild", func(ev tr.M) { with(ev); e.put(ev, o, e.by(e.iter(A))) })
	case k < 24:
		e.do("with", func(ev tr.M) { with(ev); e.put(ev, o, A.With(e.mk(x))) })
	case k < 38:
		e.do("without", func(ev tr.M) { with(ev); e.put(ev, o, A.Without(e.mk(x))) })
	case k < 44:
		keep := r.Subset(n)
		in := map[int]bool{}
		for _, x := range keep {
			in[x] = true
		}
		e.do("where", func(ev tr.M) {
			with(ev)
			ev["q"] = keep
			on := [][]int{}
			s := A.Where(func(v I) bool {
				if e.cb {
					_ = A.With(v).Without(e.mk(0))
				}
				on = append(on, []int{e.dec(v)})
				return in[e.dec(v)]
			})
			ev["on"] = on
			e.put(ev, o, s)
		})
	case k < 48:
		f := make([]int, n)
		m := 1 + r.N(n)
		for i := range f {
			f[i] = r.N(m)
		}
		e.do("smap", func(ev tr.M) {
			with(ev)
			ev["f"] = f
			on := [][]int{}
			s := A.Map(func(v I) I {
				id := e.dec(v)
				on = append(on, []int{id})
				if id >= 0 {
					return e.mk(f[id])
				}
				return v
			})
			ev["on"] = on
			e.put(ev, o, s)
		})
	case k < 57:
		e.do("union", func(ev tr.M) { with(ev); e.put(ev, o, A.Union(B)) })
	case k < 66:
		e.do("inter", func(ev tr.M) { with(ev); e.put(ev, o, A.Intersection(B)) })
	case k < 72:
		e.do("subset", func(ev tr.M) { with(ev); ev["r"] = A.IsSubsetOf(B) })
	case k < 78:
		e.do("equal", func(ev tr.M) {
			with(ev)
			ev["r"] = []bool{A.Equal(B), B.Equal(A), A.EqualSet(B), A.Same(B), B.Same(A)}
			ev["z"] = A.Same(1) || A.Same(frozen.NewSet(1)) || A.Same("x")
		})
	case k < 82:
		e.do("hasall", func(ev tr.M) {
			with(ev)
			hs := []int{}
			for id := 0; id < n; id++ {
				if A.Has(e.mk(id)) {
					hs = append(hs, id)
				}
			}
			ev["n"], ev["hs"] = n, hs
		})
	case k < 84:
		e.do("any", func(ev tr.M) {
			with(ev)
			ev["r"] = bad
			ev["p"], _ = tr.Try(func() { ev["r"] = e.dec(A.Any()) })
		})
	case k < 87:
		e.do("view", func(ev tr.M) {
			with(ev)
			q := []int{}
			switch r.N(3) {
			case 0:
				xs := A.Elements()
				for i, v := range xs {
					q = append(q, e.dec(v))
					xs[i] = 0
				}
			default:
				s := A.String()
				if r.P(1, 2) {
					s = fmt.Sprintf("%v", A)
				}
				if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
					q = append(q, bad)
					break
				}
				if s = s[1 : len(s)-1]; s != "" {
					for _, w := range strings.Split(s, ", ") {
						q = append(q, e.parse(w))
					}
				}
			}
			ev["q"] = q
		})
	case k < 88:
		e.do("plusv", func(ev tr.M) {
			with(ev)
			ev["bad"] = strings.Contains(fmt.Sprintf("%+v", A), "(PANIC")
		})
	case k < 90:
		seed := uintptr(r.Pick(0, 0, 1, 7, 12345))
		e.do("hashes", func(ev tr.M) {
			hs := [][]any{}
			for i := range e.reg {
				if e.set[i] {
					hs = append(hs, []any{i, strconv.FormatUint(uint64(e.reg[i].Hash(seed)), 16)})
				}
			}
			ev["hs"] = hs
		})
	case k < 93:
		i := r.N(ni)
		e.do("inew", func(ev tr.M) { with(ev); ev["i"] = i; e.itr[i], e.on[i] = A.Range(), false })
	case k < 97:
		i := r.N(ni)
		if e.itr[i] == nil {
			return
		}
		if e.on[i] && r.P(1, 2) {
			e.do("ival", func(ev tr.M) { ev["i"], ev["r"] = i, e.dec(e.itr[i].Value()) })
		}
		for j := 0; j < 1+r.N(12); j++ {
			e.do("inext", func(ev tr.M) {
				ok := e.itr[i].Next()
				e.on[i] = ok
				ev["i"], ev["ok"], ev["r"], ev["z"] = i, ok, 0, true
				if ok {
					ev["r"] = e.dec(e.itr[i].Value())
					ev["z"] = e.dec(e.itr[i].Value()) == ev["r"]
				}
			})
		}
	default:
		e.observe()
	}
}

func (e *env[I]) parse(s string) int {
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return e.dec(I(v))
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		return e.dec(I(v))
	}
	return bad
}

func (e *env[I]) observe() {
	e.do("obs", func(ev tr.M) {
		os := [][]any{}
		for i := range e.reg {
			if e.set[i] {
				one := tr.M{}
				e.obs(one, i)
				os = append(os, []any{i, one["c"], one["e"], one["it"]})
			}
		}
		ev["os"] = os
	})
}

func run[I integer](t *tr.Tracer, r *tr.Rng, name string, steps int, bits int) {
	n := r.Pick(4, 12, 40, 90)
	whole := bits == 8 && r.P(1, 2)
	if bits > 8 && r.P(1, 10) {
		n = 1500
		steps = steps/4 + 1
	}
	e := newEnv(t, r, values[I](r, n, whole))
	e.cb = r.P(1, 3)
	if conc > 0 {
		b := tr.NewBuf()
		e.t = b
		guard(func() {
			for i := 0; i < nr; i++ {
				q := r.Subset(len(e.vals))
				e.do("new", func(ev tr.M) { ev["q"] = q; e.put(ev, i, e.by(q)) })
			}
		})
		s0 := r.U64()
		reset := tr.M{"op": "reset", "what": fmt.Sprintf("conc IntSet[%s] n=%d", name, len(e.vals))}
		t.Fork(conc, reset, b.Bytes(), func(g int, t *tr.Tracer) {
			c := newEnv(t, tr.NewRng(s0+uint64(g)), e.vals)
			c.cb = e.cb
			copy(c.reg, e.reg)
			copy(c.set, e.set)
			guard(func() {
				for i := 0; i < steps; i++ {
					c.step()
				}
				c.observe()
			})
		})
		return
	}
	t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("IntSet[%s] n=%d", name, len(e.vals))})
	guard(func() {
		for i := 0; i < 2; i++ {
			q := r.Subset(len(e.vals))
			e.do("new", func(ev tr.M) { ev["q"] = q; e.put(ev, i, frozen.NewIntSet(e.vs(q)...)) })
		}
		for i := 0; i < steps; i++ {
			e.step()
			if i%15 == 14 {
				e.observe()
			}
		}
		e.observe()
	})
}

func guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); !ok {
				panic(x)
			}
		}
	}()
	f()
}

// conc: number of goroutines that share the values of an episode (0: none)
var conc int

func main() {
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "trace file")
	eps := flag.Int("eps", 22, "episodes")
	steps := flag.Int("steps", 60, "calls per episode")
	sync := flag.Bool("sync", false, "flush after every event")
	hang := flag.Duration("hang", 60*time.Second, "report a call that takes longer")
	size := flag.Int("size", 5000, "integers in the universe (big)")
	mode := flag.String("mode", "random", "random or conc")
	in := flag.String("in", "", "input file (tries)")
	part := flag.Int("part", 0, "which part of the input (tries)")
	parts := flag.Int("parts", 1, "in how many parts the input is done (tries)")
	sample := flag.Int("sample", 1, "one layout and type in so many (tries)")
	flag.Parse()
	if *mode == "conc" {
		conc = 2 + int(*seed%5)
	}
	r := tr.NewRng(*seed)
	tr.SeedHash(*seed)
	t := tr.NewTracer(*out, *sync, *hang)
	if *mode == "tries" {
		runTries(t, r, *in, *part, *parts, *sample)
		t.Close()
		os.Exit(0)
	}
	if *mode == "big" {
		runBig(t, r, *eps, *steps, *size)
		t.Close()
		os.Exit(0)
	}
	t.Ev(tr.M{"op": "head", "nr": nr, "nb": 1, "ni": ni, "wt": []int{}})
	for i := 0; i < *eps; i++ {
		switch (i + int(*seed)) % 12 {
		case 0:
			run[int](t, r, "int", *steps, 64)
		case 1:
			run[int8](t, r, "int8", *steps, 8)
		case 2:
			run[int16](t, r, "int16", *steps, 16)
		case 3:
			run[int32](t, r, "int32", *steps, 32)
		case 4:
			run[int64](t, r, "int64", *steps, 64)
		case 5:
			run[uint](t, r, "uint", *steps, 64)
		case 6:
			run[uint8](t, r, "uint8", *steps, 8)
		case 7:
			run[uint16](t, r, "uint16", *steps, 16)
		case 8:
			run[uint32](t, r, "uint32", *steps, 32)
		case 9:
			run[uint64](t, r, "uint64", *steps, 64)
		case 10:
			run[uintptr](t, r, "uintptr", *steps, 64)
		case 11:
			run[myInt](t, r, "myInt", *steps, 16)
		}
	}
	t.Close()
	os.Exit(0)
}
