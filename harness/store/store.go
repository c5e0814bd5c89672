package main

import (
	"frozenverif/tr"

	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/arr-ai/frozen"
)

// Op is one call to make on the real code. The random generator and the replay
// of behaviours generated by TLC both produce Ops.
type Op struct {
	Op  string  `json:"op"`
	O   int     `json:"o"`
	A   int     `json:"a"`
	B   int     `json:"b"`
	X   int     `json:"x"`
	Y   int     `json:"y"`
	N   int     `json:"n"`
	I   int     `json:"i"`
	Q   []int   `json:"q"`
	As  []int   `json:"as"`
	KV  [][]int `json:"kv"`
	C   []int   `json:"c"`
	F   []int   `json:"f"`
	How string  `json:"how"`
}

// clip: TLC's integers have 32 bits; no collection is that large.
func clip(n int) int {
	if n > 1<<30 {
		return 1 << 30
	}
	return n
}

type reg[T, V any] struct {
	k string // none set map nest nmap
	s frozen.Set[T]
	m frozen.Map[T, V]
}

type builder[T, V any] struct {
	k string
	s *frozen.SetBuilder[T]
	m *frozen.MapBuilder[T, V]
}

type iter[T, V any] struct {
	k string // off set map
	s frozen.Iterator[T]
	m *frozen.MapIterator[T, V]

	on bool // the last step found an element
}

// callbacks counts calls of caller-supplied functions in flight.
type callbacks struct {
	active int64
	stray  int64
	open   int32
	busy   bool
}

func (c *callbacks) enter() {
	if !tr.Quiet {
		c.count()
	}
	if c.busy {
		runtime.Gosched()
		if z := tr.Mix(uint64(tr.NextTag())); z%512 == 0 {
			time.Sleep(time.Duration(z>>32%400) * time.Microsecond)
		}
	}
}

func (c *callbacks) count() {
	atomic.AddInt64(&c.active, 1)
	if atomic.LoadInt32(&c.open) == 0 {
		atomic.AddInt64(&c.stray, 1)
	}
}

func (c *callbacks) leave() {
	if !tr.Quiet {
		atomic.AddInt64(&c.active, -1)
	}
}

// Env runs calls on real sets and maps over one element universe.
type Env[T, V any] struct {
	t   *tr.Tracer
	r   *tr.Rng
	ku  *Uni[T]
	vu  *Uni[V]
	reg []reg[T, V]
	bld []builder[T, V]
	itr []iter[T, V]
	cb  callbacks

	ona sync.Mutex
	on  map[[3]int]bool // what the callbacks of this call were applied to

	reent   bool // callbacks make calls of their own
	started bool // there are values in the registers already

	// available for comparable / integer element types only
	fromGo func(kvs [][]int) frozen.Map[T, V]
	toGo   func(m frozen.Map[T, V]) [][2]int
	iota   func(a, b, c int) frozen.Set[T]
	mask   func(m uint64) frozen.Set[T]
	ext    extOps
}

// extOps are calls on collections of collections; few element types have them,
// to keep the number of generic instantiations (and the build time) down.
type extOps interface {
	exec(op Op) tr.M
	obs(o int) (c int, em bool, it any)
	equal(a, b int) []bool
	hash(o int, seed uintptr) uintptr
}

func newEnv[T, V any](t *tr.Tracer, r *tr.Rng, ku *Uni[T], vu *Uni[V], nr, nb, ni int) *Env[T, V] {
	e := &Env[T, V]{t: t, r: r, ku: total(ku), vu: total(vu), on: map[[3]int]bool{}}
	e.reg = make([]reg[T, V], nr)
	for i := range e.reg {
		e.reg[i].k = "none"
	}
	e.bld = make([]builder[T, V], nb)
	for i := range e.bld {
		e.bld[i] = builder[T, V]{k: "set", s: &frozen.SetBuilder[T]{}}
	}
	e.itr = make([]iter[T, V], ni)
	for i := range e.itr {
		e.itr[i].k = "off"
	}
	return e
}

func (e *Env[T, V]) ks(ids []int) []T {
	out := make([]T, len(ids), len(ids)+2)
	for i, id := range ids {
		out[i] = e.ku.mk(id)
	}
	return out
}

// scribble overwrites a caller-owned slice after the call is over.
func (e *Env[T, V]) scribble(xs []T) {
	if e.ku.n == 0 {
		return
	}
	for i := range xs {
		xs[i] = e.ku.mk((i * 7) % e.ku.n)
	}
	ys := xs[:cap(xs)]
	for i := len(xs); i < len(ys); i++ {
		ys[i] = e.ku.mk(0)
	}
}

func (e *Env[T, V]) decs(xs []T) []int {
	out := make([]int, len(xs))
	for i, x := range xs {
		out[i] = e.ku.dec(x)
	}
	return out
}

func (e *Env[T, V]) iterSet(s frozen.Set[T]) []int {
	out := make([]int, 0, s.Count())
	for i := s.Range(); i.Next(); {
		out = append(out, e.ku.dec(i.Value()))
		if len(out) > 1<<17 {
			break
		}
	}
	return out
}

func (e *Env[T, V]) iterMap(m frozen.Map[T, V]) [][2]int {
	out := make([][2]int, 0, m.Count())
	for i := m.Range(); i.Next(); {
		k, v := i.Entry()
		p := [2]int{e.ku.dec(k), e.vu.dec(v)}
		if q := [2]int{e.ku.dec(i.Key()), e.vu.dec(i.Value())}; q != p {
			p = [2]int{bad, bad}
		}
		out = append(out, p)
		if len(out) > 1<<17 {
			break
		}
	}
	return out
}

// obs reads a register: count, emptiness, iteration.
func (e *Env[T, V]) obs(o int) (c int, em bool, it any) {
	r := &e.reg[o]
	switch r.k {
	case "set":
		return r.s.Count(), r.s.IsEmpty(), e.iterSet(r.s)
	case "map":
		return r.m.Count(), r.m.IsEmpty(), e.iterMap(r.m)
	case "nest", "nmap":
		return e.ext.obs(o)
	}
	return 0, true, []int{}
}

func (e *Env[T, V]) setReg(o int, s frozen.Set[T])    { e.reg[o] = reg[T, V]{k: "set", s: s} }
func (e *Env[T, V]) mapReg(o int, m frozen.Map[T, V]) { e.reg[o] = reg[T, V]{k: "map", m: m} }

// noise makes calls on registers from inside a callback and drops the results.
func (e *Env[T, V]) noise() {
	if !e.reent {
		return
	}
	z := tr.Mix(uint64(tr.NextTag()) ^ e.r.Salt())
	r := &e.reg[int(z%uint64(len(e.reg)))]
	x := e.ku.mk(int((z >> 20) % uint64(e.ku.n)))
	switch r.k {
	case "set":
		switch (z >> 40) % 6 {
		case 0:
			_ = r.s.With(x)
		case 1:
			_ = r.s.Without(x)
		case 2:
			_ = r.s.Union(r.s.With(x))
		case 3:
			for i := r.s.Range(); i.Next(); {
				break
			}
		case 4:
			b := frozen.SetBuilder[T]{}
			b.Add(x)
			_ = b.Finish()
		case 5:
			_ = r.s.Has(x)
		}
	case "map":
		switch (z >> 40) % 3 {
		case 0:
			_ = r.m.With(x, e.vu.mk(0))
		case 1:
			_ = r.m.Without(x)
		case 2:
			_, _ = r.m.Get(x)
		}
	}
}

// in wraps every caller-supplied function.
func (e *Env[T, V]) in() {
	e.cb.enter()
	e.noise()
}

// ask records what a callback is applied to: it need not be defined on anything else.
func (e *Env[T, V]) ask(x ...int) {
	if tr.Quiet {
		return
	}
	k := [3]int{-2, -2, -2}
	copy(k[:], x)
	e.ona.Lock()
	e.on[k] = true
	e.ona.Unlock()
}

func (e *Env[T, V]) asked(n int) [][]int {
	out := [][]int{}
	for k := range e.on {
		out = append(out, append([]int{}, k[:n]...))
	}
	return out
}

func contains(q []int) map[int]bool {
	m := make(map[int]bool, len(q))
	for _, x := range q {
		m[x] = true
	}
	return m
}

// at is a total table lookup: an element the harness does not recognise (which
// the trace shows as -1) must not crash it.
func at(f []int, id int) int {
	if id < 0 || id >= len(f) {
		return 0
	}
	return f[id]
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// total makes mk accept any id.
func total[T any](u *Uni[T]) *Uni[T] {
	inner := u.mk
	c := *u
	c.mk = func(id int) T {
		if id < 0 || id >= u.n {
			id = 0
		}
		return inner(id)
	}
	return &c
}

func lin2(c []int, x, y int) int    { return (c[0]*x + c[1]*y + c[3]) % c[4] }
func lin3(c []int, x, y, z int) int { return (c[0]*x + c[1]*y + c[2]*z + c[3]) % c[4] }

func (e *Env[T, V]) less(rank []int) func(a, b T) bool {
	return func(a, b T) bool {
		e.in()
		defer e.cb.leave()
		e.ask(e.ku.dec(a))
		e.ask(e.ku.dec(b))
		return at(rank, e.ku.dec(a)) < at(rank, e.ku.dec(b))
	}
}

// Do makes one call and logs it with what the real code answered.
func (e *Env[T, V]) Do(op Op) {
	var zero T
	if _, is := any(zero).(E); is && op.Op == "viaany" {
		op.Op = "rebuild" // an E has no equality as an any
	}
	if op.Q == nil {
		op.Q = []int{}
	}
	if op.As == nil {
		op.As = []int{}
	}
	if op.F == nil {
		op.F = []int{}
	}
	if op.KV == nil {
		op.KV = [][]int{}
	}
	e.t.Begin(op.Op)
	atomic.StoreInt32(&e.cb.open, 1)
	e.on = map[[3]int]bool{}
	var ev tr.M
	pan, msg := tr.Try(func() { ev = e.exec(op) })
	atomic.StoreInt32(&e.cb.open, 0)
	if pan {
		if atomic.LoadInt64(&e.cb.active) > 0 {
			// callbacks that panicked half way are not "in flight"
			atomic.StoreInt64(&e.cb.active, 0)
		}
		args, _ := json.Marshal(op)
		e.t.Ev(tr.M{"op": "panic", "in": op.Op, "msg": msg, "args": string(args)})
		panic(stopEpisode{})
	}
	if ev == nil {
		e.t.Begin("")
		return
	}
	if late := atomic.LoadInt64(&e.cb.active); late != 0 {
		// the call returned while a callback it started was still running
		ev = tr.M{"op": "late", "in": op.Op, "active": late}
		e.t.Ev(ev)
		time.Sleep(50 * time.Millisecond)
		panic(stopEpisode{})
	}
	switch op.Op {
	case "where", "smap", "fromkeys", "groupby", "firstn", "ordfirstn", "ordelems", "first":
		ev["on"] = e.asked(1)
	case "mwhere", "mmap":
		ev["on"] = e.asked(2)
	case "mmerge":
		ev["on"] = e.asked(3)
	}
	e.t.Ev(ev)
	if stray := atomic.SwapInt64(&e.cb.stray, 0); stray != 0 {
		e.t.Ev(tr.M{"op": "stray", "in": op.Op, "calls": stray})
		panic(stopEpisode{})
	}
}

type stopEpisode struct{}

func (e *Env[T, V]) obsInto(ev tr.M, o int) tr.M {
	c, em, it := e.obs(o)
	ev["o"], ev["c"], ev["e"], ev["it"] = o, c, em, it
	return ev
}

func (e *Env[T, V]) exec(op Op) tr.M {
	ku, vu := e.ku, e.vu
	ev := tr.M{"op": op.Op, "a": op.A, "b": op.B, "x": op.X}
	A, B := &e.reg[op.A], &e.reg[op.B]
	wr := func(s frozen.Set[T]) tr.M { e.setReg(op.O, s); return e.obsInto(ev, op.O) }
	wrm := func(m frozen.Map[T, V]) tr.M { e.mapReg(op.O, m); return e.obsInto(ev, op.O) }
	switch op.Op {
	// ------------------------------------------------------------- sets
	case "new":
		xs := e.ks(op.Q)
		s := frozen.NewSet(xs...)
		e.scribble(xs)
		ev["q"] = op.Q
		return wr(s)
	case "iota":
		if e.iota == nil {
			return nil
		}
		ev["n"], ev["i"], ev["y"] = op.N, op.I, op.Y
		var s frozen.Set[T]
		p, _ := tr.Try(func() { s = e.iota(op.N, op.I, op.Y) })
		ev["p"] = p
		if p {
			return ev
		}
		return wr(s)
	case "mask":
		if e.mask == nil {
			return nil
		}
		m := uint64(0)
		for _, x := range op.Q {
			m |= 1 << uint(x)
		}
		ev["q"] = op.Q
		return wr(e.mask(m))
	case "with":
		return wr(A.s.With(ku.mk(op.X)))
	case "without":
		return wr(A.s.Without(ku.mk(op.X)))
	case "where":
		keep := contains(op.Q)
		ev["q"] = op.Q
		return wr(A.s.Where(func(v T) bool {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(v))
			return keep[ku.dec(v)]
		}))
	case "smap":
		ev["f"] = op.F
		return wr(frozen.SetMap(A.s, func(v T) T {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(v))
			return ku.mk(at(op.F, ku.dec(v)))
		}))
	case "union":
		return wr(A.s.Union(B.s))
	case "inter":
		return wr(A.s.Intersection(B.s))
	case "diff":
		return wr(A.s.Difference(B.s))
	case "symdiff":
		return wr(A.s.SymmetricDifference(B.s))
	case "nunion", "ninter":
		ss := make([]frozen.Set[T], len(op.As))
		for i, a := range op.As {
			ss[i] = e.reg[a].s
		}
		ev["as"] = op.As
		var s frozen.Set[T]
		if op.Op == "nunion" {
			s = frozen.Union(ss...)
		} else {
			p, _ := tr.Try(func() { s = frozen.Intersection(ss...) })
			ev["p"] = p
			if p {
				return ev
			}
		}
		for i := range ss {
			ss[i] = frozen.Set[T]{}
		}
		return wr(s)
	case "rebuild": // the same content by another history
		ids := e.iterSet(A.s)
		return wr(e.rebuild(ids, op.N))
	case "viaany":
		return wr(frozen.SetAs[T](A.s.AsSetAny()))
	case "anyn":
		ev["n"] = clip(op.N)
		return wr(A.s.AnyN(op.N))
	case "firstn":
		ev["n"], ev["f"] = clip(op.N), op.F
		return wr(A.s.FirstN(op.N, e.less(op.F)))
	// ----------------------------------------------------------- queries
	case "has":
		ev["r"] = A.s.Has(ku.mk(op.X))
		return ev
	case "equal":
		var rs []bool
		var other bool
		switch A.k {
		case "set":
			rs = []bool{A.s.Equal(B.s), B.s.Equal(A.s), A.s.Same(B.s), B.s.Same(any(A.s))}
			other = A.s.Same(1) || A.s.Same(e.reg)
			if _, isInt := any(A.s).(frozen.Set[int]); !isInt {
				other = other || A.s.Same(frozen.NewSet(1))
			}
		case "map":
			rs = []bool{A.m.Equal(B.m), B.m.Equal(A.m), A.m.Same(B.m), B.m.Same(A.m)}
			other = A.m.Same(1) || A.m.Same(e.reg)
		case "nest", "nmap":
			rs = e.ext.equal(op.A, op.B)
		default:
			return nil
		}
		ev["r"], ev["z"] = rs, other
		return ev
	case "subset":
		ev["r"] = A.s.IsSubsetOf(B.s)
		return ev
	case "any":
		ev["r"] = -1
		var p bool
		if A.k == "map" {
			p, _ = tr.Try(func() { k, v := A.m.Any(); ev["r"] = [2]int{ku.dec(k), vu.dec(v)} })
		} else {
			p, _ = tr.Try(func() { ev["r"] = ku.dec(A.s.Any()) })
		}
		ev["p"] = p
		return ev
	case "ordfirstn":
		q := A.s.OrderedFirstN(op.N, e.less(op.F))
		ev["n"], ev["f"], ev["q"] = clip(op.N), op.F, e.decs(q)
		e.scribble(q)
		return ev
	case "ordelems":
		q := A.s.OrderedElements(e.less(op.F))
		ev["f"], ev["q"] = op.F, e.decs(q)
		e.scribble(q)
		return ev
	case "first":
		ev["f"], ev["r"] = op.F, -1
		p, _ := tr.Try(func() { ev["r"] = ku.dec(A.s.First(e.less(op.F)).(T)) })
		ev["p"] = p
		return ev
	case "rsum", "rmax", "rcat":
		scr := op.N%2 == 1
		red := func(elems ...T) T {
			e.in()
			defer e.cb.leave()
			if len(elems) == 0 {
				panic("reduce called with no elements")
			}
			var out T
			switch op.Op {
			case "rsum":
				t := 0
				for _, x := range elems {
					t += ku.dec(x)
				}
				out = ku.mk(t % ku.n)
			case "rmax":
				b := 0
				for i, x := range elems {
					if at(op.F, ku.dec(x)) > at(op.F, ku.dec(elems[b])) {
						b = i
					}
				}
				out = elems[b]
			case "rcat":
				out = ku.cat(elems)
			}
			if scr {
				for i := range elems {
					elems[i] = ku.mk(op.X)
				}
			}
			return out
		}
		var r T
		var ok bool
		if op.N >= 2 {
			r, ok = A.s.Reduce2(func(a, b T) T { return red(a, b) })
			_ = scr
		} else {
			r, ok = A.s.Reduce(red)
		}
		ev["ok"] = ok
		switch op.Op {
		case "rsum":
			ev["n"], ev["r"] = ku.n, 0
			if ok {
				ev["r"] = ku.dec(r)
			}
		case "rmax":
			ev["f"], ev["r"] = op.F, 0
			if ok {
				ev["r"] = ku.dec(r)
			}
		case "rcat":
			ev["q"] = []int{}
			if ok {
				ev["q"] = ku.uncat(r)
			}
		}
		return ev
	case "hashes":
		seed := uintptr(op.N)
		hs := [][]any{}
		for i := range e.reg {
			var h uintptr
			if k := e.reg[i].k; vu.nohash && (k == "map" || k == "nmap") {
				continue
			}
			switch r := &e.reg[i]; r.k {
			case "set":
				h = r.s.Hash(seed)
			case "map":
				h = r.m.Hash(seed)
			case "nest", "nmap":
				h = e.ext.hash(i, seed)
			default:
				continue
			}
			hs = append(hs, []any{i, strconv.FormatUint(uint64(h), 16)})
		}
		ev["hs"] = hs
		return ev
	case "obs":
		os := [][]any{}
		for i := range e.reg {
			if e.reg[i].k != "none" {
				c, em, it := e.obs(i)
				os = append(os, []any{i, c, em, it})
			}
		}
		ev["os"] = os
		return ev
	case "hasall":
		hs := []int{}
		for id := 0; id < ku.n; id++ {
			var h bool
			if A.k == "map" {
				h = A.m.Has(ku.mk(id))
			} else {
				h = A.s.Has(ku.mk(id))
			}
			if h {
				hs = append(hs, id)
			}
		}
		ev["n"], ev["hs"] = ku.n, hs
		return ev
	case "view":
		q, ok := e.view(A, op.How)
		if !ok {
			return nil
		}
		ev["how"], ev["q"] = op.How, q
		return ev
	case "width":
		if ku.tx == nil || A.k != "set" {
			return nil
		}
		q, rest := parseWidth(fmt.Sprintf("%*v", op.N, A.s), ku.tx)
		ev["n"], ev["q"], ev["r"] = op.N, q, rest
		return ev
	case "plusv":
		var txt string
		switch A.k {
		case "set":
			txt = fmt.Sprintf("%+v", A.s)
		case "map":
			txt = fmt.Sprintf("%+v", A.m)
		default:
			return nil
		}
		ev["bad"] = strings.Contains(txt, "(PANIC")
		return ev
	// -------------------------------------------------------------- maps
	case "newmap":
		var m frozen.Map[T, V]
		if e.fromGo != nil && op.How == "gomap" {
			m = e.fromGo(op.KV)
		} else {
			kvs := make([]frozen.KeyValue[T, V], len(op.KV), len(op.KV)+1)
			for i, p := range op.KV {
				kvs[i] = frozen.KV(ku.mk(p[0]), vu.mk(p[1]))
			}
			m = frozen.NewMap(kvs...)
			for i := range kvs {
				kvs[i] = frozen.KV(ku.mk(0), vu.mk(0))
			}
		}
		ev["kv"] = op.KV
		return wrm(m)
	case "mwith":
		ev["y"] = op.Y
		return wrm(A.m.With(ku.mk(op.X), vu.mk(op.Y)))
	case "mwithout":
		return wrm(A.m.Without(ku.mk(op.X)))
	case "mupdate":
		return wrm(A.m.Update(B.m))
	case "mmerge":
		ev["cf"] = op.C
		return wrm(A.m.Merge(B.m, func(k T, a, b V) V {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(k), vu.dec(a), vu.dec(b))
			return vu.mk(lin3(op.C, ku.dec(k), vu.dec(a), vu.dec(b)))
		}))
	case "mproject":
		ks := e.ks(op.Q)
		m := A.m.Project(ks...)
		e.scribble(ks)
		ev["q"] = op.Q
		return wrm(m)
	case "mwhere":
		ev["cf"] = op.C
		return wrm(A.m.Where(func(k T, v V) bool {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(k), vu.dec(v))
			return lin2(op.C, ku.dec(k), vu.dec(v)) < op.C[5]
		}))
	case "mmap":
		ev["cf"] = op.C
		return wrm(frozen.MapMap(A.m, func(k T, v V) V {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(k), vu.dec(v))
			return vu.mk(lin2(op.C, ku.dec(k), vu.dec(v)))
		}))
	case "mkeys":
		return wr(A.m.Keys())
	case "mvalues":
		vs := A.m.Values()
		q := []int{}
		for i := vs.Range(); i.Next(); {
			q = append(q, vu.dec(i.Value()))
		}
		ev["q"], ev["c"] = q, vs.Count()
		return ev
	case "fromkeys":
		ev["f"] = op.F
		return wrm(frozen.NewMapFromKeys(A.s, func(k T) V {
			e.in()
			defer e.cb.leave()
			e.ask(ku.dec(k))
			return vu.mk(at(op.F, ku.dec(k)))
		}))
	case "mrebuild":
		return wrm(e.mrebuild(e.iterMap(A.m), op.N))
	case "mget":
		v, has := A.m.Get(ku.mk(op.X))
		has2 := A.m.Has(ku.mk(op.X))
		ev["ok"], ev["h"], ev["y"] = has, has2, 0
		if has {
			ev["y"] = vu.dec(v)
		}
		return ev
	case "mmust":
		ev["y"] = 0
		p, _ := tr.Try(func() { ev["y"] = vu.dec(A.m.MustGet(ku.mk(op.X))) })
		ev["p"] = p
		return ev
	case "melse":
		ev["y"] = op.Y
		ev["r"] = vu.dec(A.m.GetElse(ku.mk(op.X), vu.mk(op.Y)))
		return ev
	case "melsef":
		called := 0
		ev["y"] = op.Y
		ev["r"] = vu.dec(A.m.GetElseFunc(ku.mk(op.X), func() V { called++; return vu.mk(op.Y) }))
		ev["n"] = called
		return ev
	// ---------------------------------------------------------- builders
	case "bnew":
		b := &e.bld[op.I]
		*b = builder[T, V]{k: op.How}
		switch {
		case op.How == "set" && op.N < 0:
			b.s = &frozen.SetBuilder[T]{}
		case op.How == "set":
			b.s = frozen.NewSetBuilder[T](op.N)
		case op.N < 0:
			b.m = &frozen.MapBuilder[T, V]{}
		default:
			b.m = frozen.NewMapBuilder[T, V](op.N)
		}
		ev["i"], ev["how"] = op.I, op.How
		return ev
	case "badd":
		e.bld[op.I].s.Add(ku.mk(op.X))
		ev["i"], ev["n"] = op.I, e.bld[op.I].s.Count()
		return ev
	case "bput":
		e.bld[op.I].m.Put(ku.mk(op.X), vu.mk(op.Y))
		ev["i"], ev["y"], ev["n"] = op.I, op.Y, e.bld[op.I].m.Count()
		return ev
	case "brem":
		b := &e.bld[op.I]
		ev["i"] = op.I
		if b.k == "set" {
			b.s.Remove(ku.mk(op.X))
			ev["n"] = b.s.Count()
		} else {
			b.m.Remove(ku.mk(op.X))
			ev["n"] = b.m.Count()
		}
		return ev
	case "bhas":
		b := &e.bld[op.I]
		ev["i"] = op.I
		if b.k == "set" {
			ev["r"] = b.s.Has(ku.mk(op.X))
		} else {
			ev["r"] = b.m.Has(ku.mk(op.X))
		}
		return ev
	case "bget":
		v, has := e.bld[op.I].m.Get(ku.mk(op.X))
		ev["i"], ev["ok"], ev["y"] = op.I, has, 0
		if has {
			ev["y"] = vu.dec(v)
		}
		return ev
	case "bhasall":
		b := &e.bld[op.I]
		hs := []int{}
		n := 0
		for id := 0; id < ku.n; id++ {
			var h bool
			if b.k == "set" {
				h, n = b.s.Has(ku.mk(id)), b.s.Count()
			} else {
				h, n = b.m.Has(ku.mk(id)), b.m.Count()
			}
			if h {
				hs = append(hs, id)
			}
		}
		ev["i"], ev["hs"], ev["n"], ev["y"] = op.I, hs, ku.n, n
		return ev
	case "bview":
		b := &e.bld[op.I]
		if b.k != "set" || ku.tx == nil {
			return nil
		}
		ev["i"] = op.I
		ev["q"] = parseList(fmt.Sprintf("%v", *b.s), "{", "}", ku.tx)
		return ev
	case "bfinish":
		b := &e.bld[op.I]
		ev["i"] = op.I
		if b.k == "set" {
			e.setReg(op.O, b.s.Finish())
			ev["n"] = b.s.Count()
		} else {
			e.mapReg(op.O, b.m.Finish())
			ev["n"] = b.m.Count()
		}
		return e.obsInto(ev, op.O)
	// --------------------------------------------------------- iterators
	case "inew":
		ev["i"] = op.I
		if A.k == "map" {
			it := A.m.Range()
			e.itr[op.I] = iter[T, V]{k: "map", m: &it}
		} else {
			e.itr[op.I] = iter[T, V]{k: "set", s: A.s.Range()}
		}
		return ev
	case "iord":
		ev["i"], ev["f"] = op.I, op.F
		e.itr[op.I] = iter[T, V]{k: "set", s: A.s.OrderedRange(e.less(op.F))}
		return ev
	case "inext":
		ev["i"], ev["r"] = op.I, 0
		var ok, same bool
		same = true
		switch it := &e.itr[op.I]; it.k {
		case "set":
			if ok = it.s.Next(); ok {
				ev["r"] = ku.dec(it.s.Value())
				same = ku.dec(it.s.Value()) == ev["r"]
			}
		case "map":
			if ok = it.m.Next(); ok {
				k, v := it.m.Entry()
				ev["r"] = [2]int{ku.dec(k), vu.dec(v)}
				same = [2]int{ku.dec(it.m.Key()), vu.dec(it.m.Value())} == ev["r"]
			}
		default:
			return nil
		}
		ev["ok"], ev["z"] = ok, same
		e.itr[op.I].on = ok
		return ev
	case "ival":
		ev["i"] = op.I
		it := &e.itr[op.I]
		if !it.on {
			return nil
		}
		switch it.k {
		case "set":
			ev["r"] = ku.dec(it.s.Value())
		case "map":
			ev["r"] = [2]int{ku.dec(it.m.Key()), vu.dec(it.m.Value())}
		default:
			return nil
		}
		return ev
	}
	if e.ext != nil {
		return e.ext.exec(op)
	}
	return nil
}

// rebuild makes a set of the given ids along one of several histories.
func (e *Env[T, V]) rebuild(ids []int, how int) frozen.Set[T] {
	ku := e.ku
	p := e.r.Perm(len(ids))
	sh := make([]int, len(ids))
	for i, j := range p {
		sh[i] = ids[j]
	}
	in := contains(ids)
	extra := []int{}
	for k := 0; k < 6; k++ {
		if x := e.r.N(ku.n); !in[x] {
			extra = append(extra, x)
		}
	}
	switch how % 6 {
	case 0:
		return frozen.NewSet(e.ks(sh)...)
	case 1:
		var s frozen.Set[T]
		for _, x := range sh {
			s = s.With(ku.mk(x))
		}
		return s
	case 2: // superset, then remove
		s := frozen.NewSet(e.ks(append(append([]int{}, extra...), sh...))...)
		for _, x := range extra {
			s = s.Without(ku.mk(x))
		}
		return s
	case 3: // builder with detours
		var b frozen.SetBuilder[T]
		for i, x := range sh {
			b.Add(ku.mk(x))
			if i < len(extra) {
				b.Add(ku.mk(extra[i]))
			}
			if i%3 == 0 {
				b.Remove(ku.mk(x))
				b.Add(ku.mk(x))
			}
		}
		for _, x := range extra {
			b.Remove(ku.mk(x))
		}
		return b.Finish()
	case 4: // union of overlapping halves
		h := len(sh) / 2
		q := h / 2
		return frozen.NewSet(e.ks(sh[:h])...).Union(frozen.NewSet(e.ks(sh[h-q:])...))
	default: // filter of a superset
		s := frozen.NewSet(e.ks(append(append([]int{}, sh...), extra...))...)
		return s.Where(func(v T) bool { return in[ku.dec(v)] })
	}
}

func (e *Env[T, V]) mrebuild(kvs [][2]int, how int) frozen.Map[T, V] {
	ku, vu := e.ku, e.vu
	p := e.r.Perm(len(kvs))
	in := map[int]bool{}
	for _, kv := range kvs {
		in[kv[0]] = true
	}
	extra := []int{}
	for k := 0; k < 5; k++ {
		if x := e.r.N(ku.n); !in[x] {
			extra = append(extra, x)
		}
	}
	switch how % 5 {
	case 0:
		var m frozen.Map[T, V]
		for _, j := range p {
			m = m.With(ku.mk(kvs[j][0]), vu.mk(0)).With(ku.mk(kvs[j][0]), vu.mk(kvs[j][1]))
		}
		return m
	case 1:
		b := frozen.NewMapBuilder[T, V](len(kvs))
		for _, x := range extra {
			b.Put(ku.mk(x), vu.mk(0))
		}
		for _, j := range p {
			b.Put(ku.mk(kvs[j][0]), vu.mk(kvs[j][1]))
		}
		for _, x := range extra {
			b.Remove(ku.mk(x))
		}
		return b.Finish()
	case 2:
		var a, b frozen.Map[T, V]
		for i, j := range p {
			k, v := ku.mk(kvs[j][0]), vu.mk(kvs[j][1])
			if i%3 != 0 {
				b = b.With(k, v)
				if i%3 == 1 {
					a = a.With(k, vu.mk(0))
				}
			} else {
				a = a.With(k, v)
			}
		}
		return a.Update(b)
	case 3:
		m := frozen.Map[T, V]{}
		for _, x := range extra {
			m = m.With(ku.mk(x), vu.mk(0))
		}
		for _, j := range p {
			m = m.With(ku.mk(kvs[j][0]), vu.mk(kvs[j][1]))
		}
		for _, x := range extra {
			m = m.Without(ku.mk(x))
		}
		return m
	default:
		l := []frozen.KeyValue[T, V]{}
		for _, j := range p {
			l = append(l, frozen.KV(ku.mk(kvs[j][0]), vu.mk(kvs[j][1])))
		}
		return frozen.NewMap(l...)
	}
}

// view lists a value as some rendering shows it.
func (e *Env[T, V]) view(A *reg[T, V], how string) (any, bool) {
	ku, vu := e.ku, e.vu
	switch A.k + "/" + how {
	case "set/elements":
		xs := A.s.Elements()
		q := e.decs(xs)
		e.scribble(xs)
		return q, true
	case "set/json":
		if ku.js == nil {
			return nil, false
		}
		b, err := json.Marshal(A.s)
		var raws []json.RawMessage
		if err != nil || json.Unmarshal(b, &raws) != nil || raws == nil {
			return []int{bad}, true
		}
		q := []int{}
		for _, r := range raws {
			q = append(q, ku.js(r))
		}
		return q, true
	case "set/text":
		if ku.tx == nil {
			return nil, false
		}
		return parseList(fmt.Sprintf("%v", A.s), "{", "}", ku.tx), true
	case "set/string":
		if ku.tx == nil {
			return nil, false
		}
		return parseList(A.s.String(), "{", "}", ku.tx), true
	case "map/json":
		if ku.js == nil || vu.js == nil {
			return nil, false
		}
		b, err := json.Marshal(A.m)
		if err != nil {
			return [][]int{{bad, bad}}, true
		}
		q := [][]int{}
		if _, str := any(A.m).(frozen.Map[string, V]); str {
			var o map[string]json.RawMessage
			if json.Unmarshal(b, &o) != nil || o == nil {
				return [][]int{{bad, bad}}, true
			}
			for k, v := range o {
				kb, _ := json.Marshal(k)
				q = append(q, []int{ku.js(kb), vu.js(v)})
			}
			return q, true
		}
		var raws [][]json.RawMessage
		if json.Unmarshal(b, &raws) != nil || raws == nil {
			return [][]int{{bad, bad}}, true
		}
		for _, r := range raws {
			if len(r) != 2 {
				return [][]int{{bad, bad}}, true
			}
			q = append(q, []int{ku.js(r[0]), vu.js(r[1])})
		}
		return q, true
	case "map/text", "map/string":
		if ku.tx == nil || vu.tx == nil {
			return nil, false
		}
		s := A.m.String()
		if how == "text" {
			s = fmt.Sprintf("%v", A.m)
		}
		q := [][]int{}
		if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
			return [][]int{{bad, bad}}, true
		}
		if s = s[1 : len(s)-1]; s == "" {
			return q, true
		}
		for _, p := range strings.Split(s, ", ") {
			kv := strings.Split(p, ": ")
			if len(kv) != 2 {
				return [][]int{{bad, bad}}, true
			}
			q = append(q, []int{ku.tx(kv[0]), vu.tx(kv[1])})
		}
		return q, true
	case "map/gomap":
		if e.toGo == nil {
			return nil, false
		}
		return e.toGo(A.m), true
	}
	return nil, false
}

func parseList(s, open, shut string, tx func(string) int) []int {
	q := []int{}
	if !strings.HasPrefix(s, open) || !strings.HasSuffix(s, shut) {
		return []int{bad}
	}
	if s = s[1 : len(s)-1]; s == "" {
		return q
	}
	for _, p := range strings.Split(s, ", ") {
		q = append(q, tx(p))
	}
	return q
}

// parseWidth reads "{a, b, ...(+n)...}".
func parseWidth(s string, tx func(string) int) ([]int, int) {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return []int{bad}, 0
	}
	s = s[1 : len(s)-1]
	rest := 0
	if i := strings.Index(s, ", ...(+"); i >= 0 && strings.HasSuffix(s, ")...") {
		n, err := strconv.Atoi(s[i+7 : len(s)-4])
		if err != nil {
			return []int{bad}, 0
		}
		rest = n
		s = s[:i]
	}
	q := []int{}
	if s == "" {
		return q, rest
	}
	for _, p := range strings.Split(s, ", ") {
		q = append(q, tx(p))
	}
	return q, rest
}
