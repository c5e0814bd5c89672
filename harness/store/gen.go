package main

import (
	"frozenverif/tr"

	"fmt"
	"math"

	"github.com/arr-ai/frozen"
)

// Profile weighs the calls a random episode makes.
type Profile struct {
	name   string
	w      map[string]int
	obs    int // observe everything after this many calls
	maxN   int // largest universe
	nr     int
	reent  bool
	styles []int // hash layout styles (nil: all)
	kinds  []string
}

var setOps = map[string]int{"new": 3, "with": 8, "without": 8, "where": 5, "smap": 2, "union": 8, "inter": 6,
	"diff": 6, "symdiff": 4, "nunion": 2, "ninter": 2, "rebuild": 3, "viaany": 1}
var mapOps = map[string]int{"newmap": 4, "mwith": 8, "mwithout": 7, "mupdate": 7, "mmerge": 8, "mproject": 3,
	"mwhere": 3, "mmap": 3, "mkeys": 2, "fromkeys": 2, "mrebuild": 3}
var mapQ = map[string]int{"mget": 6, "mmust": 3, "melse": 3, "melsef": 3, "mvalues": 3}
var setQ = map[string]int{"has": 4, "subset": 5, "equal": 6}

func merge(ms ...map[string]int) map[string]int {
	out := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			out[k] += v
		}
	}
	return out
}

func scale(m map[string]int, k int) map[string]int {
	out := map[string]int{}
	for x, v := range m {
		out[x] = v * k
	}
	return out
}

var profiles = map[string]*Profile{
	"sets": {w: merge(setOps, setQ, map[string]int{"hasall": 3, "any": 1}), obs: 12, maxN: 90},
	"maps": {w: merge(mapOps, mapQ, map[string]int{"hasall": 2, "equal": 4, "new": 2, "with": 1, "any": 1}), obs: 12, maxN: 70},
	"persist": {w: merge(setOps, mapOps, map[string]int{"badd": 8, "bput": 8, "brem": 6, "bfinish": 5, "bnew": 3,
		"rmax": 6, "rsum": 6, "rcat": 4, "view": 4, "ordelems": 2, "ordfirstn": 2, "powerset": 1, "groupby": 3,
		"newnest": 2, "nestwith": 2, "nestwithout": 2, "inew": 2, "inext": 4, "ival": 2, "firstn": 1}), obs: 3, maxN: 40, reent: true},
	"equality": {w: merge(map[string]int{"new": 3, "with": 3, "without": 3, "union": 2, "diff": 2, "inter": 2, "where": 2, "rebuild": 14, "equal": 30,
		"subset": 2, "hashes": 12, "newmap": 3, "mwith": 3, "mwithout": 3, "mmap": 2, "mrebuild": 14, "newnest": 5, "nestwith": 5, "nestwithout": 4,
		"nestop": 4, "nesthas": 8, "newnmap": 4, "nmapwith": 4, "nmapwithout": 3, "nmapget": 8, "groupby": 1, "mupdate": 2, "mwhere": 1,
		"mkeys": 1, "fromkeys": 1}), obs: 15, maxN: 40},
	"views": {w: merge(setOps, mapOps, map[string]int{"hasall": 25, "view": 60, "any": 10, "width": 6, "plusv": 8, "mvalues": 3, "mget": 8,
		"has": 4, "badd": 4, "bput": 4, "brem": 2, "bfinish": 4, "bview": 3, "anyn": 1}), obs: 5, maxN: 50},
	"builders": {w: map[string]int{"bnew": 5, "badd": 40, "bput": 40, "brem": 35, "bhas": 10, "bget": 8, "bhasall": 8, "bfinish": 10, "bview": 2,
		"with": 2, "without": 2, "mwith": 2, "mwithout": 2, "union": 1, "diff": 1, "mupdate": 1, "rmax": 1, "where": 1, "groupby": 1}, obs: 25, maxN: 60},
	"select": {w: merge(map[string]int{"new": 5, "with": 2, "without": 2, "union": 2, "smap": 1, "where": 1, "anyn": 10, "firstn": 10, "ordfirstn": 16,
		"ordelems": 8, "first": 8, "iord": 6, "inext": 30, "ival": 6, "any": 3, "rebuild": 2}), obs: 20, maxN: 60},
	"fold": {w: merge(map[string]int{"new": 8, "with": 4, "without": 3, "union": 3, "diff": 1, "rsum": 12, "rmax": 10, "rcat": 14, "groupby": 10,
		"powerset": 2, "powq": 4, "iota": 10, "mask": 5, "fromkeys": 5, "viaany": 5, "mkeys": 1, "rebuild": 2}), obs: 15, maxN: 60},
	"collide": {w: merge(scale(setOps, 3), scale(mapOps, 3), setQ, mapQ, map[string]int{"hasall": 4, "badd": 10, "bput": 10, "brem": 10, "bfinish": 8,
		"bhas": 3, "bget": 3, "bnew": 2, "rsum": 4, "rcat": 4, "rmax": 3, "groupby": 2, "anyn": 2, "firstn": 2, "ordelems": 2, "inew": 2, "inext": 8, "hashes": 1,
		"nesthas": 1, "newnest": 1, "nestwith": 1, "powerset": 1, "view": 2}), obs: 8, maxN: 30, styles: []int{3, 4, 5, 6, 7, 3, 5, 7},
		kinds: []string{"E", "Sm", "Hs", "Pe", "Ifc", "any", "E"}},
	"iters": {w: merge(map[string]int{"new": 2, "newmap": 2, "with": 6, "without": 6, "union": 3, "diff": 3, "mwith": 5, "mwithout": 5, "mupdate": 2,
		"where": 2, "inter": 1, "inew": 20, "iord": 5, "inext": 150, "ival": 30, "badd": 5, "bput": 5, "bfinish": 2, "brem": 3, "mmerge": 2}), obs: 30, maxN: 40},
	// what goroutines do at once with the values they share
	"conc": {w: merge(setOps, mapOps, setQ, mapQ, map[string]int{"hasall": 6, "view": 6, "any": 2, "rsum": 3, "rmax": 2, "rcat": 3, "hashes": 3, "ordelems": 2,
		"firstn": 2, "groupby": 2, "powerset": 1, "nesthas": 3, "nestwith": 2, "nmapget": 3, "inew": 6, "inext": 30, "ival": 6, "badd": 6, "bput": 6, "brem": 4, "bfinish": 4,
		"width": 1, "plusv": 1}), obs: 10, maxN: 40, reent: true},
	// calls that fan out, or take a callback that may be run by several goroutines
	"fan": {w: merge(map[string]int{"new": 3, "with": 1, "without": 1, "where": 16, "union": 12, "inter": 12, "diff": 6, "symdiff": 4, "nunion": 2, "ninter": 2,
		"equal": 14, "subset": 14, "rsum": 10, "rmax": 6, "rcat": 8, "rebuild": 6, "newmap": 4, "mmerge": 14, "mupdate": 8, "mrebuild": 4, "mwith": 1, "mwithout": 1,
		"smap": 1, "mwhere": 1, "groupby": 1, "hasall": 1}), obs: 15, maxN: 70, reent: true},
}

func allKinds() []string {
	return []string{"E", "E", "Sm", "Hs", "Pe", "Ifc", "any", "any", "int", "string", "SetInt", "idint"}
}

// runEpisode drives one episode on a universe chosen by the generator.
func runEpisode(t *tr.Tracer, r *tr.Rng, p *Profile, steps int, only string, style int) string {
	kinds := p.kinds
	if kinds == nil {
		kinds = allKinds()
	}
	kind := kinds[r.N(len(kinds))]
	if only != "" {
		kind = only
	}
	n := 2 + r.N(10)
	switch r.N(4) {
	case 0:
		n = 8 + r.N(p.maxN/3+1)
	case 1:
		n = 8 + r.N(p.maxN-7)
	}
	var lname string
	var h []uint64
	if style < 0 && p.styles != nil {
		style = p.styles[r.N(len(p.styles))]
	}
	if style >= 0 {
		lname, h = layoutStyle(r, n, style)
	} else {
		lname, h = layout(r, n)
	}
	switch kind {
	case "E":
		if r.P(1, 2) {
			_, vh := layout(r, 7)
			return goEnv(t, r, p, steps, uniE(n, lname, h), uniE(7, "v", vh), nil)
		}
		return goEnv(t, r, p, steps, uniE(n, lname, h), uniSmallInt(8), withExt[E, int])
	case "Sm":
		if r.P(1, 4) {
			return goEnv(t, r, p, steps, uniSm(n, lname, h), uniNulls(), cmpEnv[Sm, any])
		}
		return goEnv(t, r, p, steps, uniSm(n, lname, h), uniSmallInt(8), cmpEnv[Sm, int])
	case "Hs":
		return goEnv(t, r, p, steps, uniHs(n, lname, h), uniSmallInt(8), cmpEnv[Hs, int])
	case "Pe":
		return goEnv(t, r, p, steps, uniPe(n, lname, h), uniPt(8), nil)
	case "Ifc":
		return goEnv(t, r, p, steps, uniIfc(n, lname, h), uniSmallInt(6), nil)
	case "any":
		if r.P(1, 2) {
			return goEnv(t, r, p, steps, uniAny(n, lname, h), uniVals(), withExt[any, any])
		}
		return goEnv(t, r, p, steps, uniAny(n, lname, h), uniAny(10, "v", h2(r, 10)), withExt[any, any])
	case "int":
		return goEnv(t, r, p, steps, uniInt(r, n), uniString(r, 8), cmpEnv[int, string])
	case "idint":
		return goEnv(t, r, p, steps, uniSmallInt(n+10), uniSmallInt(8), func(e *Env[int, int]) {
			cmpEnv(e)
			withExt(e)
			e.mask = frozen.NewSetFromMask64
			e.iota = func(a, b, c int) frozen.Set[int] {
				if c == 1 && a == 0 {
					return frozen.Iota(b)
				} else if c == 1 {
					return frozen.Iota2(a, b)
				}
				return frozen.Iota3(a, b, c)
			}
		})
	case "string":
		if r.P(1, 3) {
			return goEnv(t, r, p, steps, uniString(r, n), uniNulls(), cmpEnv[string, any])
		}
		return goEnv(t, r, p, steps, uniString(r, n), uniSmallInt(8), cmpEnv[string, int])
	case "SetInt":
		return goEnv(t, r, p, steps, uniSetInt(n), uniSmallInt(7), nil)
	}
	panic("harness: unknown kind " + kind)
}

func h2(r *tr.Rng, n int) []uint64 { _, h := layout(r, n); return h }

func cmpEnv[T comparable, V any](e *Env[T, V]) {
	e.fromGo = func(kvs [][]int) frozen.Map[T, V] {
		m := map[T]V{}
		for _, kv := range kvs {
			m[e.ku.mk(kv[0])] = e.vu.mk(kv[1])
		}
		f := frozen.NewMapFromGoMap(m)
		for k := range m {
			m[k] = e.vu.mk(0)
		}
		return f
	}
	e.toGo = func(m frozen.Map[T, V]) [][2]int {
		q := [][2]int{}
		g := frozen.MapToGoMap(m)
		for k, v := range g {
			q = append(q, [2]int{e.ku.dec(k), e.vu.dec(v)})
		}
		for k := range g {
			delete(g, k)
		}
		return q
	}
}

func goEnv[T, V any](t *tr.Tracer, r *tr.Rng, p *Profile, steps int, ku *Uni[T], vu *Uni[V], setup func(*Env[T, V])) string {
	nr := p.nr
	if nr == 0 {
		nr = maxRegs
	}
	e := newEnv(t, r, ku, vu, nr, maxBld, maxItr)
	e.reent = p.reent
	e.cb.busy = p.reent
	if setup != nil {
		setup(e)
	}
	what := fmt.Sprintf("%s x %s n=%d", ku.name, vu.name, ku.n)
	if conc > 0 {
		return e.concurrent(p, steps, setup, what)
	}
	t.Ev(tr.M{"op": "reset", "what": what})
	e.guard(func() { e.random(p, steps) })
	return what
}

func (e *Env[T, V]) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopEpisode); !ok {
				panic(x)
			}
		}
	}()
	f()
}

// conc: number of goroutines that share the values of an episode (0: none)
var conc int

// shared makes the values the goroutines of a concurrent episode share.
var shared = &Profile{name: "shared", w: merge(setOps, mapOps, map[string]int{"newnest": 3, "nestwith": 2, "newnmap": 2}), maxN: 40}

func (e *Env[T, V]) concurrent(p *Profile, steps int, setup func(*Env[T, V]), what string) string {
	main := e.t
	e.t = tr.NewBuf()
	e.reent = false
	e.guard(func() { e.random(shared, 25) })
	seed := e.r.U64()
	var x0 *ext[T, V]
	if x, is := e.ext.(*ext[T, V]); is {
		x0 = x
	}
	main.Fork(conc, tr.M{"op": "reset", "what": "conc " + what}, e.t.Bytes(), func(g int, t *tr.Tracer) {
		c := newEnv(t, tr.NewRng(seed+uint64(g)), e.ku, e.vu, len(e.reg), len(e.bld), len(e.itr))
		c.reent = p.reent
		c.cb.busy = p.reent
		if setup != nil {
			setup(c)
		}
		copy(c.reg, e.reg)
		if x0 != nil {
			x := c.ext.(*ext[T, V])
			copy(x.n, x0.n)
			copy(x.nm, x0.nm)
		}
		c.started = true
		c.guard(func() { c.random(p, steps) })
	})
	return what
}

const (
	maxRegs = 8
	maxBld  = 3
	maxItr  = 4
)

// pick returns a register of the kind, or -1.
func (e *Env[T, V]) pick(k string) int {
	var c []int
	for i := range e.reg {
		if e.reg[i].k == k {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[e.r.N(len(c))]
}

func (e *Env[T, V]) pickBld(k string) int {
	var c []int
	for i := range e.bld {
		if e.bld[i].k == k {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[e.r.N(len(c))]
}

func (e *Env[T, V]) ranks() []int {
	r := e.r
	f := make([]int, e.ku.n)
	switch r.N(4) {
	case 0: // total order
		copy(f, r.Perm(e.ku.n))
	case 1: // everything ties
	default:
		for i := range f {
			f[i] = r.N(1 + e.ku.n/2)
		}
	}
	return f
}

func (e *Env[T, V]) randKVs() [][]int {
	r := e.r
	kvs := [][]int{}
	for _, k := range r.Subset(e.ku.n) {
		kvs = append(kvs, []int{k, r.N(e.vu.n)})
	}
	return kvs
}

func (e *Env[T, V]) lin() []int {
	r := e.r
	m := e.vu.n
	return []int{r.N(7), r.N(7), r.N(7), r.N(7), m, r.N(m + 1)}
}

func (e *Env[T, V]) random(p *Profile, steps int) {
	r := e.r
	total := 0
	names := make([]string, 0, len(p.w))
	for _, n := range opOrder {
		if p.w[n] > 0 {
			names = append(names, n)
			total += p.w[n]
		}
	}
	if len(names) != len(p.w) {
		panic(fmt.Sprintf("harness: profile names an unknown call: %v", p.w))
	}
	// start with something in hand
	for i := 0; i < 3 && !e.started; i++ {
		e.Do(Op{Op: "new", O: i, Q: r.Subset(e.ku.n)})
	}
	if p.w["mwith"] > 0 && !e.started {
		for i := 3; i < 5; i++ {
			e.Do(Op{Op: "newmap", O: i, KV: e.randKVs()})
		}
	}
	for s := 0; s < steps; s++ {
		k := r.N(total)
		name := ""
		for _, n := range names {
			if k -= p.w[n]; k < 0 {
				name = n
				break
			}
		}
		for rep := 0; ; rep++ {
			if op, ok := e.gen(name); ok {
				e.Do(op)
			}
			// removals, additions and iteration steps often come in runs
			if rep > 6 || !runs[name] || r.P(1, 2) {
				break
			}
		}
		if p.obs > 0 && s%p.obs == p.obs-1 {
			e.Do(Op{Op: "obs"})
		}
	}
	e.Do(Op{Op: "obs"})
}

var runs = map[string]bool{"badd": true, "bput": true, "brem": true, "inext": true, "without": true, "with": true, "mwith": true, "mwithout": true}

var opOrder = []string{"new", "iota", "mask", "with", "without", "where", "smap", "union", "inter", "diff", "symdiff", "nunion", "ninter", "rebuild", "viaany",
	"anyn", "firstn", "has", "equal", "subset", "any", "ordfirstn", "ordelems", "first", "rsum", "rmax", "rcat", "hashes", "hasall", "view", "width", "plusv",
	"newnest", "nestwith", "nestwithout", "nestop", "nesthas", "powerset", "powq", "newnmap", "nmapwith", "nmapwithout", "nmapget",
	"newmap", "mwith", "mwithout", "mupdate", "mmerge", "mproject", "mwhere", "mmap", "mkeys", "mvalues", "fromkeys", "mrebuild", "groupby", "mget", "mmust",
	"melse", "melsef", "bnew", "badd", "bput", "brem", "bhas", "bget", "bhasall", "bview", "bfinish", "inew", "iord", "inext", "ival"}

func (e *Env[T, V]) memberOr(a int) int {
	r := e.r
	// half the time aim at an element that is there
	if r.P(1, 2) {
		switch e.reg[a].k {
		case "set":
			if c := e.reg[a].s.Count(); c > 0 && c < 5000 {
				q := e.iterSet(e.reg[a].s)
				if len(q) > 0 {
					if x := q[r.N(len(q))]; x >= 0 && x < e.ku.n {
						return x
					}
				}
			}
		case "map":
			if c := e.reg[a].m.Count(); c > 0 && c < 5000 {
				q := e.iterMap(e.reg[a].m)
				if len(q) > 0 {
					if x := q[r.N(len(q))][0]; x >= 0 && x < e.ku.n {
						return x
					}
				}
			}
		}
	}
	return r.N(e.ku.n)
}

func (e *Env[T, V]) gen(name string) (Op, bool) {
	r := e.r
	n := e.ku.n
	op := Op{Op: name, O: r.N(len(e.reg)), X: r.N(n), Y: r.N(e.vu.n)}
	if e.vu.nohash && (name == "mvalues" || name == "groupby") {
		return op, false
	}
	need := func(k string) bool {
		op.A = e.pick(k)
		return op.A >= 0
	}
	need2 := func(k string) bool {
		op.A, op.B = e.pick(k), e.pick(k)
		return op.A >= 0
	}
	setOrMap := func() bool {
		op.A = r.N(len(e.reg))
		for i := 0; i < len(e.reg); i++ {
			if k := e.reg[op.A].k; k == "set" || k == "map" {
				return true
			}
			op.A = (op.A + 1) % len(e.reg)
		}
		return false
	}
	ok := true
	switch name {
	case "new":
		op.Q = r.Subset(n)
		if r.P(1, 3) && len(op.Q) > 0 {
			op.Q = append(op.Q, op.Q[:r.N(len(op.Q))]...)
		}
	case "mask":
		lim := n
		if lim > 64 {
			lim = 64
		}
		op.Q = r.Subset(lim)
	case "iota":
		op.N, op.I, op.Y = r.N(n), r.N(n), r.Pick(1, 1, 2, 3, 5, 0, -1, -2, -7)
		if op.Y == 1 && r.P(1, 2) {
			op.N = 0
		}
	case "with", "without":
		if ok = need("set"); ok {
			op.X = e.memberOr(op.A)
		}
	case "where":
		ok = need("set")
		op.Q = r.Subset(n)
	case "smap":
		ok = need("set")
		op.F = make([]int, n)
		m := 1 + r.N(n)
		for i := range op.F {
			op.F[i] = (i*r.Pick(1, 1, 3) + r.N(2)) % m
		}
	case "union", "inter", "diff", "symdiff", "subset":
		ok = need2("set")
	case "nunion", "ninter":
		k := r.N(5)
		for i := 0; i < k; i++ {
			if a := e.pick("set"); a >= 0 {
				op.As = append(op.As, a)
			}
		}
		if op.As == nil {
			op.As = []int{}
		}
	case "rebuild", "viaany":
		ok = need("set")
		op.N = r.N(60)
	case "mrebuild":
		ok = need("map")
		op.N = r.N(60)
	case "anyn", "firstn", "ordfirstn":
		ok = need("set")
		op.N = r.Pick(0, 1, 2, 3, r.N(n+1), r.N(n+1), n, n+5)
		if r.P(1, 10) {
			op.N = r.Pick(1<<62, math.MaxInt)
		}
		op.F = e.ranks()
	case "first", "ordelems":
		ok = need("set")
		op.F = e.ranks()
	case "has":
		if ok = need("set"); ok {
			op.X = e.memberOr(op.A)
		}
	case "equal":
		k := []string{"set", "map", "nest", "nmap", "set", "map"}[r.N(6)]
		if ok = need2(k); ok && r.P(1, 3) {
			// compare with the most similar register there is
			for i := range e.reg {
				if i != op.A && e.reg[i].k == k && e.sameCount(i, op.A) {
					op.B = i
				}
			}
		}
	case "any":
		ok = setOrMap()
	case "rsum", "rmax", "rcat":
		ok = need("set")
		if name == "rcat" && e.ku.cat == nil {
			op.Op = "rsum"
		}
		op.N = r.N(4)
		op.F = e.ranks()
	case "hashes":
		op.N = r.Pick(0, 0, 1, 7, r.N(1<<30))
	case "hasall":
		ok = setOrMap()
	case "view":
		if ok = setOrMap(); ok {
			if e.reg[op.A].k == "set" {
				op.How = []string{"elements", "json", "text", "string"}[r.N(4)]
			} else {
				op.How = []string{"json", "text", "string", "gomap"}[r.N(4)]
			}
		}
	case "width":
		ok = need("set")
		op.N = r.Pick(1, 2, 3, 5, r.N(n+2))
	case "plusv":
		ok = setOrMap()
	case "newnest":
		op.As = []int{}
		for i := r.N(6); i > 0; i-- {
			if a := e.pick("set"); a >= 0 {
				op.As = append(op.As, a)
			}
		}
	case "nestwith", "nestwithout", "nesthas":
		op.A, op.B = e.pick("nest"), e.pick("set")
		ok = op.A >= 0 && op.B >= 0
	case "nestop":
		ok = need2("nest")
		op.How = []string{"union", "inter", "diff"}[r.N(3)]
	case "powerset":
		ok = need("set")
		if ok && e.reg[op.A].s.Count() > 6 {
			ok = false
		}
	case "powq":
		ok = need("set") && e.reg[op.A].s.Count() <= 10
	case "newnmap":
		op.KV = [][]int{}
		for i := r.N(6); i > 0; i-- {
			if a := e.pick("set"); a >= 0 {
				op.KV = append(op.KV, []int{a, r.N(e.vu.n)})
			}
		}
		op.N = r.N(4)
	case "nmapwith", "nmapwithout", "nmapget":
		op.A, op.B = e.pick("nmap"), e.pick("set")
		op.X = r.N(e.vu.n)
		ok = op.A >= 0 && op.B >= 0
	case "newmap":
		op.KV = e.randKVs()
		if r.P(1, 3) && e.fromGo != nil {
			op.How = "gomap"
		} else if r.P(1, 2) && len(op.KV) > 0 {
			for i := r.N(5); i > 0; i-- {
				op.KV = append(op.KV, []int{op.KV[r.N(len(op.KV))][0], r.N(e.vu.n)})
			}
		}
	case "mwith", "mwithout", "mget", "mmust", "melse", "melsef":
		if ok = need("map"); ok {
			op.X = e.memberOr(op.A)
		}
	case "mupdate", "mmerge":
		ok = need2("map")
		op.C = e.lin()
	case "mproject":
		ok = need("map")
		op.Q = r.Subset(n)
	case "mwhere", "mmap":
		ok = need("map")
		op.C = e.lin()
	case "mkeys", "mvalues":
		ok = need("map")
	case "fromkeys", "groupby":
		ok = need("set")
		op.F = make([]int, n)
		for i := range op.F {
			op.F[i] = r.N(e.vu.n)
		}
		op.N = r.N(3)
	case "bnew":
		op.I = r.N(len(e.bld))
		op.How = []string{"set", "map"}[r.N(2)]
		op.N = r.Pick(-1, 0, 1, 10, 100)
	case "badd":
		op.I = e.pickBld("set")
		ok = op.I >= 0
	case "bput", "bget":
		op.I = e.pickBld("map")
		ok = op.I >= 0
	case "brem", "bhas", "bhasall", "bview", "bfinish":
		op.I = r.N(len(e.bld))
	case "inew":
		op.I = r.N(len(e.itr))
		ok = setOrMap()
	case "iord":
		op.I = r.N(len(e.itr))
		ok = need("set")
		op.F = e.ranks()
	case "inext", "ival":
		op.I = r.N(len(e.itr))
	}
	return op, ok
}

func (e *Env[T, V]) sameCount(i, j int) bool {
	a, b := &e.reg[i], &e.reg[j]
	switch a.k {
	case "set":
		return a.s.Count() == b.s.Count()
	case "map":
		return a.m.Count() == b.m.Count()
	}
	return false
}
