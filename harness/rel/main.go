// rel drives frozen/pkg/rel and records what it does.
package main

import (
	"flag"
	"fmt"
	"io"
	"log"
	"sort"
	"strconv"
	"time"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"frozenverif/tr"
)

const nr = 6

// Ea is identified by its Equal method; hashes collide.
type Ea struct{ ID, Tag int }

func (e Ea) Equal(a any) bool          { o, is := a.(Ea); return is && e.ID == o.ID }
func (e Ea) Hash(seed uintptr) uintptr { return uintptr(e.ID%2)<<61 + seed }

// header of a relation: attribute -> nil (atom) or the header of the nested relation
type header map[string]header

type env struct {
	t    *tr.Tracer
	r    *tr.Rng
	kind int
	vmax int
	reg  []rel.Relation
	h    []header
}

var attrs = []string{"a", "b", "c", "d", "e"}

func (e *env) mk(id int) any {
	switch e.kind {
	case 0:
		return id
	case 1:
		return Ea{id, int(tr.NextTag())}
	case 2:
		return strconv.Itoa(id)
	}
	switch id % 3 {
	case 0:
		return id
	case 1:
		return strconv.Itoa(id)
	}
	return Ea{id, int(tr.NextTag())}
}

func (e *env) val(v any) any {
	switch v := v.(type) {
	case int:
		return []any{0, v}
	case string:
		i, err := strconv.Atoi(v)
		if err != nil {
			i = -1
		}
		return []any{0, i}
	case Ea:
		return []any{0, v.ID}
	case rel.Relation:
		return []any{1, e.rows(v)}
	}
	return []any{0, -1}
}

func (e *env) tuple(t rel.Tuple) []any {
	q := []any{}
	for i := t.Range(); i.Next(); {
		q = append(q, []any{i.Key(), e.val(i.Value())})
	}
	return q
}

func (e *env) rows(r rel.Relation) []any {
	q := []any{}
	for i := r.Range(); i.Next() && len(q) < 20000; {
		q = append(q, e.tuple(i.Value()))
	}
	return q
}

type stop struct{}

func (e *env) do(op string, f func(ev tr.M)) {
	e.t.Begin(op)
	ev := tr.M{"op": op}
	pan, msg := tr.Try(func() { f(ev) })
	if pan {
		e.t.Ev(tr.M{"op": "panic", "in": op, "msg": msg, "args": fmt.Sprint(ev)})
		panic(stop{})
	}
	e.t.Ev(ev)
}

func (e *env) put(ev tr.M, o int, r rel.Relation, h header) {
	e.reg[o], e.h[o] = r, h
	ev["o"], ev["c"], ev["e"], ev["it"] = o, r.Count(), r.IsEmpty(), e.rows(r)
}

func keys(h header) []string {
	q := []string{}
	for k := range h {
		q = append(q, k)
	}
	sort.Strings(q)
	return q
}

func same(a, b header) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, has := b[k]
		if !has || (v == nil) != (w == nil) || v != nil && !same(v, w) {
			return false
		}
	}
	return true
}

func (e *env) pickAttrs(from []string, max int) []string {
	p := e.r.Perm(len(from))
	k := e.r.N(max + 1)
	if k > len(p) {
		k = len(p)
	}
	q := []string{}
	for _, i := range p[:k] {
		q = append(q, from[i])
	}
	return q
}

func (e *env) newRel(o int, h []string, n int) {
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = []int{}
		for range h {
			rows[i] = append(rows[i], e.r.N(e.vmax))
		}
	}
	e.fromRows(o, h, rows)
}

func (e *env) fromRows(o int, h []string, rows [][]int) {
	e.do("rnew", func(ev tr.M) {
		args := make([][]any, 0, len(rows))
		hd := header{}
		for _, a := range h {
			hd[a] = nil
		}
		for _, row := range rows {
			arg := []any{}
			for _, x := range row {
				arg = append(arg, e.mk(x))
			}
			args = append(args, arg)
		}
		ev["h"], ev["q"] = h, rows
		var R rel.Relation
		if e.r.P(1, 2) {
			R = rel.New(h, args...)
		} else {
			var b rel.RelationBuilder
			for _, arg := range args {
				var kvs []frozen.KeyValue[string, any]
				for i, x := range arg {
					kvs = append(kvs, frozen.KV(h[i], x))
				}
				b.Add(rel.NewTuple(kvs...))
			}
			R = b.Finish()
		}
		e.put(ev, o, R, hd)
	})
}

// a tuple for register a: one of its own, or another of the same header
func (e *env) aTuple(a int) (rel.Tuple, bool) {
	if es := e.reg[a].Elements(); len(es) > 0 && e.r.P(1, 2) {
		return es[e.r.N(len(es))], true
	}
	t := rel.NewTuple()
	for _, k := range keys(e.h[a]) {
		if e.h[a][k] != nil {
			return t, false
		}
		t = t.With(k, e.mk(e.r.N(e.vmax)))
	}
	return t, true
}

func (e *env) size(as []int) int {
	n := 1
	for _, a := range as {
		n *= e.reg[a].Count() + 1
	}
	return n
}

// clash: v and w cannot both be the header of an attribute
func clash(v, w header) bool {
	return (v == nil) != (w == nil) || v != nil && !same(v, w)
}

func (e *env) join(o int, as []int) {
	if e.size(as) > 3000 {
		return
	}
	h := header{}
	for _, a := range as {
		for k, v := range e.h[a] {
			if w, has := h[k]; has && clash(v, w) {
				return
			}
			h[k] = v
		}
	}
	if len(h) > 9 {
		return
	}
	e.do("rjoin", func(ev tr.M) {
		ev["as"] = as
		var rs []rel.Relation
		for _, a := range as {
			rs = append(rs, e.reg[a])
		}
		e.put(ev, o, rel.Join(rs...), h)
	})
}

func (e *env) product(o int, as []int) {
	h := header{}
	for _, a := range as {
		for k, v := range e.h[a] {
			if _, has := h[k]; has {
				return
			}
			h[k] = v
		}
	}
	if e.size(as) > 1500 || len(h) > 9 {
		return
	}
	e.do("rprod", func(ev tr.M) {
		ev["as"] = as
		var rs []rel.Relation
		for _, a := range as {
			rs = append(rs, e.reg[a])
		}
		e.put(ev, o, rel.CartesianProduct(rs...), h)
	})
}

func (e *env) project(o, a int, q []string) {
	h := header{}
	for _, k := range q {
		if v, has := e.h[a][k]; has {
			h[k] = v
		}
	}
	e.do("rproject", func(ev tr.M) {
		ev["a"], ev["q"] = a, q
		e.put(ev, o, rel.Project(e.reg[a], q...), h)
	})
}

func (e *env) nest(o, a int, names []string, qs [][]string) {
	gone := map[string]bool{}
	for _, q := range qs {
		for _, k := range q {
			gone[k] = true
		}
	}
	h := header{}
	for k, v := range e.h[a] {
		if !gone[k] {
			h[k] = v
		}
	}
	for i, q := range qs {
		if _, has := h[names[i]]; has {
			return
		}
		nh := header{}
		for _, k := range q {
			if v, has := e.h[a][k]; has {
				nh[k] = v
			}
		}
		h[names[i]] = nh
	}
	e.do("rnest", func(ev tr.M) {
		groups := []any{}
		var mb frozen.MapBuilder[string, frozen.Set[string]]
		for i, q := range qs {
			groups = append(groups, []any{names[i], q})
			mb.Put(names[i], frozen.NewSet(q...))
		}
		ev["a"], ev["g"] = a, groups
		e.put(ev, o, rel.Nest(e.reg[a], mb.Finish()), h)
	})
}

func (e *env) unnest(o, a int, at string) {
	h := header{}
	for k, v := range e.h[a] {
		if k != at {
			h[k] = v
		}
	}
	for k, v := range e.h[a][at] {
		if w, has := h[k]; has && clash(v, w) {
			return
		}
		h[k] = v
	}
	e.do("runnest", func(ev tr.M) {
		ev["a"], ev["x"] = a, at
		e.put(ev, o, rel.Unnest(e.reg[a], at), h)
	})
}

func (e *env) setOp(o int, how string, a, b int) {
	e.do("rset", func(ev tr.M) {
		ev["how"], ev["a"], ev["b"] = how, a, b
		A, B := e.reg[a], e.reg[b]
		switch how {
		case "union":
			e.put(ev, o, A.Union(B), e.h[a])
		case "inter":
			e.put(ev, o, A.Intersection(B), e.h[a])
		default:
			e.put(ev, o, A.Difference(B), e.h[a])
		}
	})
}

func (e *env) equal(a, b int) {
	e.do("requal", func(ev tr.M) {
		ev["a"], ev["b"] = a, b
		A, B := e.reg[a], e.reg[b]
		ev["r"] = []bool{A.Equal(B), B.Equal(A)}
	})
}

func (e *env) step() {
	r := e.r
	o, a, b := r.N(nr), r.N(nr), r.N(nr)
	switch r.N(16) {
	case 0, 1:
		e.newRel(o, e.pickAttrs(attrs, 4), r.Pick(0, 1, 2, 5, 9, 20, 40))
	case 2, 3, 4, 5:
		as := []int{a, b}
		for r.P(1, 3) && len(as) < 4 {
			as = append(as, r.N(nr))
		}
		if r.P(1, 12) {
			as = as[:1]
		}
		e.join(o, as)
	case 6:
		as := []int{a}
		if a != b {
			as = append(as, b)
		}
		if r.P(1, 6) {
			as = []int{}
		}
		e.product(o, as)
	case 7, 8:
		from := keys(e.h[a])
		if r.P(1, 4) {
			from = append(from, "zz")
		}
		q := e.pickAttrs(from, 5)
		e.project(o, a, q)
	case 9, 10, 11:
		if len(e.h[a]) > 7 || e.reg[a].Count() > 80 {
			return
		}
		n := 1 + r.N(3)
		if r.P(1, 10) {
			n = 0
		}
		all := keys(e.h[a])
		left := map[string]bool{}
		for _, k := range all {
			left[k] = true
		}
		var names []string
		var qs [][]string
		disjoint := r.P(1, 2)
		for i := 0; i < n; i++ {
			var from []string
			for _, k := range all {
				if left[k] || !disjoint {
					from = append(from, k)
				}
			}
			q := e.pickAttrs(from, 3)
			if r.P(1, 12) {
				q = append(q, "zz")
			}
			for _, k := range q {
				delete(left, k)
			}
			qs = append(qs, q)
		}
		for i, q := range qs {
			name := "n" + strconv.Itoa(i)
			if r.P(1, 4) && len(q) > 0 {
				name = q[0]
			}
			if r.P(1, 4) {
				name = "m" + strconv.Itoa(r.N(3))
			}
			names = append(names, name)
		}
		e.nest(o, a, names, qs)
	case 12, 13:
		// often a nested attribute
		var nested []string
		for _, k := range keys(e.h[a]) {
			if e.h[a][k] != nil {
				nested = append(nested, k)
			}
		}
		at := "zz"
		if len(nested) == 0 && !r.P(1, 6) {
			return
		}
		if len(nested) > 0 {
			at = nested[r.N(len(nested))]
		}
		e.unnest(o, a, at)
	case 14:
		if r.P(1, 2) {
			t, ok := e.aTuple(a)
			if !ok {
				return
			}
			op := []string{"rwith", "rwithout", "rhas"}[r.N(3)]
			e.do(op, func(ev tr.M) {
				ev["a"], ev["t"] = a, e.tuple(t)
				switch op {
				case "rwith":
					e.put(ev, o, e.reg[a].With(t), e.h[a])
				case "rwithout":
					e.put(ev, o, e.reg[a].Without(t), e.h[a])
				default:
					ev["r"] = e.reg[a].Has(t)
				}
			})
			return
		}
		if !same(e.h[a], e.h[b]) {
			return
		}
		how := []string{"union", "inter", "diff"}[r.N(3)]
		e.setOp(o, how, a, b)
	default:
		e.equal(a, b)
		if r.P(1, 4) {
			e.do("rhash", func(ev tr.M) {
				hs := [][]any{}
				for i, R := range e.reg {
					hs = append(hs, []any{i, strconv.FormatUint(uint64(R.Hash(7)), 16)})
				}
				ev["hs"] = hs
			})
		}
	}
}

func (e *env) all() {
	e.do("rall", func(ev tr.M) {
		os := []any{}
		for i, R := range e.reg {
			os = append(os, []any{i, e.rows(R)})
		}
		ev["os"] = os
	})
}

func newEnv(t *tr.Tracer, r *tr.Rng, vmax int) *env {
	e := &env{t: t, r: r, kind: r.N(4), vmax: vmax, reg: make([]rel.Relation, nr), h: make([]header, nr)}
	for j := range e.h {
		e.h[j] = header{}
	}
	return e
}

func guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func main() {
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "trace file")
	eps := flag.Int("eps", 20, "episodes")
	steps := flag.Int("steps", 60, "calls per episode")
	sync := flag.Bool("sync", false, "flush after every event")
	hang := flag.Duration("hang", 60*time.Second, "report a call that takes longer")
	mode := flag.String("mode", "random", "random or small")
	in := flag.String("in", "", "relations to work on")
	part := flag.Int("part", 0, "which part of them")
	parts := flag.Int("parts", 1, "how many parts there are")
	sample := flag.Int("sample", 1, "one in so many pairs")
	flag.Parse()
	log.SetOutput(io.Discard)
	r := tr.NewRng(*seed)
	tr.SeedHash(*seed)
	t := tr.NewTracer(*out, *sync, *hang)
	t.Ev(tr.M{"op": "head", "nr": nr})
	if *mode == "small" {
		runSmall(t, r, *in, *part, *parts, *sample)
		t.Close()
		return
	}
	for i := 0; i < *eps; i++ {
		e := newEnv(t, r, r.Pick(1, 2, 3, 6, 30))
		t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("kind=%d vmax=%d", e.kind, e.vmax)})
		guard(func() {
			e.newRel(0, e.pickAttrs(attrs, 3), r.Pick(3, 9, 30))
			e.newRel(1, e.pickAttrs(attrs, 3), r.Pick(3, 9, 30))
			e.newRel(2, e.pickAttrs(attrs, 4), r.Pick(3, 9, 30))
			for s := 0; s < *steps; s++ {
				e.step()
				if s%20 == 19 {
					e.all()
				}
			}
			e.all()
		})
	}
	t.Close()
}
