package main

import (
	"frozenverif/tr"

	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/frozen"
)

// Uni ties the ids 0..n-1 used in traces to real Go values of type T. mk makes
// a fresh representative of an id; dec recognises any representative.
type Uni[T any] struct {
	name string
	n    int
	mk   func(id int) T
	dec  func(v T) int
	js   func(raw json.RawMessage) int // nil: no JSON decoding
	tx   func(s string) int            // nil: no text decoding

	nohash bool // some values cannot be hashed: they may only be stored under keys

	cat   func(elems []T) T // a closed concatenation, for Reduce
	uncat func(v T) []int
}

const bad = -1

// ---------------------------------------------------------------- layouts

// layout assigns hash values to ids. The trie reads 3 bits per level from the
// top; 22 levels; equal values collide totally.
func layout(r *tr.Rng, n int) (string, []uint64) {
	style := r.N(9)
	return layoutStyle(r, n, style)
}

func layoutStyle(r *tr.Rng, n, style int) (string, []uint64) {
	h := make([]uint64, n)
	name := ""
	switch style {
	case 0: // good hashes
		name = "good"
		for i := range h {
			h[i] = tr.Mix(uint64(i) + r.Salt())
		}
	case 1: // few bits per level
		name = "fewbits"
		mask := uint64(0x9249249249249249) // one bit of each level
		sh := uint(r.N(3))
		for i := range h {
			h[i] = tr.Mix(uint64(i)+r.Salt()) & (mask >> sh)
		}
	case 2: // shared prefix, distinct below
		lv := r.N(21)
		name = fmt.Sprintf("prefix%d", lv)
		p := tr.Mix(r.U64())
		for i := range h {
			b := uint(3 * lv)
			h[i] = p&^(^uint64(0)>>b) | tr.Mix(uint64(i)+r.Salt())>>b
		}
	case 3: // all collide
		name = "allcollide"
		p := tr.Mix(r.U64())
		for i := range h {
			h[i] = p
		}
	case 4: // groups of total collisions
		g := 2 + r.N(5)
		name = fmt.Sprintf("groups%d", g)
		base := r.U64()
		for i := range h {
			h[i] = tr.Mix(base + uint64(i/g))
		}
	case 5: // groups of collisions sharing a long prefix
		g := 1 + r.N(5)
		lv := 15 + r.N(7)
		name = fmt.Sprintf("deepgroups%d@%d", g, lv)
		p := tr.Mix(r.U64())
		for i := range h {
			b := uint(3 * lv)
			if b > 63 {
				b = 63
			}
			h[i] = p&^(^uint64(0)>>b) | tr.Mix(uint64(i/g)+p)>>b
		}
	case 6: // differ in the last bits only
		name = "lastbits"
		p := tr.Mix(r.U64()) &^ 31
		for i := range h {
			h[i] = p | uint64(i&31)
		}
	case 7: // mixture
		name = "mixture"
		p := tr.Mix(r.U64())
		for i := range h {
			switch r.N(4) {
			case 0:
				h[i] = p
			case 1:
				b := uint(3 * r.N(22))
				h[i] = p&^(^uint64(0)>>b) | tr.Mix(uint64(i)+p)>>b
			case 2:
				if i > 0 {
					h[i] = h[r.N(i)]
				}
			default:
				h[i] = tr.Mix(uint64(i) ^ p)
			}
		}
	case 8: // two root children at most, both crowded
		name = "tworoots"
		for i := range h {
			h[i] = tr.Mix(uint64(i)+r.Salt())>>3 | uint64(i&1)<<61
			if r.P(1, 3) {
				h[i] = uint64(i&1) << 61
			}
		}
	}
	return name, h
}

func seeded(h uint64, seed uintptr) uintptr {
	if seed == 0 {
		return uintptr(h)
	}
	return uintptr(tr.Mix(h ^ uint64(seed)*0x9E3779B97F4A7C15))
}

// ---------------------------------------------------------- element types

// E identifies elements by its Equal method; Tag and Acc are invisible to it.
type E struct {
	ID  int32
	H   uint64
	Tag int32
	acc []int // also makes the type uncomparable with ==
}

func (e E) Equal(o E) bool            { return e.ID == o.ID }
func (e E) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }
func (e E) String() string            { return fmt.Sprintf("e%d", e.ID) }

// Sm identifies elements by its Same method.
type Sm struct {
	ID  int32
	H   uint64
	Tag int32
}

func (e Sm) Same(a any) bool           { o, is := a.(Sm); return is && e.ID == o.ID }
func (e Sm) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }
func (e Sm) String() string            { return fmt.Sprintf("m%d", e.ID) }

// Hs has a hash of its own and is compared with ==.
type Hs struct {
	ID int32
	H  uint64
}

func (e Hs) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }
func (e Hs) String() string            { return fmt.Sprintf("h%d", e.ID) }

// Pe is a pointer element with its own equality.
type Pe struct {
	ID int32
	H  uint64
}

func (e *Pe) Equal(o *Pe) bool          { return e.ID == o.ID }
func (e *Pe) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }
func (e *Pe) String() string            { return fmt.Sprintf("p%d", e.ID) }

// Ifc is an interface element type with its own equality.
type Ifc interface {
	Equal(o Ifc) bool
	Hash(seed uintptr) uintptr
	Id() int
}
type IfA struct {
	ID  int32
	H   uint64
	Tag int32
}
type IfB struct {
	ID int64
	H  uint64
}

func (e IfA) Id() int                   { return int(e.ID) }
func (e IfB) Id() int                   { return int(e.ID) }
func (e IfA) Equal(o Ifc) bool          { return e.Id() == o.Id() }
func (e IfB) Equal(o Ifc) bool          { return e.Id() == o.Id() }
func (e IfA) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }
func (e IfB) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }

// Ea is comparable with anything (Equaler[any]).
type Ea struct {
	ID  int32
	H   uint64
	Tag int32
	_   []int // not comparable with ==
}

func (e Ea) Equal(a any) bool          { o, is := a.(Ea); return is && e.ID == o.ID }
func (e Ea) Hash(seed uintptr) uintptr { return seeded(e.H, seed) }

// uniVals has the zero-like values one may store under a key.
func uniVals() *Uni[any] {
	u := byValue[any]("vals", []any{nil, 0, "", false, 0.0, (*int)(nil), struct{}{}, Pt{}, int8(0), true, [0]int{}})
	u.js, u.tx, u.nohash = nil, nil, true
	return u
}

// uniNulls has the zero-like values that any rendering can tell apart.
func uniNulls() *Uni[any] {
	u := byValue[any]("nulls", []any{nil, 0, "", false, true, struct{}{}, [0]int{}, 1, "null", "0.0"})
	js := map[string]int{}
	for i := 0; i < u.n; i++ {
		b, _ := json.Marshal(u.mk(i))
		js[string(b)] = i
	}
	u.js = func(raw json.RawMessage) int {
		if i, ok := js[string(raw)]; ok {
			return i
		}
		return bad
	}
	u.nohash = true
	return u
}

type Pt struct {
	X int16
	Y string
}

// ------------------------------------------------------------- universes

func txID(prefix string, n int) func(string) int {
	return func(s string) int {
		if !strings.HasPrefix(s, prefix) {
			return bad
		}
		i, err := strconv.Atoi(s[len(prefix):])
		if err != nil || i < 0 || i >= n {
			return bad
		}
		return i
	}
}

func jsID(raw json.RawMessage) int {
	var o struct{ ID *int }
	if json.Unmarshal(raw, &o) != nil || o.ID == nil {
		return bad
	}
	return *o.ID
}

func uniE(n int, lname string, h []uint64) *Uni[E] {
	return &Uni[E]{
		name: "E/" + lname, n: n,
		mk:  func(id int) E { return E{ID: int32(id), H: h[id], Tag: tr.NextTag()} },
		dec: func(v E) int { return int(v.ID) },
		js:  jsID, tx: txID("e", n),
		cat: func(es []E) E {
			acc := []int{}
			for _, e := range es {
				if e.acc != nil {
					acc = append(acc, e.acc...)
				} else {
					acc = append(acc, int(e.ID))
				}
			}
			return E{ID: -2, acc: acc}
		},
		uncat: func(v E) []int {
			if v.acc != nil {
				return v.acc
			}
			return []int{int(v.ID)}
		},
	}
}

func uniSm(n int, lname string, h []uint64) *Uni[Sm] {
	return &Uni[Sm]{
		name: "Sm/" + lname, n: n,
		mk:  func(id int) Sm { return Sm{ID: int32(id), H: h[id], Tag: tr.NextTag()} },
		dec: func(v Sm) int { return int(v.ID) }, js: jsID, tx: txID("m", n),
	}
}

func uniHs(n int, lname string, h []uint64) *Uni[Hs] {
	return &Uni[Hs]{
		name: "Hs/" + lname, n: n,
		mk:  func(id int) Hs { return Hs{ID: int32(id), H: h[id]} },
		dec: func(v Hs) int { return int(v.ID) }, js: jsID, tx: txID("h", n),
	}
}

func uniPe(n int, lname string, h []uint64) *Uni[*Pe] {
	return &Uni[*Pe]{
		name: "Pe/" + lname, n: n,
		mk: func(id int) *Pe { return &Pe{ID: int32(id), H: h[id]} },
		dec: func(v *Pe) int {
			if v == nil {
				return bad
			}
			return int(v.ID)
		}, js: jsID, tx: txID("p", n),
	}
}

func uniIfc(n int, lname string, h []uint64) *Uni[Ifc] {
	return &Uni[Ifc]{
		name: "Ifc/" + lname, n: n,
		mk: func(id int) Ifc {
			t := tr.NextTag()
			if t%2 == 0 {
				return IfA{ID: int32(id), H: h[id], Tag: t}
			}
			return IfB{ID: int64(id), H: h[id]}
		},
		dec: func(v Ifc) int {
			if v == nil {
				return bad
			}
			return v.Id()
		}, js: jsID,
	}
}

// byValue makes a universe from a list of distinct comparable values.
func byValue[T comparable](name string, vals []T) *Uni[T] {
	idx := map[T]int{}
	text := map[string]int{}
	for i, v := range vals {
		if _, dup := idx[v]; dup {
			panic(fmt.Sprintf("harness: duplicate %v in %s", v, name))
		}
		idx[v] = i
		text[fmt.Sprintf("%v", v)] = i
	}
	u := &Uni[T]{
		name: name, n: len(vals),
		mk: func(id int) T { return vals[id] },
		dec: func(v T) int {
			if i, ok := idx[v]; ok {
				return i
			}
			return bad
		},
		js: func(raw json.RawMessage) int {
			var v T
			if json.Unmarshal(raw, &v) != nil {
				return bad
			}
			if i, ok := idx[v]; ok {
				return i
			}
			return bad
		},
	}
	if len(text) == len(vals) {
		u.tx = func(s string) int {
			if i, ok := text[s]; ok {
				return i
			}
			return bad
		}
	}
	return u
}

func distinct[T comparable](n int, gen func(i int) T) []T {
	seen := map[T]bool{}
	var out []T
	for i := 0; len(out) < n; i++ {
		if v := gen(i); !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
		if i > 100*n+1000 {
			panic("harness: cannot make enough distinct values")
		}
	}
	return out
}

func uniInt(r *tr.Rng, n int) *Uni[int] {
	vals := distinct(n, func(i int) int {
		switch r.N(5) {
		case 0:
			return r.N(2*n) - n/2
		case 1:
			return 1 << uint(r.N(63))
		case 2:
			return -(1 << uint(r.N(63)))
		case 3:
			return r.Pick(math.MaxInt64, math.MinInt64, 0, -1, 1, math.MaxInt32, math.MinInt32)
		default:
			return int(r.U64())
		}
	})
	return byValue("int", vals)
}

// uniSmallInt has value == id: used where the spec does arithmetic on ids.
func uniSmallInt(n int) *Uni[int] {
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i
	}
	return byValue("idint", vals)
}

func uniString(r *tr.Rng, n int) *Uni[string] {
	return byValue("string", distinct(n, func(i int) string {
		switch i % 5 {
		case 0:
			return fmt.Sprintf("s%d", i)
		case 1:
			return fmt.Sprintf("é-%d", i)
		case 2:
			return strings.Repeat("long", 1+r.N(30)) + strconv.Itoa(i)
		case 3:
			return strconv.Itoa(i)
		default:
			return fmt.Sprintf("<&\"%d\">", i)
		}
	}))
}

func uniPt(n int) *Uni[Pt] {
	return byValue("Pt", distinct(n, func(i int) Pt { return Pt{X: int16(i % 7), Y: strconv.Itoa(i / 3)} }))
}

// uniAny mixes element types in one collection of any.
func uniAny(n int, lname string, h []uint64) *Uni[any] {
	const kinds = 14
	isets, maps := uniIntSet(n), uniMapSI(n)
	mk := func(id int) any {
		switch id % kinds {
		case 0:
			return id
		case 1:
			return int64(id - 1) // same number as the int, another element
		case 2:
			return strconv.Itoa(id - 2)
		case 3:
			return Ea{ID: int32(id), H: h[id], Tag: tr.NextTag()}
		case 4:
			return Sm{ID: int32(id), H: h[id], Tag: tr.NextTag()}
		case 5:
			return Hs{ID: int32(id), H: h[id]}
		case 6:
			if f := float64(id - 6); f != 0 || tr.NextTag()%2 == 0 {
				return f
			}
			return math.Copysign(0, -1) // == 0, hence the same element
		case 7:
			return Pt{X: int16(id)}
		case 8:
			return mkIntSetLike(id)
		case 9:
			return [2]int8{int8(id % 100), int8(id / 100)}
		case 10:
			return isets.mk(id)
		case 11:
			return maps.mk(id)
		case 12:
			return uint8(id)
		default:
			return frozen.KV(id, "x")
		}
	}
	sets := map[string]int{}
	for id := 8; id < n; id += kinds {
		sets[keyOf(members(id))] = id
	}
	return &Uni[any]{
		name: "any/" + lname, n: n, mk: mk,
		dec: func(v any) int {
			switch v := v.(type) {
			case int:
				return v
			case int64:
				return int(v) + 1
			case string:
				i, err := strconv.Atoi(v)
				if err != nil {
					return bad
				}
				return i + 2
			case Ea:
				return int(v.ID)
			case Sm:
				return int(v.ID)
			case Hs:
				return int(v.ID)
			case float64:
				return int(v) + 6
			case Pt:
				return int(v.X)
			case frozen.Set[int]:
				if id, ok := sets[keyOf(v.Elements())]; ok {
					return id
				}
			case [2]int8:
				return int(v[0]) + 100*int(v[1])
			case frozen.IntSet[int]:
				return isets.dec(v)
			case frozen.Map[string, int]:
				return maps.dec(v)
			case uint8:
				return int(v)
			case frozen.KeyValue[int, string]:
				return v.Key
			}
			return bad
		},
	}
}

// ------------------------------------------------ collections as elements

func keyOf(xs []int) string {
	s := append([]int(nil), xs...)
	sort.Ints(s)
	return fmt.Sprint(s)
}

// members lists the content that stands for an id (bits of id, spread out).
func members(id int) []int {
	out := []int{}
	for b := 0; id>>uint(b) != 0; b++ {
		if id>>uint(b)&1 == 1 {
			out = append(out, b*37-50)
		}
	}
	return out
}

// mkIntSetLike builds the set standing for id by one of several histories.
func mkIntSetLike(id int) frozen.Set[int] {
	ms := members(id)
	t := int(tr.NextTag())
	for i := range ms {
		j := (i*7 + t) % len(ms)
		ms[i], ms[j] = ms[j], ms[i]
	}
	switch t % 4 {
	case 0:
		return frozen.NewSet(ms...)
	case 1:
		s := frozen.Set[int]{}
		for _, m := range ms {
			s = s.With(m)
		}
		return s
	case 2:
		s := frozen.NewSet(append([]int{1 << 20, 1 << 21, 1 << 22}, ms...)...)
		return s.Without(1 << 20).Without(1 << 21).Without(1 << 22)
	default:
		b := frozen.NewSetBuilder[int](0)
		b.Add(-1 << 20)
		for _, m := range ms {
			b.Add(m)
			b.Add(m + 1<<25)
		}
		for _, m := range ms {
			b.Remove(m + 1<<25)
		}
		b.Remove(-1 << 20)
		return b.Finish()
	}
}

func uniSetInt(n int) *Uni[frozen.Set[int]] {
	idx := map[string]int{}
	for i := 0; i < n; i++ {
		idx[keyOf(members(i))] = i
	}
	return &Uni[frozen.Set[int]]{
		name: "Set[int]", n: n, mk: mkIntSetLike,
		dec: func(v frozen.Set[int]) int {
			if id, ok := idx[keyOf(v.Elements())]; ok {
				return id
			}
			return bad
		},
		js: func(raw json.RawMessage) int {
			var xs []int
			if json.Unmarshal(raw, &xs) != nil {
				return bad
			}
			if id, ok := idx[keyOf(xs)]; ok {
				return id
			}
			return bad
		},
	}
}

func uniIntSet(n int) *Uni[frozen.IntSet[int]] {
	idx := map[string]int{}
	for i := 0; i < n; i++ {
		idx[keyOf(members(i))] = i
	}
	return &Uni[frozen.IntSet[int]]{
		name: "IntSet[int]", n: n,
		mk: func(id int) frozen.IntSet[int] {
			ms := members(id)
			switch tr.NextTag() % 3 {
			case 0:
				return frozen.NewIntSet(ms...)
			case 1:
				s := frozen.NewIntSet(ms...).With(70000).With(70001)
				return s.Without(70001).Without(70000)
			default:
				s := frozen.NewIntSet[int]()
				for i := range ms {
					s = s.With(ms[len(ms)-1-i])
				}
				return s
			}
		},
		dec: func(v frozen.IntSet[int]) int {
			if id, ok := idx[keyOf(v.Elements())]; ok {
				return id
			}
			return bad
		},
	}
}

func uniMapSI(n int) *Uni[frozen.Map[string, int]] {
	type M = frozen.Map[string, int]
	// id = a + 5*b + 25*c ... : keys k0..k3 with values 0 (absent) or 1..4
	pairs := func(id int) map[string]int {
		m := map[string]int{}
		for k := 0; id != 0; k++ {
			if d := id % 5; d != 0 {
				m[fmt.Sprintf("k%d", k)] = d
			}
			id /= 5
		}
		return m
	}
	idx := map[string]int{}
	for i := 0; i < n; i++ {
		idx[fmt.Sprint(pairs(i))] = i
	}
	return &Uni[M]{
		name: "Map[string,int]", n: n,
		mk: func(id int) M {
			var m M
			t := tr.NextTag()
			if t%3 == 0 {
				m = m.With("k0", 99).With("zz", 1).With("yy", 2)
			}
			p := pairs(id)
			for k, v := range p {
				m = m.With(k, v)
			}
			if t%3 == 0 {
				m = m.Without("zz").Without("yy")
				if _, ok := p["k0"]; !ok {
					m = m.Without("k0")
				}
			}
			return m
		},
		dec: func(v M) int {
			if id, ok := idx[fmt.Sprint(frozen.MapToGoMap(v))]; ok {
				return id
			}
			return bad
		},
		js: func(raw json.RawMessage) int {
			var xs map[string]int
			if json.Unmarshal(raw, &xs) != nil {
				return bad
			}
			if id, ok := idx[fmt.Sprint(xs)]; ok {
				return id
			}
			return bad
		},
	}
}
