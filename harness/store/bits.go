package main

import (
	"fmt"
	"math"

	"github.com/arr-ai/frozen"

	"frozenverif/tr"
)

// runBits exercises BitIterator and ranges at the ends of the integers.
func runBits(t *tr.Tracer, r *tr.Rng, n int) {
	list := func(b frozen.BitIterator) []int {
		q := []int{}
		for i := 0; i < 64; i++ {
			if uint64(b)>>uint(i)&1 == 1 {
				q = append(q, i)
			}
		}
		return q
	}
	call := func(op string, f func(ev tr.M)) {
		t.Begin(op)
		ev := tr.M{"op": op}
		if pan, msg := tr.Try(func() { f(ev) }); pan {
			ev = tr.M{"op": "panic", "in": op, "msg": msg, "args": fmt.Sprint(ev)}
		}
		t.Ev(ev)
	}
	for k := 0; k < n; k++ {
		if r.P(2, 3) {
			call("bits", func(ev tr.M) {
				var m uint64
				for _, i := range r.Subset(64) {
					m |= 1 << uint(i)
				}
				if r.P(1, 2) {
					m &= r.U64()
				}
				b := frozen.BitIterator(m)
				x := r.N(64)
				q := []int{}
				for i := b; i != 0 && len(q) < 70; i = i.Next() {
					q = append(q, i.Index())
				}
				hs := []int{}
				for i := 0; i < 64; i++ {
					if b.Has(i) {
						hs = append(hs, i)
					}
				}
				ev["m"], ev["x"], ev["q"], ev["hs"], ev["c"] = list(frozen.BitIterator(m)), x, q, hs, b.Count()
				ev["wi"], ev["wo"], ev["nx"] = list(b.With(x)), list(b.Without(x)), list(b.Next())
			})
			continue
		}
		base := r.Pick(math.MaxInt, math.MinInt, 0, math.MaxInt32, math.MinInt32)
		off := func() int {
			d := r.N(80)
			switch base {
			case math.MaxInt:
				return -d
			case math.MinInt:
				return d
			}
			return d - 40
		}
		start, stop := off(), off()
		step := r.Pick(1, 2, 3, 7, 50, 1000, 1<<40, math.MaxInt-1, math.MaxInt, -1, -2, -5, -60, -(1 << 40), math.MinInt+1, math.MinInt)
		call("iotax", func(ev tr.M) {
			var s frozen.Set[int]
			if step == 1 && r.P(1, 2) {
				s = frozen.Iota2(base+start, base+stop)
			} else {
				s = frozen.Iota3(base+start, base+stop, step)
			}
			q := []int{}
			for i := s.Range(); i.Next() && len(q) < 1000; {
				d := i.Value() - base
				if d > 1<<30 || d < -1<<30 {
					d = 1 << 30
				}
				q = append(q, d)
			}
			y := step
			if y > 1000 {
				y = 1000
			} else if y < -1000 {
				y = -1000
			}
			ev["n"], ev["i"], ev["y"], ev["c"], ev["q"] = start, stop, y, s.Count(), q
		})
	}
}
