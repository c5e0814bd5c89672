package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"frozenverif/tr"
)

// relation is a behaviour of GenRel: a header and rows.
type relation struct {
	H []string `json:"h"`
	Q [][]int  `json:"q"`
}

func readRels(path string) (out []relation) {
	f, err := os.Open(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		r := relation{H: []string{}, Q: [][]int{}}
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic("harness: " + err.Error())
		}
		out = append(out, r)
	}
	return out
}

func subsets(q []string) (out [][]string) {
	for m := 0; m < 1<<len(q); m++ {
		s := []string{}
		for i, k := range q {
			if m>>i&1 == 1 {
				s = append(s, k)
			}
		}
		out = append(out, s)
	}
	return
}

// every projection, every way to nest (one group, or two), and back
func (e *env) nestings() {
	h := keys(e.h[0])
	subs := subsets(h)
	for _, q := range subs {
		e.project(1, 0, q)
		e.nest(1, 0, []string{"n"}, [][]string{q})
		e.unnest(2, 1, "n")
		e.join(2, []int{1, 0})
		if len(q) > 0 {
			e.nest(3, 0, []string{q[0]}, [][]string{q})
			e.unnest(3, 3, q[0])
		}
		for _, p := range subs {
			e.nest(2, 0, []string{"n", "m"}, [][]string{q, p})
			e.unnest(3, 2, "n")
			e.unnest(4, 3, "m")
			e.unnest(3, 2, "m")
			e.unnest(4, 3, "n")
			if e.r.P(1, 4) {
				e.nest(4, 1, []string{"m"}, [][]string{append([]string{"n"}, p...)})
				e.unnest(4, 4, "m")
				e.unnest(4, 4, "n")
			}
		}
	}
}

func (e *env) pair(third relation) {
	e.join(2, []int{0, 1})
	e.join(3, []int{1, 0})
	e.product(4, []int{1, 0})
	e.fromRows(4, third.H, third.Q)
	e.join(5, []int{0, 4, 1})
	e.join(5, []int{2, 4})
	e.join(5, []int{4, 3})
	if same(e.h[0], e.h[1]) {
		for i, how := range []string{"union", "inter", "diff"} {
			e.setOp(2+i, how, 0, 1)
		}
	}
	e.equal(0, 1)
}

// runSmall works on every small relation and on every pair of them.
func runSmall(t *tr.Tracer, r *tr.Rng, path string, part, parts, sample int) {
	rels := readRels(path)
	var low []relation // those with fewer than three attributes
	for _, R := range rels {
		if len(R.H) < 3 {
			low = append(low, R)
		}
	}
	for x, R := range rels {
		if x%parts != part {
			continue
		}
		e := newEnv(t, r, 2)
		t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("small relation, kind=%d", e.kind)})
		guard(func() {
			e.fromRows(0, R.H, R.Q)
			e.nestings()
			for _, S := range low {
				if sample > 1 && !r.P(1, sample) {
					continue
				}
				e.fromRows(1, S.H, S.Q)
				e.pair(low[r.N(len(low))])
			}
			e.all()
		})
	}
}
