package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"frozenverif/tr"
)

// step is a call of a generated behaviour; m: the members of an element that is a set.
type step struct {
	Op
	M uint64 `json:"m"`
}

func readSteps(path string) (out [][]Op) {
	f, err := os.Open(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var ss []step
		if err := json.Unmarshal(sc.Bytes(), &ss); err != nil {
			panic("harness: " + err.Error())
		}
		ops := make([]Op, len(ss))
		for i, s := range ss {
			ops[i] = s.Op
			ops[i].M = s.M
		}
		out = append(out, ops)
	}
	return out
}

// observers of register a; n: number of ids
func (e *env) observers(a int) []Op {
	r := e.r
	ops := []Op{{Op: "lempty"}, {Op: "lcount"}, {Op: "lfcount"}, {Op: "lelems"}, {Op: "lalien"}, {Op: "lhashes"},
		{Op: "lsame", O: nr - 1, How: "freeze"}, {Op: "lequal", B: r.N(4)}, {Op: "lsubset", B: r.N(4)}, {Op: "lequal", B: a}}
	if !e.tnt[a] {
		ops = append(ops, Op{Op: "lfempty"})
	}
	c := int(e.card(a))
	for _, y := range []int{0, 1, c, c + 1, r.N(c + 2)} {
		ops = append(ops, Op{Op: "lupto", Y: y}, Op{Op: "lfupto", Y: y})
	}
	for x := 0; x < e.n; x++ {
		m := r.U64() & 7
		if p := e.pden[a]; len(p) > 0 && r.P(1, 2) {
			m = p[r.N(len(p))]
		}
		ops = append(ops, Op{Op: "lhas", X: x, M: m}, Op{Op: "lfhas", X: x, M: m})
	}
	for i := range ops {
		ops[i].A = a
	}
	// the other way round
	ops = append(ops, Op{Op: "lsubset", A: r.N(4), B: a}, Op{Op: "lequal", A: r.N(4), B: a})
	return ops
}

func (e *env) bases() {
	for i, q := range [][]int{{}, {0}, {0, 1}, {1, 2}} {
		how := ""
		if e.r.P(1, 2) {
			how = "empty"
		}
		e.exec(Op{Op: "lnew", O: i, Q: q, How: how})
	}
}

// runExprs builds each expression once for every observer that may come first.
func runExprs(t *tr.Tracer, r *tr.Rng, path string, part, parts, sample, after int) {
	exprs := readSteps(path)
	for x, ops := range exprs {
		if x%parts != part || sample > 1 && !r.P(1, sample) {
			continue
		}
		top := ops[len(ops)-1].O
		for first := 0; ; first++ {
			e := newEnv(t, r, 3, (x+first)%5)
			t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("expression of %d", len(ops))})
			last := false
			guard(func() {
				e.bases()
				for _, op := range ops {
					e.exec(op)
				}
				obs := e.observers(top)
				last = first+1 >= len(obs)
				e.exec(obs[first%len(obs)])
				for i := 0; i < after; i++ {
					if r.P(1, 3) {
						e.exec(Op{Op: "lrange", I: r.N(ni), A: top})
					}
					for j := r.N(4); j > 0; j-- {
						e.exec(Op{Op: "lnext", I: r.N(ni)})
					}
					a := top
					if r.P(1, 5) {
						a = 4 + r.N(top-3)
						obs = e.observers(a)
					}
					e.exec(obs[r.N(len(obs))])
				}
			})
			if last || e.k[top] == "none" {
				break
			}
		}
	}
}

// runMemo replays interleavings of iterators and observers on expressions.
func runMemo(t *tr.Tracer, r *tr.Rng, exprs, hists string, part, parts, sample int) {
	es, hs := readSteps(exprs), readSteps(hists)
	for x, h := range hs {
		if x%parts != part {
			continue
		}
		for i := 0; i < sample; i++ {
			ops := es[r.N(len(es))]
			top := ops[len(ops)-1].O
			e := newEnv(t, r, 3, r.N(5))
			t.Ev(tr.M{"op": "reset", "what": fmt.Sprintf("interleaving over %d", len(ops))})
			guard(func() {
				e.bases()
				for _, op := range ops {
					e.exec(op)
				}
				for _, op := range h {
					op.A = top
					switch op.Op {
					case "observe":
						obs := e.observers(top)
						e.exec(obs[r.N(len(obs))])
					case "lsame":
						op.O = nr - 1
						e.exec(op)
					default:
						e.exec(op)
					}
				}
				e.exec(Op{Op: "lelems", A: top})
			})
		}
	}
}
