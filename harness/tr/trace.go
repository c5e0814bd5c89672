package tr

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// M is one trace event.
type M map[string]any

// Tracer writes events as one JSON object per line.
type Tracer struct {
	mu     sync.Mutex
	f      *os.File
	w      *bufio.Writer
	buf    *bytes.Buffer
	n      int
	sync   bool
	cur    string
	start  time.Time
	hangIn time.Duration
}

func NewTracer(path string, syncEach bool, hang time.Duration) *Tracer {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	t := &Tracer{f: f, w: bufio.NewWriterSize(f, 1<<20), sync: syncEach, hangIn: hang}
	if hang > 0 {
		go t.watch()
	}
	return t
}

// Begin marks the call about to be made on the real code.
func (t *Tracer) Begin(what string) {
	t.mu.Lock()
	t.cur = what
	t.start = time.Now()
	t.mu.Unlock()
}

func (t *Tracer) Ev(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(fmt.Sprintf("harness: %v: %v", err, m))
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cur = ""
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
	if t.sync {
		t.w.Flush()
	}
}

func (t *Tracer) Close() {
	t.Begin("")
	t.Settle()
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cur = ""
	t.w.Flush()
	if t.f != nil {
		t.f.Close()
	}
}

// NewBuf keeps the events in memory.
func NewBuf() *Tracer {
	b := &bytes.Buffer{}
	return &Tracer{w: bufio.NewWriter(b), buf: b}
}

// Bytes returns what a tracer made by NewBuf has recorded.
func (t *Tracer) Bytes() []byte {
	t.w.Flush()
	return t.buf.Bytes()
}

// Raw appends recorded lines.
func (t *Tracer) Raw(lines []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Write(lines)
	if t.sync {
		t.w.Flush()
	}
}

// Fork lets n goroutines run together, each with a recorder of its own. What is
// written for each of them is the common prefix followed by its own events: the
// history it would have had alone.
func (t *Tracer) Fork(n int, reset M, prefix []byte, run func(g int, t *Tracer)) {
	t.Begin("concurrent episode")
	ts := make([]*Tracer, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var died any
	var mu sync.Mutex
	for g := range ts {
		g := g
		ts[g] = NewBuf()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					died = x
					mu.Unlock()
				}
			}()
			<-gate
			run(g, ts[g])
		}()
	}
	close(gate)
	wg.Wait()
	if died != nil {
		panic(died)
	}
	for g := range ts {
		t.Ev(reset)
		t.Raw(prefix)
		t.Raw(ts[g].Bytes())
	}
}

// watch reports a call that never returns as an event of its own: no action of
// the specification matches it.
func (t *Tracer) watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		t.mu.Lock()
		if t.cur != "" && time.Since(t.start) > t.hangIn {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			b, _ := json.Marshal(M{"op": "hang", "in": t.cur, "after": t.hangIn.String()})
			t.w.Write(b)
			t.w.WriteByte('\n')
			t.w.Flush()
			fmt.Fprintf(os.Stderr, "HANG in %s\n%s\n", t.cur, buf)
			os.Exit(3)
		}
		t.mu.Unlock()
	}
}

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: Mix(Mix(seed+0x1234567) ^ 0x9E3779B97F4A7C15)} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Pick(xs ...int) int  { return xs[r.N(len(xs))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Subset returns a random subset of 0..n-1 in random order; density varies.
func (r *Rng) Subset(n int) []int {
	p := r.Perm(n)
	var k int
	switch r.N(5) {
	case 0:
		k = r.N(4)
	case 1:
		k = n
	case 2:
		k = n - r.N(3)
	default:
		k = r.N(n + 1)
	}
	if k < 0 {
		k = 0
	}
	if k > n {
		k = n
	}
	return p[:k]
}

func Mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			msg = fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness:") {
				panic(r)
			}
		}
	}()
	f()
	return
}

// Salt is a number that depends on the generator's position.
func (r *Rng) Salt() uint64 { return r.s }

// Settle waits for every goroutine started by the calls made so far to end. One
// that stays blocked is reported as an event of its own: no action of the
// specification matches it. Idle workers, if an implementation keeps any, wait
// to receive and are few.
func (t *Tracer) Settle() {
	stuck := func() (n int, what string) {
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		idle := 0
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "frozenverif/tr.(*Tracer).watch") || strings.Contains(g, "tr.(*Tracer).Settle") {
				continue
			}
			if !strings.Contains(g, "arr-ai/frozen") {
				continue
			}
			switch {
			case strings.Contains(head, "[chan receive") || strings.Contains(head, "[select"):
				if idle++; idle > 64+4*runtime.GOMAXPROCS(0) {
					n, what = n+1, g
				}
			default:
				n, what = n+1, g
			}
		}
		return
	}
	for wait := time.Millisecond; ; wait *= 2 {
		if runtime.NumGoroutine() <= 2 {
			return
		}
		n, what := stuck()
		if n == 0 {
			return
		}
		if wait > 16*time.Second {
			if len(what) > 1500 {
				what = what[:1500]
			}
			t.Ev(M{"op": "leak", "n": n, "stack": what})
			return
		}
		time.Sleep(wait)
	}
}
