package main

// Property-based testing engine: every random decision is one recorded choice, so that a case is a pure function of its
// choice sequence. Shrinking edits the sequence and regenerates; a replay file stores it.

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------------------------------------------------------------
// Choice source

type Src struct {
	state uint64
	fixed []uint64 // replayed choices
	isFix bool
	rec   []uint64
	pos   int
}

func newRandSrc(seed uint64) *Src { return &Src{state: seed} }
func newFixedSrc(c []uint64) *Src { return &Src{fixed: c, isFix: true} }
func (s *Src) used() []uint64     { return s.rec }

func (s *Src) next() uint64 {
	s.state += 0x9E3779B97F4A7C15
	z := s.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose uniformly from 0..n-1. 0 is the simplest choice.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.U(uint64(n)))
}

func (s *Src) U(n uint64) uint64 {
	var v uint64
	if s.isFix {
		if s.pos < len(s.fixed) {
			v = s.fixed[s.pos]
		}
		s.pos++
	} else {
		v = s.next()
	}
	if n != 0 {
		v %= n
	}
	s.rec = append(s.rec, v)
	return v
}

func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }
func (s *Src) Chance(num, den int) bool { // false is simplest
	return s.N(den) >= den-num
}
func (s *Src) W(ws ...int) int { // weighted choice, first is simplest
	t := 0
	for _, w := range ws {
		t += w
	}
	r := s.N(t)
	for i, w := range ws {
		if r < w {
			return i
		}
		r -= w
	}
	return 0
}
func (s *Src) Pick(xs ...string) string { return xs[s.N(len(xs))] }

// ---------------------------------------------------------------------------------------------------------------------

type Case struct {
	Text       string   // the case written out, for samples and replay files
	Size       int      // rough size, used for shrinking order
	Nontrivial bool     // by the property's rule
	Classes    []string // classification labels
	Evals      int      // number of individual comparisons / inputs inside this case (>= 1)
	Run        func(w *Worker) Outcome
}

type Outcome struct {
	Fail string // non-empty: the property is violated
	Skip string // non-empty: inconclusive
}

type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases
	Thorough int
	Budget   [2]time.Duration // wall budget for quick, thorough
	Gen      func(s *Src) *Case
	Prepare  func(w *Worker) error // once per run
	Assume   []string
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

func caseSeed(seed int64, prop string, idx int) uint64 {
	x := hash64("clara", seed, prop, idx)
	t := Src{state: x}
	return t.next()
}

type stats struct {
	evals, nontrivial, cases, skips, discards, unrepeated int
	distinct                                              map[uint64]bool
	classes                                               map[string]int
	samples                                               []string
	skipMsgs                                              map[string]int
}

type failure struct {
	idx     int
	choices []uint64
	msg     string
	text    string
}

// Runs all cases; returns the failure with the lowest index, if any.
func runProp(p *Prop, seed int64, n int, budget time.Duration, env *Env) (*stats, *failure, error) {
	st := &stats{distinct: map[uint64]bool{}, classes: map[string]int{}, skipMsgs: map[string]int{}}
	var mu sync.Mutex
	var fail *failure
	nextIdx := 0
	deadline := time.Now().Add(budget)
	var wg sync.WaitGroup
	var infra error
	for i := 0; i < env.Workers; i++ {
		w := env.worker(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				idx := nextIdx
				if idx >= n || infra != nil || time.Now().After(deadline) || (fail != nil && idx > fail.idx) {
					mu.Unlock()
					return
				}
				nextIdx++
				mu.Unlock()
				src := newRandSrc(caseSeed(seed, p.ID, idx))
				c := p.Gen(src)
				if c == nil {
					mu.Lock()
					st.discards++
					mu.Unlock()
					continue
				}
				out := c.Run(w)
				if out.Fail != "" { // has to happen again to count
					again := false
					for k := 0; k < 12 && !again; k++ {
						again = c.Run(w).Fail != ""
					}
					if !again {
						mu.Lock()
						st.unrepeated++
						mu.Unlock()
						fmt.Println("note: a failure did not happen again in 12 runs of its case:", clip(out.Fail, 300))
						out = Outcome{Skip: "failure that did not happen again"}
					}
				}
				mu.Lock()
				st.cases++
				ev := c.Evals
				if ev < 1 {
					ev = 1
				}
				if out.Skip != "" {
					st.skips++
					st.skipMsgs[out.Skip]++
					if st.skips > 20+n/10 {
						infra = fmt.Errorf("too many inconclusive cases, last: %v", out.Skip)
					}
				} else {
					st.evals += ev
					key := hash64(c.Text)
					if c.Nontrivial && !st.distinct[key] {
						st.distinct[key] = true
						st.nontrivial++
					}
					for _, cl := range c.Classes {
						st.classes[cl]++
					}
					if c.Nontrivial && len(st.samples) < 3 && len(c.Text) < 6000 {
						st.samples = append(st.samples, c.Text)
					}
				}
				if out.Fail != "" && (fail == nil || idx < fail.idx) {
					fail = &failure{idx, append([]uint64(nil), src.used()...), out.Fail, c.Text}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return st, fail, infra
}

// ---------------------------------------------------------------------------------------------------------------------
// Shrinking: delete chunks, zero chunks, then lower single choices. Candidates run in parallel.

func better(a, b []uint64) bool { // shortlex
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func shrink(p *Prop, f *failure, budget time.Duration, env *Env) *failure {
	deadline := time.Now().Add(budget)
	best := f
	tried := map[uint64]bool{}
	try := func(cands [][]uint64) bool { // returns true if best improved
		var todo []*failure
		var runs []*Case
		for _, c := range cands {
			src := newFixedSrc(c)
			cs := p.Gen(src)
			if cs == nil {
				continue
			}
			u := append([]uint64(nil), src.used()...)
			if !better(u, best.choices) && !(len(cs.Text) < len(best.text)) {
				continue
			}
			k := hash64(cs.Text)
			if tried[k] {
				continue
			}
			tried[k] = true
			todo = append(todo, &failure{f.idx, u, "", cs.Text})
			runs = append(runs, cs)
		}
		improved := false
		for i := 0; i < len(todo); i += env.Workers {
			if time.Now().After(deadline) {
				return improved
			}
			var wg sync.WaitGroup
			end := i + env.Workers
			if end > len(todo) {
				end = len(todo)
			}
			for j := i; j < end; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					o := runs[j].Run(env.worker(j - i))
					if o.Skip == "" {
						todo[j].msg = o.Fail
					}
				}(j)
			}
			wg.Wait()
			for j := i; j < end; j++ {
				if todo[j].msg != "" && (better(todo[j].choices, best.choices) || len(todo[j].text) < len(best.text)) {
					best = todo[j]
					improved = true
				}
			}
			if improved {
				return true
			}
		}
		return improved
	}
	for round := 0; time.Now().Before(deadline); round++ {
		improved := false
		// Delete / zero chunks
		for size := len(best.choices) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
			for pos := 0; pos < len(best.choices) && time.Now().Before(deadline); {
				var cands [][]uint64
				cur := best.choices
				q := pos
				for k := 0; k < env.Workers && q < len(cur); k++ {
					end := q + size
					if end > len(cur) {
						end = len(cur)
					}
					del := append(append([]uint64(nil), cur[:q]...), cur[end:]...)
					z := append([]uint64(nil), cur...)
					nz := false
					for i := q; i < end; i++ {
						nz = nz || z[i] != 0
						z[i] = 0
					}
					cands = append(cands, del)
					if nz {
						cands = append(cands, z)
					}
					q = end
				}
				if try(cands) {
					improved = true
				} else {
					pos = q
				}
			}
			if size > 64 && len(best.choices) < size {
				size = len(best.choices)
			}
		}
		// Lower single values
		for i := 0; i < len(best.choices) && time.Now().Before(deadline); i++ {
			v := best.choices[i]
			if v == 0 {
				continue
			}
			var cands [][]uint64
			for _, nv := range []uint64{0, v / 2, v - 1} {
				if nv < v {
					c := append([]uint64(nil), best.choices...)
					c[i] = nv
					cands = append(cands, c)
				}
			}
			if try(cands) {
				improved = true
			}
		}
		if !improved {
			break
		}
	}
	return best
}

func writeReplay(dir string, p *Prop, seed int64, f *failure) string {
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.replay", p.ID, seed, f.idx))
	var b strings.Builder
	fmt.Fprintf(&b, "property: %s\nseed: %d\nindex: %d\nchoices:", p.ID, seed, f.idx)
	for _, c := range f.choices {
		fmt.Fprintf(&b, " %d", c)
	}
	fmt.Fprintf(&b, "\n\n--- what failed\n%s\n\n--- case\n%s\n", f.msg, f.text)
	os.WriteFile(path, []byte(b.String()), 0644)
	return path
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
