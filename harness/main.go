package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if filepath.Base(os.Args[0]) == "gcc" {
		os.Exit(gccShim(os.Args[1:]))
	}
	os.Exit(run(os.Args[1:]))
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func run(args []string) int {
	if len(args) < 2 {
		fmt.Println("usage: harness check|gen|replay ...")
		return 3
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch args[0] {
	case "gen": // gen Cxx index : show a case
		p := props[args[1]]
		i, _ := strconv.Atoi(args[2])
		c := p.Gen(newRandSrc(caseSeed(seed, p.ID, i)))
		if c == nil {
			fmt.Println("discarded")
			return 0
		}
		fmt.Println(c.Text)
		return 0
	case "replay":
		return replay(args[1])
	case "survey": // survey Cxx from to : all failures, grouped
		from, _ := strconv.Atoi(args[2])
		to, _ := strconv.Atoi(args[3])
		return survey(props[args[1]], seed, from, to)
	case "sweep": // sweep SECONDS ROUNDS : all properties for a few seconds each, until one fails
		secs, _ := strconv.ParseFloat(args[1], 64)
		rounds, _ := strconv.Atoi(args[2])
		return sweep(time.Duration(secs*1e9), rounds)
	case "check":
		p := props[args[1]]
		if p == nil {
			fmt.Println("unknown property", args[1])
			return 3
		}
		return check(p, seed, tier)
	}
	return 3
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var id string
	var ch []uint64
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "property: ") {
			id = strings.TrimPrefix(l, "property: ")
		}
		if strings.HasPrefix(l, "choices:") {
			for _, f := range strings.Fields(l)[1:] {
				v, _ := strconv.ParseUint(f, 10, 64)
				ch = append(ch, v)
			}
			break
		}
	}
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	env, err := newEnv(verifDir())
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer env.close()
	if p.Prepare != nil {
		if err := p.Prepare(env.worker(0)); err != nil {
			fmt.Println(err)
			return 3
		}
	}
	c := p.Gen(newFixedSrc(ch))
	if c == nil {
		fmt.Println("the choices give no case")
		return 3
	}
	fmt.Println(c.Text)
	o := c.Run(env.worker(0))
	if o.Fail != "" {
		fmt.Println("---", o.Fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Println("--- passes", o.Skip)
	return 0
}

func check(p *Prop, seed int64, tier string) int {
	start := time.Now()
	verif := verifDir()
	env, err := newEnv(verif)
	if err != nil {
		fmt.Println("harness error:", err)
		return 3
	}
	defer env.close()
	env.tier, env.seed = tier, seed
	if p.Prepare != nil {
		if err := p.Prepare(env.worker(0)); err != nil {
			fmt.Println("harness error:", err)
			return 3
		}
	}
	n, budget := p.Quick*5/2, p.Budget[0]*2
	if tier == "thorough" {
		n, budget = p.Thorough, p.Budget[1]
	}
	st, fail, err := runProp(p, seed, n, budget, env)
	if err != nil && fail == nil {
		fmt.Println("harness error:", err)
		return 3
	}
	violations := 0
	rc := 0
	if fail != nil {
		// The failure has to be reproducible before it is reported
		again := p.Gen(newFixedSrc(fail.choices))
		if again == nil || again.Text != fail.text {
			fmt.Println("harness error: generator is not deterministic")
			return 3
		}
		violations = 1
		small := shrink(p, fail, 40*time.Second, env)
		dir := filepath.Join(verif, "evidence", "replays")
		path := writeReplay(dir, p, seed, small)
		fmt.Println(clip(small.msg, 2000))
		fmt.Println("--- minimal case:")
		fmt.Println(clip(small.text, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		rc = 1
	}
	cov := map[string]interface{}{
		"evaluations":         st.evals,
		"cases":               st.cases,
		"distinct_nontrivial": st.nontrivial,
		"rule":                p.Rule,
		"samples":             st.samples,
		"classes":             st.classes,
		"discarded":           st.discards,
		"inconclusive":        st.skips,
		"unrepeated_failures": st.unrepeated,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("harness error:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d discarded, %d inconclusive, %.1fs\n", p.ID, tier, seed, st.cases, st.evals, st.nontrivial, st.discards, st.skips, time.Since(start).Seconds())
	return rc
}

// Runs a range of cases to the end and groups the failures by their message: for development
func survey(p *Prop, seed int64, from, to int) int {
	env, err := newEnv(verifDir())
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer env.close()
	if p.Prepare != nil {
		if err := p.Prepare(env.worker(0)); err != nil {
			fmt.Println(err)
			return 3
		}
	}
	type group struct {
		n         int
		text, msg string
		idx       int
	}
	groups := map[string]*group{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := from
	for i := 0; i < env.Workers; i++ {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				mu.Lock()
				idx := next
				next++
				mu.Unlock()
				if idx >= to {
					return
				}
				c := p.Gen(newRandSrc(caseSeed(seed, p.ID, idx)))
				if c == nil {
					continue
				}
				o := c.Run(w)
				if o.Fail == "" {
					continue
				}
				key := ""
				for _, l := range strings.Split(o.Fail, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, env.Repo+"/") && strings.Count(key, "|") < 2 {
						key += strings.Fields(l)[0] + "|"
					}
				}
				if key == "" {
					key = clip(o.Fail, 70)
				}
				mu.Lock()
				g := groups[key]
				if g == nil {
					g = &group{}
					groups[key] = g
				}
				g.n++
				if g.text == "" || len(c.Text) < len(g.text) {
					g.text, g.msg, g.idx = c.Text, o.Fail, idx
				}
				mu.Unlock()
			}
		}(env.worker(i))
	}
	wg.Wait()
	for k, g := range groups {
		fmt.Printf("=== %d x %s (case %d)\n%s\n--- %s\n", g.n, k, g.idx, g.text, clip(g.msg, 700))
	}
	return 0
}

// For the mutation campaign (tools/mutate)
func sweep(each time.Duration, rounds int) int {
	env, err := newEnv(verifDir())
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer env.close()
	ids := []string{}
	for id := range props {
		if only := os.Getenv("SWEEP"); only == "" || strings.Contains(only, id) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for r := 0; r < rounds; r++ {
		for _, id := range ids {
			p := props[id]
			if p.Prepare != nil {
				if err := p.Prepare(env.worker(0)); err != nil {
					fmt.Printf("%s prepare: %v\n", id, err)
					return 3
				}
			}
			d := each
			if p.Prepare != nil || id == "C15" {
				d *= 2
			}
			_, f, err := runProp(p, int64(1000+r), 1<<30, d, env)
			if f != nil {
				fmt.Printf("%s round %d case %d: %s\n", id, r, f.idx, clip(f.msg, 600))
				return 1
			}
			if err != nil {
				fmt.Printf("%s: %v\n", id, err)
				return 3
			}
		}
	}
	return 0
}
