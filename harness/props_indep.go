package main

// C26: compilations do not influence each other.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type unit struct {
	text string
	res  Result
	bad  bool // the program has a mistake
	name string
	dir  int // directory of the source and the executable
}

func genC26(s *Src) *Case {
	n := s.Range(2, 5)
	var us []unit
	sameName, sameText := s.Chance(2, 3), s.Chance(1, 4)
	for i := 0; i < n; i++ {
		u := unit{name: "prog", dir: i}
		if !sameName {
			u.name = s.Pick("prog", "a", "prog2")
		}
		if i > 0 && sameText {
			u.text, u.res, u.bad = us[0].text, us[0].res, us[0].bad
			us = append(us, u)
			continue
		}
		if s.Chance(1, 4) {
			_, pr, _, _ := genMistake(s, false)
			if pr == nil {
				return nil
			}
			u.text, u.bad = programText(pr), true
		} else {
			p := baseProf()
			p.Types, p.Fns, p.MainStmts, p.Depth = [2]int{0, 2}, [2]int{0, 3}, [2]int{2, 8}, 3
			p.Closures, p.Data, p.Strings, p.OptW = 4, 2, 2, 1
			p.StdW = map[string]int{"opt": 1, "conv": 1, "str": 1}
			g := newGen(s, p)
			pr := g.safeProgram()
			if pr == nil {
				return nil
			}
			res, _, why := interpret(pr, p.Fuel)
			if why != "" {
				return nil
			}
			u.text, u.res = programText(pr), res
		}
		us = append(us, u)
	}
	mode := s.Pick("at the same time", "at the same time", "one after the other", "one after the other, in the same directory", "one after the other, from different directories into one")
	oneOut := mode == "one after the other, from different directories into one"
	var order []int
	if oneOut { // in any order, some more than once
		for i := 0; i < n+2; i++ {
			order = append(order, s.N(n))
		}
	} else {
		for i := range us {
			order = append(order, i)
		}
	}
	outDir := func(u unit) int {
		if oneOut {
			return 0
		}
		return u.dir
	}
	if mode == "one after the other, in the same directory" {
		for i := range us {
			us[i].dir = 0
			us[i].name = us[0].name
		}
	}
	rounds := s.Range(1, 2)
	var b strings.Builder
	size := 0
	for i, u := range us {
		fmt.Fprintf(&b, "// program %d: d%d/%s.clara, valid: %v\n%s\n", i, u.dir, u.name, !u.bad, u.text)
		size += len(u.text)
	}
	fmt.Fprintf(&b, "// compiled %s, %d times, in the order %v\n", mode, rounds, order)
	c := &Case{Text: b.String(), Size: size, Nontrivial: true, Evals: n * rounds, Classes: []string{mode, fmt.Sprintf("same name %v", sameName), fmt.Sprintf("same text %v", sameText), fmt.Sprintf("%d programs", n)}}
	c.Run = func(w *Worker) Outcome {
		root := filepath.Join(w.dir, "c")
		os.RemoveAll(root)
		os.MkdirAll(filepath.Join(root, "tmp"), 0755)
		xs := make([]Exec, n)
		var firstErr = map[string]string{}
		if oneOut { // all sources are there from the start
			for _, u := range us {
				d := filepath.Join(root, fmt.Sprintf("d%d", u.dir))
				os.MkdirAll(d, 0755)
				os.WriteFile(filepath.Join(d, u.name+".clara"), []byte(u.text), 0644)
			}
		}
		for r := 0; r < rounds; r++ {
			compile := func(i int) {
				u := us[i]
				d := filepath.Join(root, fmt.Sprintf("d%d", u.dir))
				out := filepath.Join(root, fmt.Sprintf("out%d", outDir(u)))
				os.MkdirAll(d, 0755)
				os.MkdirAll(out, 0755)
				if !oneOut {
					os.WriteFile(filepath.Join(d, u.name+".clara"), []byte(u.text), 0644)
				}
				env := []string{"TMPDIR=" + filepath.Join(root, "tmp"), "PATH=" + w.env.GccDir + ":/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C", "GOMAXPROCS=2"}
				xs[i] = runLimited(Limits{CPU: 20, Wall: 120 * time.Second}, d, env, nil, w.env.Clarac, "-install", filepath.Join(w.env.Repo, "install"), "-prog", filepath.Join(d, u.name+".clara"), "-out", out)
			}
			check := func(i int) Outcome {
				u, x := us[i], xs[i]
				d := filepath.Join(root, fmt.Sprintf("d%d", u.dir))
				out := filepath.Join(root, fmt.Sprintf("out%d", outDir(u)))
				bin := filepath.Join(out, u.name)
				where := fmt.Sprintf("program %d, round %d: ", i, r)
				if x.Wall {
					return Outcome{Skip: "compiler wall clock limit"}
				}
				if src, _ := os.ReadFile(filepath.Join(d, u.name+".clara")); string(src) != u.text {
					return Outcome{Fail: where + "the source file was changed"}
				}
				want := []string{u.name + ".clara"}
				if got := listing(d); !sameStrings(got, want) {
					return Outcome{Fail: where + fmt.Sprintf("files beside the source: %v", got)}
				}
				if u.bad {
					if oneOut || mode == "one after the other, in the same directory" { // an older executable may still be there
						bin = filepath.Join(root, "nothing")
					}
					if o := mustReject(x, bin, "mistake"); o.Fail != "" {
						o.Fail = where + o.Fail
						return o
					}
					key := fmt.Sprintf("%s|%d|%s", u.text, u.dir, u.name)
					if old, ok := firstErr[key]; ok && old != x.Out {
						return Outcome{Fail: where + "the same mistake is reported differently:\n" + clip(old, 700) + "\nand\n" + clip(x.Out, 700)}
					}
					firstErr[key] = x.Out
					return Outcome{}
				}
				if p := compileProblem(x); p != "" {
					return Outcome{Fail: where + p}
				}
				if got := listing(out); !sameStrings(got, []string{u.name}) && !oneOut {
					return Outcome{Fail: where + fmt.Sprintf("files in the output directory: %v", got)}
				}
				rx, h := w.Run(bin, nil, nil)
				o := compareRun(rx, h, u.res)
				if o.Fail != "" {
					o.Fail = where + o.Fail + "\nexpected output:\n" + clip(u.res.Out, 1000) + "\nactual output:\n" + clip(rx.Out, 1000)
				}
				return o
			}
			if mode == "at the same time" {
				var wg sync.WaitGroup
				for i := range us {
					wg.Add(1)
					go func(i int) { defer wg.Done(); compile(i) }(i)
				}
				wg.Wait()
				for i := range us {
					if o := check(i); o.Fail != "" || o.Skip != "" {
						return o
					}
				}
				continue
			}
			for _, i := range order {
				compile(i)
				if o := check(i); o.Fail != "" || o.Skip != "" {
					return o
				}
			}
		}
		return Outcome{}
	}
	return c
}

func listing(dir string) []string {
	es, _ := os.ReadDir(dir)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	sort.Strings(r)
	return r
}

func sameStrings(a, b []string) bool {
	b = append([]string(nil), b...)
	sort.Strings(b)
	return strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func init() {
	reg(&Prop{ID: "C26", Rule: "two to five generated programs (three of four valid), most with the same file name, some with the same text, compiled at the same time, one after the other, or one over the other, once or twice, with a common directory for temporary files; all are non-trivial",
		Quick: 500, Thorough: 8000, Budget: [2]time.Duration{45 * time.Second, 13 * time.Minute}, Gen: genC26})
}
