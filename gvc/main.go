package main

// Command line: verification of functions (dev) and of properties (check).

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type run struct {
	p      *Prog
	execs  []*Exec
	groups []*batch
	lemmas []*Obl
}

// batch is a set of obligations with the same facts.
type batch struct {
	p    *Prog
	x    *Exec
	pc   *pcNode
	obls []*Obl
	goal *Term // a part of the goal of the only obligation
	part int
}

// split cuts a goal into parts that can be proved one by one.
func (p *Prog) split(goal *Term, reveal map[string]bool) []*Term {
	switch {
	case goal.Op == "and":
		var out []*Term
		for _, a := range goal.Args {
			out = append(out, p.split(a, reveal)...)
		}
		return out
	case goal.Op == "=>":
		var out []*Term
		for _, a := range p.split(goal.Args[1], reveal) {
			out = append(out, Imp(goal.Args[0], a))
		}
		return out
	case strings.HasPrefix(goal.Op, "opq!") && reveal[opqName(goal.Op)] && goal.Sort == "Bool":
		tm := p.opaque[goal.Op]
		m := map[*Term]*Term{}
		for i, l := range tm.leaves {
			m[l] = goal.Args[i]
		}
		return p.split(Subst(tm.body, m), reveal)
	}
	return []*Term{goal}
}

type stats struct {
	mu      sync.Mutex
	solverT float64
	by      map[string]int
	nq      int
	failed  int
	onStuck func() bool // called when obligations resist the first strategies; true ends the work
}

func facts(pc *pcNode) []*Term {
	var out []*Term
	for p := pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// contracts of the functions of the package, in order
func (p *Prog) contracted() []*FuncSpec {
	var out []*FuncSpec
	seen := map[string]bool{}
	for _, f := range p.spec.Funcs {
		if f.Extern || f.Trusted || f.Inline {
			continue
		}
		if seen[f.Name] {
			continue
		}
		seen[f.Name] = true
		out = append(out, p.spec.lookupFunc(f.Name, p.tagName()))
	}
	return out
}

func (p *Prog) verifyAll(sel func(string) bool) []*Exec {
	var xs []*Exec
	for _, fs := range p.contracted() {
		if !sel(fs.Name) {
			continue
		}
		fn := p.funcs[fs.Name]
		if fn == nil {
			x := &Exec{p: p, fs: fs, trust: map[string]bool{}, callee: map[string]bool{}, inl: map[string]bool{}}
			x.obls = []*Obl{{Fn: fs.Name, Kind: "contract", What: "function " + fs.Name + " not found", Tags: []string{"all"}, Goal: tFalse, Exec: x}}
			xs = append(xs, x)
			continue
		}
		xs = append(xs, p.verifyFunc(fn, fs))
	}
	return xs
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// lemmaObls are the lemmas of the contract files, each proved from what precedes it.
func (p *Prog) lemmaObls() []*Obl {
	var out []*Obl
	x := &Exec{p: p, fs: &FuncSpec{Name: "lemmas"}, groups: map[string]bool{}, reveal: map[string]bool{}}
	for g := range p.spec.Groups {
		x.groups[g] = true
	}
	for _, a := range p.axioms {
		if a.Group != "" {
			x.groups[a.Group] = true
		}
	}
	for i, a := range p.axioms {
		if a.Lemma {
			x := &Exec{p: p, fs: x.fs, groups: x.groups, reveal: setOf(a.Reveal)}
			out = append(out, &Obl{Fn: "lemma " + a.Name, Kind: "lemma", What: a.Src, Tags: []string{"lemma"}, Goal: a.term, Exec: x, N: i + 1, Pos: a.Line})
		}
	}
	return out
}

func (o *Obl) text() string {
	return fmt.Sprintf("%s [%s] %s: %s (%s)", o.Fn, o.Exec.p.tagName(), o.Kind, o.What, o.Pos)
}

// solve discharges obligations; it stops early after maxFail failures.
func solve(obls []*Obl, st *stats, maxFail int, verbose bool, final []stage) {
	var bs []*batch
	idx := map[string]*batch{}
	for _, o := range obls {
		if o.Kind == "lemma" || o.Kind == "cover" {
			bs = append(bs, &batch{p: o.Exec.p, x: o.Exec, pc: o.PC, obls: []*Obl{o}})
			continue
		}
		class := o.Kind
		if o.Kind == "ensures" {
			class = o.What
		}
		k := fmt.Sprintf("%p %p %s", o.Exec, o.PC, class)
		b := idx[k]
		if b == nil {
			b = &batch{p: o.Exec.p, x: o.Exec, pc: o.PC}
			idx[k] = b
			bs = append(bs, b)
		}
		b.obls = append(b.obls, o)
	}
	var second []*batch
	limit2 := 0
	var mu sync.Mutex
	runBatches := func(bs []*batch, round, workers int) {
		round1 := round == 1
		type job struct {
			b *batch
			q string
		}
		ch := make(chan job, 16)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					stg := final
					if round1 {
						stg = stages[:1]
					} else if round == 3 {
						stg = lastStage
					}
					if j.b.obls[0].Kind == "cover" {
						stg = []stage{{[]string{"z3-q5"}, 2}}
					}
					r := prove(j.q, stg)
					mu.Lock()
					st.solverT += r.secs
					st.nq++
					if os.Getenv("GVC_HARD") != "" && (round > 2 || r.secs > 6) {
						o := j.b.obls[0]
						fmt.Printf("HARD round %d part %d %.1fs %s %s [%s]\n", round, j.b.part, r.secs, r.by, first(o.text(), 150), o.Exec.p.tagName())
					}
					if j.b.obls[0].Kind == "cover" {
						o := j.b.obls[0]
						o.Status, o.Secs = "proved", r.secs
						o.By = "cover"
						if r.status == "unsat" {
							o.Status = "failed"
							o.Out = "the assumptions are contradictory"
							st.failed++
						}
					} else if r.status == "unsat" {
						for _, o := range j.b.obls {
							o.Secs += r.secs
							o.parts--
							if o.parts <= 0 && o.Status == "" {
								o.Status, o.By = "proved", r.by
								st.by[r.by]++
							}
						}
					} else if round < 3 && r.status != "sat" {
						second = append(second, j.b)
					} else {
						for _, o := range j.b.obls {
							o.Secs += r.secs
							o.Status, o.Out = "failed", r.status+" "+r.out
							if j.b.goal != nil {
								o.Out = fmt.Sprintf("part %d: %s; %s", j.b.part, first(j.b.goal.String(), 400), o.Out)
							}
							if keepQ != "" {
								qn++
								o.Query = filepath.Join(keepQ, fmt.Sprintf("q%d.smt2", qn))
								os.WriteFile(o.Query, []byte(j.q), 0o644)
							}
							if verbose {
								fmt.Printf("  FAILED %s\n     %s %.1fs %s\n     %s\n", o.text(), r.status, r.secs, o.Query, first(o.Out, 500))
							}
						}
						st.failed++
					}
					mu.Unlock()
				}
			}()
		}
		for _, b := range bs {
			mu.Lock()
			stop := maxFail > 0 && st.failed >= maxFail || limit2 > 0 && len(second) >= limit2
			mu.Unlock()
			if stop {
				break
			}
			var gs []*Term
			for _, o := range b.obls {
				gs = append(gs, o.Goal)
			}
			if b.goal != nil {
				gs = []*Term{b.goal}
			}
			upto := -1
			if b.obls[0].Kind == "lemma" {
				upto = b.obls[0].N - 1
			}
			rv := b.x.reveal
			ch <- job{b, b.p.query(facts(b.pc), And(gs...), rv, b.x.groups, upto)}
		}
		close(ch)
		wg.Wait()
	}
	cpus := max(2, runtime.NumCPU())
	runBatches(bs, 1, cpus)
	var sp []*batch
	for _, b := range second {
		for _, o := range b.obls {
			var gs []*Term
			if o.Kind != "lemma" && o.Kind != "cover" {
				gs = o.Exec.p.split(o.Goal, o.Exec.reveal)
			} else {
				gs = []*Term{o.Goal}
			}
			o.parts = len(gs)
			for i, g := range gs {
				bb := &batch{p: b.p, x: b.x, pc: b.pc, obls: []*Obl{o}}
				if len(gs) > 1 {
					bb.goal, bb.part = g, i+1
				}
				sp = append(sp, bb)
			}
		}
	}
	// obligations in the order of the program, so that reports are stable
	sort.SliceStable(sp, func(i, j int) bool { return sp[i].obls[0].N < sp[j].obls[0].N })
	second = nil
	limit2 = 12
	runBatches(sp, 2, max(2, cpus*2/5))
	limit2 = 0
	if st.onStuck != nil && (len(second) > 0 || st.failed > 0) && st.onStuck() {
		third := second
		second = nil
		for _, b := range third {
			for _, o := range b.obls {
				if o.Status == "" {
					o.Status, o.Out = "failed", "not proved by "+strings.Join(stages[1].names, ", ")
				}
			}
		}
		finish(obls)
		return
	}
	if st.onStuck != nil {
		maxFail = 3
	}
	// what is left, with less competition for the processors
	third := second
	sort.SliceStable(third, func(i, j int) bool { return third[i].obls[0].N < third[j].obls[0].N })
	if len(third) > retryMax {
		maxFail = 1
	}
	if len(third) > retryMax {
		third = third[:1]
	}
	runBatches(third, 3, max(1, cpus/4))
	finish(obls)
}

// finish marks what was not decided.
func finish(obls []*Obl) {
	for _, o := range obls {
		if o.Status == "" {
			o.Status, o.Out = "failed", "not proved"
		}
	}
}

const retryMax = 16

var keepQ string

func setup(repo, spec, tag string) *Prog {
	sp := loadSpec(spec, tag)
	t := tag
	if t == "hudd" {
		t = ""
	}
	p, err := loadProg(repo, t, sp)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	p.prepAxioms()
	return p
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc dev|check|funcs ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fl := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	spec := fl.String("spec", "/verif/contracts", "")
	tag := fl.String("tag", "hudd", "")
	fn := fl.String("fn", ".", "")
	only := fl.String("only", "", "only the obligations whose text matches")
	tagsel := fl.String("tags", "", "only the obligations with these tags")
	keep := fl.String("keep", "", "directory for the queries that fail")
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	verif := fl.String("verif", "/verif", "")
	lemmas := fl.Bool("lemmas", false, "")
	verbose := fl.Bool("v", false, "")
	maxFail := fl.Int("maxfail", 0, "")
	long := fl.Int("long", 15, "")
	show := fl.Bool("show", false, "")
	prof := fl.Bool("prof", false, "")
	fl.Parse(os.Args[2:])
	var err error
	tmpDir, err = os.MkdirTemp("", "gvc")
	if err != nil {
		panic(err)
	}
	code := 0
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("gvc:", r)
			code = 3
			if os.Getenv("GVC_TRACE") != "" {
				debug.PrintStack()
			}
		}
		os.RemoveAll(tmpDir)
		os.Exit(code)
	}()
	keepQ = *keep
	if keepQ != "" {
		os.MkdirAll(keepQ, 0o755)
	}
	if cacheDir != "" {
		os.MkdirAll(cacheDir, 0o755)
	}
	stages[1].sec = *long
	switch cmd {
	case "funcs":
		p := setup(*repo, *spec, *tag)
		var ns []string
		for n := range p.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			r := ""
			if p.sccRec[n] {
				r = " recursive"
			}
			fs := p.spec.lookupFunc(n, p.tagName())
			c := "-"
			if fs != nil {
				c = "contract"
				if fs.Inline {
					c = "inline"
				}
			}
			fmt.Printf("%-50s %s%s -> %s\n", n, c, r, strings.Join(p.calls[n], ", "))
		}
	case "check":
		code = check(*verif, *repo, *spec, *prop, *tier)
	case "dev":
		t0 := time.Now()
		var obls []*Obl
		st := &stats{by: map[string]int{}}
		re := regexp.MustCompile(*fn)
		for _, tg := range strings.Split(*tag, ",") {
			p := setup(*repo, *spec, tg)
			var xs []*Exec
			if *lemmas {
				obls = append(obls, p.lemmaObls()...)
			} else {
				xs = p.verifyAll(re.MatchString)
			}
			for _, x := range xs {
				for _, e := range x.errs {
					fmt.Println("ERROR", e)
				}
				obls = append(obls, x.obls...)
				if x.entry != nil {
					obls = append(obls, &Obl{Fn: x.fname(), Kind: "cover", What: "the assumptions at entry are consistent", Tags: []string{"all"}, PC: x.entry.pc, Goal: tFalse, Exec: x})
				}
			}
		}
		for i, o := range obls {
			o.N = max(o.N, 0)
			_ = i
		}
		if *only != "" {
			r := regexp.MustCompile(*only)
			var o2 []*Obl
			for _, o := range obls {
				if r.MatchString(o.text()) {
					o2 = append(o2, o)
				}
			}
			obls = o2
		}
		if *tagsel != "" {
			m := setOf(strings.Split(*tagsel, ","))
			var o2 []*Obl
			for _, o := range obls {
				for _, t := range o.Tags {
					if m[t] {
						o2 = append(o2, o)
						break
					}
				}
			}
			obls = o2
		}
		fmt.Printf("%d obligations, symbolic execution %.1fs\n", len(obls), time.Since(t0).Seconds())
		if *show {
			for _, o := range obls {
				fmt.Println(o.text())
				for _, t := range facts(o.PC) {
					fmt.Println("    ", t)
				}
				fmt.Println("  =>", o.Goal)
			}
			return
		}
		solve(obls, st, *maxFail, *verbose, stages)
		per := map[string][3]int{}
		var order []string
		for _, o := range obls {
			k := o.Fn + " [" + o.Exec.p.tagName() + "]"
			c, ok := per[k]
			if !ok {
				order = append(order, k)
			}
			c[0]++
			if o.Status == "proved" {
				c[1]++
			}
			per[k] = c
		}
		for _, k := range order {
			m := "ok"
			if per[k][0] != per[k][1] {
				m = "FAIL"
			}
			fmt.Printf("%-4s %-45s %d/%d\n", m, k, per[k][1], per[k][0])
		}
		for _, o := range obls {
			if o.Status != "proved" {
				fmt.Printf("FAILED %s\n   %s %s\n", o.text(), first(o.Out, 200), o.Query)
			}
		}
		if *prof {
			type agg struct {
				k string
				s float64
				n int
			}
			m := map[string]*agg{}
			for _, o := range obls {
				k := o.Fn + " " + o.Kind + ": " + first(o.What, 90)
				if m[k] == nil {
					m[k] = &agg{k: k}
				}
				m[k].s += o.Secs
				m[k].n++
			}
			var as []*agg
			for _, a := range m {
				as = append(as, a)
			}
			sort.Slice(as, func(i, j int) bool { return as[i].s > as[j].s })
			for i := 0; i < len(as) && i < 25; i++ {
				fmt.Printf("  %8.1fs %4d %s\n", as[i].s, as[i].n, as[i].k)
			}
		}
		fmt.Printf("solver %.1fs in %d queries, by %v, wall %.1fs\n", st.solverT, st.nq, st.by, time.Since(t0).Seconds())
	}
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
