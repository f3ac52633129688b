package main

// The check of one property: the obligations of the cone of its functions, and the replay of failures.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
)

// cone returns the functions that are reached from the roots.
func (p *Prog) cone(roots []string) map[string]bool {
	m := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if m[n] {
			return
		}
		m[n] = true
		for _, c := range p.calls[n] {
			visit(c)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return m
}

// belongs reports whether an obligation is part of what decides a property. Obligations that are
// tagged only with other properties are decided by the checks of these properties; those that
// later obligations build on (no tag, safety, preservation of live nodes) always count.
func belongs(o *Obl, tags map[string]bool) bool {
	if len(o.Tags) == 0 || o.Kind == "lemma" {
		return true
	}
	for _, t := range o.Tags {
		if tags[t] || t == "all" || t == "core" || t == "C21" || t == "C11" {
			return true
		}
	}
	return false
}

func tagged(o *Obl, tags map[string]bool) bool {
	for _, t := range o.Tags {
		if tags[t] || t == "all" {
			return true
		}
	}
	return false
}

type fnRow struct {
	Function    string   `json:"function"`
	Build       string   `json:"build"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Inlined     []string `json:"inlined,omitempty"`
}

func check(verif, repo, spec, prop, tier string) (code int) {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ps *PropSpec
	sp0 := loadSpec(spec, "hudd")
	ps = sp0.Props[prop]
	if ps == nil {
		fmt.Println("unknown property", prop)
		return 1
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, prop+".replay.txt")
	os.Remove(replay)
	tags := setOf(append([]string{prop}, ps.Tags...))

	h := newHarness(verif, repo, prop, seed, tier)
	defer h.close()

	st := &stats{by: map[string]int{}}
	var obls []*Obl
	var rows []*fnRow
	trust := map[string]bool{}
	var notes []string
	problem := "" // why the verifier cannot even state the obligations
	builds := ps.Builds
	if len(builds) == 0 {
		builds = []string{"hudd"}
	}
	if tier == "thorough" {
		builds = ps.Thorough
		if len(builds) == 0 {
			builds = ps.Builds
		}
	}
	nLemmas, nCovers := 0, 0
	axioms := map[string]bool{}
	for _, bd := range builds {
		func() {
			defer func() {
				if r := recover(); r != nil {
					problem = fmt.Sprintf("the verifier stops on the sources (build %s): %v", bd, r)
				}
			}()
			kernelOnly := strings.HasSuffix(bd, ":kernel")
			tag := strings.TrimSuffix(bd, ":kernel")
			sp := loadSpec(spec, tag)
			t := tag
			if t == "hudd" {
				t = ""
			}
			p, err := loadProg(repo, t, sp)
			if err != nil {
				problem = fmt.Sprintf("the sources do not load (build %s): %v", tag, err)
				return
			}
			p.prepAxioms()
			var roots []string
			for _, r := range ps.Roots {
				if p.funcs[r] == nil && p.funcs["(*BDD)."+r] != nil {
					r = "(*BDD)." + r
				}
				switch {
				case p.funcs[r] != nil:
					roots = append(roots, r)
				case strings.Contains(r, "$") || !unicode.IsUpper(rune(strings.TrimPrefix(r, "(*tables).")[0])):
					// an internal function that is gone is no longer part of what runs
					notes = append(notes, fmt.Sprintf("no function %s (build %s)", r, tag))
				default:
					problem = fmt.Sprintf("function %s does not exist (build %s)", r, tag)
				}
			}
			rootSet := setOf(roots)
			c := p.cone(roots)
			sel := func(n string) bool {
				if !c[n] || p.funcs[n] == nil {
					return false
				}
				return !kernelOnly || p.inKernel(n)
			}
			xs := p.verifyAll(sel)
			if len(xs) == 0 && !ps.BoundedOnly {
				problem = "no function under contract"
			}
			for _, x := range xs {
				for _, o := range x.obls {
					if ps.Select == "tags" && !rootSet[o.Fn] && !tagged(o, tags) {
						continue
					}
					if belongs(o, tags) {
						obls = append(obls, o)
					}
				}
				if x.entry != nil {
					nCovers++
					obls = append(obls, &Obl{Fn: x.fname(), Kind: "cover", What: "the assumptions at entry are consistent", Tags: []string{"all"}, PC: x.entry.pc, Goal: tFalse, Exec: x})
				}
				for k := range x.trust {
					trust[k] = true
				}
			}
			if len(xs) > 0 {
				l := p.lemmaObls()
				nLemmas += len(l)
				obls = append(obls, l...)
			}
			for _, a := range p.axioms {
				if !a.Lemma {
					axioms[a.Name] = true
				}
			}
		}()
		if problem != "" {
			break
		}
	}
	if problem != "" {
		notes = append(notes, problem)
	}

	found := ""
	tryReplay := func(secs int) bool {
		if found != "" {
			return true
		}
		found = h.run(secs)
		return found != ""
	}
	var failed []*Obl
	if problem == "" {
		st.onStuck = func() bool { return tryReplay(25) }
		solve(obls, st, 0, false, stages)
		for _, o := range obls {
			if o.Status != "proved" {
				failed = append(failed, o)
			}
		}
	}
	// a bounded search for the parts of the property that no contract reaches, and for failed obligations
	bounded := ps.Bounded
	if tier == "thorough" {
		bounded *= 8
	}
	switch {
	case found != "":
	case len(failed) > 0 || problem != "":
		tryReplay(60)
	case bounded > 0:
		tryReplay(bounded)
	}

	violation := found != "" || len(failed) > 0 || problem != ""
	if violation {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is not proved on the sources in %s\n\n", prop, repo)
		if problem != "" {
			fmt.Fprintf(&sb, "%s\n\n", problem)
		}
		if found != "" {
			fmt.Fprintf(&sb, "Failing input, on the real code:\n%s\n\n", found)
		} else {
			fmt.Fprintf(&sb, "No failing input was found by running random histories on the real code (%s).\n\n", h.summary())
		}
		n := 0
		for _, o := range failed {
			if o.Out == "not proved" {
				continue
			}
			if n++; n > 40 {
				break
			}
			fmt.Fprintf(&sb, "FAILED OBLIGATION %s [%s]\n    %s\n", o.text(), o.Exec.p.tagName(), first(o.Out, 1500))
		}
		if len(failed) > n {
			fmt.Fprintf(&sb, "(%d further obligations were not retried)\n", len(failed)-n)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, o := range failed {
			if i >= 5 {
				fmt.Printf("... %d obligations in all\n", len(failed))
				break
			}
			fmt.Println("FAILED OBLIGATION", o.text())
		}
		if problem != "" {
			fmt.Println(problem)
		}
		if found != "" {
			fmt.Println(first(found, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		code = 1
	}

	// evidence
	per := map[string]*fnRow{}
	nObl, nOK := 0, 0
	kinds := map[string]int{}
	for _, o := range obls {
		if o.Kind == "cover" || o.Kind == "lemma" {
			continue
		}
		nObl++
		kinds[o.Kind]++
		k := o.Fn + " " + o.Exec.p.tagName()
		r := per[k]
		if r == nil {
			r = &fnRow{Function: o.Fn, Build: o.Exec.p.tagName()}
			for i := range o.Exec.inl {
				r.Inlined = append(r.Inlined, i)
			}
			sort.Strings(r.Inlined)
			per[k] = r
			rows = append(rows, r)
		}
		r.Obligations++
		if o.Status == "proved" {
			nOK++
			r.Discharged++
		}
	}
	lemOK := 0
	for _, o := range obls {
		if o.Kind == "lemma" && o.Status == "proved" {
			lemOK++
		}
	}
	base := []string{
		"the condition generator /verif/gvc (symbolic execution of go/ssa, mathematical integers with overflow obligations)",
		"golang.org/x/tools/go/ssa as the meaning of the source text", "z3 and cvc5",
		fmt.Sprintf("%d axioms about Boolean functions, tables and sequences (contracts/*.spec; those listed in DESIGN.md are proved in Lean)", len(axioms)),
	}
	var tr []string
	for k := range trust {
		tr = append(tr, k)
	}
	sort.Strings(tr)
	base = append(base, tr...)
	cov := map[string]interface{}{
		"obligations":    nObl + nLemmas,
		"discharged":     nOK + lemOK,
		"checker_cmd":    fmt.Sprintf("gvc check -prop %s -tier %s", prop, tier),
		"trusted_base":   base,
		"functions":      rows,
		"n_functions":    len(rows),
		"lemmas":         nLemmas,
		"covers":         nCovers,
		"by_solver":      st.by,
		"trivial":        "obligations that simplify to true during generation are not counted",
		"solver_s":       st.solverT,
		"queries":        st.nq,
		"kinds":          kinds,
		"builds":         builds,
		"axioms":         len(axioms),
		"roots":          ps.Roots,
		"bounded_search": h.summary(),
	}
	if ps.Note != "" {
		cov["note"] = ps.Note
	}
	lvl := "proof"
	if ps.Level != "" {
		lvl = ps.Level
	}
	if ps.BoundedOnly || lvl == "exploration" {
		cov["evaluations"] = h.histories
		cov["distinct_nontrivial"] = h.histories
		cov["rule"] = "random histories of public operations on random configurations, with different seeds, checked against truth tables"
		cov["samples"] = []string{"see replay/replay_test.go; seed " + fmt.Sprint(seed)}
	}
	nv := 0
	if violation {
		nv = 1
	}
	doc := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	js, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, prop+".json"), js, 0o644)
	fmt.Printf("%s: %d of %d obligations in %d functions, %d of %d lemmas, %d covers; %.1fs (solvers %.1fs, %v); %s\n", prop, nOK, nObl, len(rows), lemOK, nLemmas, nCovers, time.Since(t0).Seconds(), st.solverT, st.by, h.summary())
	return code
}

var assumptions = []string{
	"int is 64 bits wide; counters that only appear in statistics (produced, opHit, opMiss, uniqueAccess, ...) do not overflow",
	"a function given to Allnodes does not call operations on the same BDD, a function given to Allsat does not write to its argument, and users do not write through the pointers they get as nodes",
	"a BDD is used by one goroutine at a time, besides the finalizers that the Go runtime runs",
	"the Go runtime calls the finalizer of a node only after the program has lost its last reference to it, and memory suffices for the table",
}

// inKernel reports whether a function is specific to the implementation chosen by the build tags.
func (p *Prog) inKernel(n string) bool {
	f := p.funcs[n]
	if f == nil {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	b := filepath.Base(p.fset.Position(f.Pos()).Filename)
	return b == "hudd.go" || b == "hkernel.go" || b == "buddy.go" || b == "bkernel.go"
}

// ---- replay on the real code

type harness struct {
	verif, repo, prop, tier string
	seed                    int
	dir                     string
	bins                    []string
	err                     string
	runs, secs              int
	histories               int
	built                   bool
}

func newHarness(verif, repo, prop string, seed int, tier string) *harness {
	return &harness{verif: verif, repo: repo, prop: prop, seed: seed, tier: tier}
}

func (h *harness) close() {
	if h.dir != "" {
		os.RemoveAll(h.dir)
	}
}

func (h *harness) summary() string {
	if h.runs == 0 {
		return "no bounded search was needed"
	}
	if h.err != "" {
		return "the search could not run: " + first(h.err, 300)
	}
	return fmt.Sprintf("bounded search: %d histories of random operations in %d processes, %d s each", h.histories, h.runs, h.secs)
}

func (h *harness) build() {
	h.built = true
	var err error
	h.dir, err = os.MkdirTemp("", "gvcreplay")
	if err != nil {
		h.err = err.Error()
		return
	}
	m := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(h.repo, "*_test.go"))
	for _, f := range old {
		m[f] = ""
	}
	mine, _ := filepath.Glob(filepath.Join(h.verif, "replay", "*_test.go"))
	for _, f := range mine {
		m[filepath.Join(h.repo, "zz_verif_"+filepath.Base(f))] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": m})
	ov := filepath.Join(h.dir, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	for _, tg := range []string{"", "buddy"} {
		bin := filepath.Join(h.dir, "replay-"+tg)
		args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-tags", tg, "-o", bin}
		if h.prop == "C20" {
			args = append(args, "-race")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
		cmd := exec.CommandContext(ctx, "go", append(args, ".")...)
		cmd.Dir = h.repo
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
		if h.prop == "C20" {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		cancel()
		if err != nil {
			h.err += fmt.Sprintf("build with tags %q: %v %s ", tg, err, first(string(out), 1000))
			continue
		}
		h.bins = append(h.bins, bin)
	}
}

// run searches for a failing input and returns its description, or "".
func (h *harness) run(secs int) string {
	if !h.built {
		h.build()
	}
	if len(h.bins) == 0 {
		h.runs++
		return ""
	}
	var mu sync.Mutex
	res := ""
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	n := max(2, min(8, runtime.NumCPU()))
	for i := 0; i < n; i++ {
		bin := h.bins[i%len(h.bins)]
		h.runs++
		seed := h.seed*100 + h.runs
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(h.dir, fmt.Sprintf("history-%d.txt", seed))
			c2, cancel2 := context.WithTimeout(ctx, time.Duration(secs+45)*time.Second)
			defer cancel2()
			cmd := exec.CommandContext(c2, bin, "-test.run", "TestReplay", "-test.v", "-test.timeout", fmt.Sprintf("%ds", secs+30))
			cmd.Dir = h.dir
			cmd.Env = append(os.Environ(), "VERIF_PROP="+h.prop, fmt.Sprintf("VERIF_SECS=%d", secs), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_OUT="+out, "GOMEMLIMIT=2500MiB", "GORACE=halt_on_error=1")
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			s := buf.String()
			var k int
			if j := strings.Index(s, "no failing input among "); j >= 0 {
				fmt.Sscanf(s[j:], "no failing input among %d", &k)
				h.histories += k
			}
			if err == nil || res != "" || ctx.Err() != nil {
				return
			}
			hist, _ := os.ReadFile(out)
			b := "default"
			if strings.HasSuffix(bin, "buddy") {
				b = "buddy"
			}
			hd := fmt.Sprintf("(build %s; run again with: sh /verif/tools/replay.sh %s %d %s)\n", b, h.prop, seed, b)
			if !strings.Contains(s, "FAILING INPUT") {
				if !strings.Contains(s, "panic:") && !strings.Contains(s, "fatal error:") && !strings.Contains(s, "DATA RACE") && c2.Err() == nil {
					return // the search itself did not work
				}
				hd += "the process crashes, races or does not terminate:\n" + first(s, 4000) + "\n"
			}
			res = hd + string(hist)
			cancel()
		}()
	}
	wg.Wait()
	h.secs += secs
	return res
}
