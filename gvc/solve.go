package main

// Printing of verification conditions in SMT-LIB and the solver portfolio.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// alpha renames the bound variables of a term so that nothing can be captured.
func alphaFresh(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			m := map[*Term]*Term{}
			var nv []*Term
			for _, v := range t.Vars {
				bvn++
				b := BV(fmt.Sprintf("f%d", bvn), v.Sort)
				m[v] = b
				nv = append(nv, b)
			}
			for i := range args {
				args[i] = Subst(args[i], m)
			}
			var pats [][]*Term
			k := 1
			for _, n := range t.Npat {
				pats = append(pats, args[k:k+n])
				k += n
			}
			r = Quant(t.Op, nv, args[0], pats)
		} else {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func hasQuant(t *Term) bool { return qdepth(t) > 0 }

type symSet map[string]bool

func collect(t *Term, seen map[*Term]bool, out symSet, emit func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if _, ok := symSort[t.Op]; ok {
		out[t.Op] = true
	}
	if emit != nil {
		emit(t)
	}
	for _, a := range t.Args {
		collect(a, seen, out, emit)
	}
}

// prepAxioms evaluates the axioms of the contract files.
func (p *Prog) prepAxioms() {
	for _, a := range p.spec.Axioms {
		e := &Env{p: p, s: newState("^axiom"), vars: map[string]Val{}}
		c := *a
		c.term = e.bool(a.E)
		c.pats = nil
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.Op == "and" {
				for _, y := range t.Args {
					walk(y)
				}
				return
			}
			if t.Op == "forall" && len(t.Npat) > 0 {
				k := 1
				for _, n := range t.Npat {
					ss := symSet{}
					seen := map[*Term]bool{}
					for _, y := range t.Args[k : k+n] {
						collect(y, seen, ss, nil)
					}
					c.pats = append(c.pats, ss)
					k += n
				}
				return
			}
			ss := symSet{}
			collect(t, map[*Term]bool{}, ss, nil)
			c.pats = append(c.pats, ss)
		}
		walk(c.term)
		p.axioms = append(p.axioms, &c)
	}
}

func subset(a, b symSet) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// query prints the question "do the facts imply the goal".
func (p *Prog) query(facts []*Term, goal *Term, reveal, groups map[string]bool, upto int) string {
	var as []*Term
	ex := &expander{p: p, reveal: reveal, memo: map[*Term]*Term{}, done: map[*Term]bool{}}
	for _, f := range facts {
		as = append(as, ex.expand(f))
	}
	as = append(as, Not(ex.expand(goal)))
	as = append(ex.defs, as...)
	syms := symSet{}
	seen := map[*Term]bool{}
	for _, a := range as {
		collect(a, seen, syms, nil)
	}
	var ax []*Term
	used := make([]bool, len(p.axioms))
	for changed := true; changed; {
		changed = false
		for i, a := range p.axioms {
			if used[i] || upto >= 0 && i >= upto {
				continue
			}
			if a.Group != "" && !groups[a.Group] {
				continue
			}
			ok := false
			for _, s := range a.pats {
				if subset(s, syms) {
					ok = true
					break
				}
			}
			if !ok {
				continue
			}
			used[i] = true
			changed = true
			ax = append(ax, a.term)
			collect(a.term, seen, syms, nil)
		}
	}
	// built-in facts
	var names []string
	for s := range syms {
		names = append(names, s)
	}
	sort.Strings(names)
	embk := 0
	for _, s := range names {
		if strings.HasPrefix(s, "emb!") {
			r := BV("r", "Int")
			e := App(s, "Int", r)
			ax = append(ax, Quant("forall", []*Term{r}, And(Lt(e, Num(0)), Eq(App("embinv", "Int", e), r), Eq(App("embtag", "Int", e), Num(int64(embk)))), [][]*Term{{e}}))
			embk++
		}
		if strings.HasPrefix(s, "iface!") {
			r := BV("r", "Int")
			e := App(s, symSort[s][1], BV("r", symSort[s][0]))
			r = BV("r", symSort[s][0])
			ax = append(ax, Quant("forall", []*Term{r}, Eq(App("ifaceinv!"+s, symSort[s][0], e), r), [][]*Term{{e}}))
		}
		if strings.HasPrefix(s, "mkkey") {
			n := len(symSort[s]) - 1
			var vs []*Term
			for i := 0; i < n; i++ {
				vs = append(vs, BV(fmt.Sprintf("k%d", i), "Int"))
			}
			k := App(s, "Key", vs...)
			var cs []*Term
			for i := 0; i < n; i++ {
				cs = append(cs, Eq(App(fmt.Sprintf("keyproj%d", i), "Int", k), vs[i]))
			}
			ax = append(ax, Quant("forall", vs, And(cs...), [][]*Term{{k}}))
		}
	}
	all := append(ax, as...)
	return smtText(all, p.spec.Sorts)
}

func smtText(all []*Term, sorts []string) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, s := range append([]string{"Str", "Flt", "Key"}, sorts...) {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	syms := symSet{}
	seen := map[*Term]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := symSort[t.Op]; ok {
			syms[t.Op] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, t := range all {
		visit(t)
	}
	var names []string
	for s := range syms {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		d := symSort[s]
		if len(d) == 1 {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtName(s), d[0])
		} else {
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(s), strings.Join(d[:len(d)-1], " "), d[len(d)-1])
		}
	}
	nm := map[*Term]string{}
	n := 0
	for _, t := range order {
		if refs[t] > 1 && len(t.Args) > 0 && t.fv == nil && (len(t.Args) > 1 || len(t.Args[0].Args) > 0) {
			n++
			name := fmt.Sprintf("$%d", n)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", name, t.Sort)
			t.printTop(&sb, nm)
			sb.WriteString(")\n")
			nm[t] = name
		}
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		t.print(&sb, nm)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// ---- solvers

type solverCfg struct {
	name string
	args func(file string, sec int) []string
}

func z3cfg(bin string, opts ...string) solverCfg {
	return solverCfg{bin, func(f string, s int) []string {
		a := []string{bin, fmt.Sprintf("-T:%d", s), "-memory:3000", "smt.auto_config=false", "smt.mbqi=false"}
		return append(append(a, opts...), f)
	}}
}

// The solvers, with various strategies for the instantiation of quantifiers.
var solvers = map[string]solverCfg{
	"z3-q5":  z3cfg("z3-new", "smt.qi.eager_threshold=5", "smt.delay_units=true"),
	"z3-q20": z3cfg("z3-new", "smt.qi.eager_threshold=20"),
	"z3-rel": z3cfg("z3-new", "smt.relevancy=0"),
	"z3-cs3": z3cfg("z3-new", "smt.qi.eager_threshold=5", "smt.delay_units=true", "smt.case_split=3"),
	"z3-7":   z3cfg("z3-new", "smt.case_split=3", "smt.random_seed=7"),
	"z3-r5":  z3cfg("z3-new", "smt.qi.eager_threshold=5", "smt.relevancy=0"),
	"z3-old": z3cfg("z3"),
	"z3-oq5": z3cfg("z3", "smt.qi.eager_threshold=5", "smt.delay_units=true"),
	"cvc5": {"cvc5", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), "--lang=smt2", f}
	}},
}

type stage struct {
	names []string
	sec   int
}

var stages = []stage{{[]string{"z3-q5"}, 2}, {[]string{"z3-oq5", "z3-rel", "cvc5", "z3-cs3"}, 15}}

var lastStage = []stage{{[]string{"z3-q5", "z3-rel", "z3-r5", "z3-q20", "z3-7", "z3-old", "z3-oq5", "cvc5"}, 40}}

var cacheDir = os.Getenv("GVC_CACHE")

type result struct {
	status string // unsat, sat, unknown
	by     string
	secs   float64
	out    string
}

var tmpDir string
var qn int
var qmu sync.Mutex

func runOne(ctx context.Context, name, file string, sec int) (string, string) {
	a := solvers[name].args(file, sec)
	c2, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	first := ""
	for _, l := range strings.Split(s, "\n") {
		if l == "unsat" || l == "sat" {
			first = l
		}
	}
	if strings.Contains(s, "(error") {
		first = ""
	}
	if first == "unsat" || first == "sat" {
		return first, s
	}
	if strings.Contains(s, "(error") || strings.Contains(s, "rror:") {
		return "error", s
	}
	return "unknown", s
}

func prove(q string, st []stage) result {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(q)))
	if cacheDir != "" {
		if d, err := os.ReadFile(filepath.Join(cacheDir, h)); err == nil {
			w := strings.SplitN(string(d), " ", 2)
			return result{status: w[0], by: w[1]}
		}
	}
	if d := os.Getenv("GVC_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, h[:12]+".smt2"), []byte(q), 0o644)
	}
	file := filepath.Join(tmpDir, h[:20]+".smt2")
	os.WriteFile(file, []byte(q), 0o644)
	defer os.Remove(file)
	t0 := time.Now()
	var outs []string
	for _, s := range st {
		type rr struct{ r, o, n string }
		ch := make(chan rr, len(s.names))
		ctx, cancel := context.WithCancel(context.Background())
		for _, n := range s.names {
			n := n
			go func() {
				r, o := runOne(ctx, n, file, s.sec)
				ch <- rr{r, o, n}
			}()
		}
		for range s.names {
			r := <-ch
			if r.r == "unsat" || r.r == "sat" {
				cancel()
				if cacheDir != "" && r.r == "unsat" {
					os.WriteFile(filepath.Join(cacheDir, h), []byte(r.r+" "+r.n), 0o644)
				}
				return result{r.r, r.n, time.Since(t0).Seconds(), r.o}
			}
			o := r.o
			if len(o) > 300 {
				o = o[:300]
			}
			outs = append(outs, r.n+": "+r.r+" "+o)
		}
		cancel()
	}
	return result{"unknown", "", time.Since(t0).Seconds(), strings.Join(outs, "; ")}
}
