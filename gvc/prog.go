package main

// Loading of the package under verification.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	embs     map[string]bool // struct types that are parts of other structs
	dir      string
	tag      string
	spec     *Spec
	prog     *ssa.Program
	pkg      *ssa.Package
	fset     *token.FileSet
	funcs    map[string]*ssa.Function
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	orders   map[*ssa.Function]map[*ssa.BasicBlock]int
	scc      map[string]int
	sccRec   map[string]bool
	tmpls    map[*Def]*tmpl
	tmplBusy map[*Def]bool
	opaque   map[string]*tmpl
	inits    *State
	stored   map[*ssa.Global]bool
	ncell    int
	trivial  int
	axioms   []*Axiom
	calls    map[string][]string
	hsorts   map[string]string
	mu       sync.Mutex
	lambda   map[*Term]*Term
}

func (p *Prog) tagName() string {
	if p.tag == "" {
		return "hudd"
	}
	return p.tag
}

func (p *Prog) rel(pos token.Pos) string {
	q := p.fset.Position(pos)
	if !q.IsValid() {
		return "?"
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (p *Prog) fnName(f *ssa.Function) string {
	if f.Pkg == p.pkg || f.Pkg == nil {
		n := f.RelString(p.pkg.Pkg)
		if f.Pkg != nil || f.Synthetic != "" {
			return n
		}
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		s := types.TypeString(t, func(q *types.Package) string { return q.Name() })
		if strings.HasPrefix(s, "*") {
			s = "(" + s + ")"
		}
		return s + "." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.String()
}

func loadProg(dir, tag string, spec *Spec) (*Prog, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadAllSyntax, Tests: false}
	if tag != "" {
		cfg.BuildFlags = []string{"-tags=" + tag}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(pkgs), dir)
	}
	for _, e := range pkgs[0].Errors {
		return nil, fmt.Errorf("%v", e)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	ps[0].Build()
	p := &Prog{lambda: map[*Term]*Term{}, dir: dir, tag: tag, spec: spec, prog: prog, pkg: ps[0], fset: prog.Fset, funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		tmpls: map[*Def]*tmpl{}, tmplBusy: map[*Def]bool{}, opaque: map[string]*tmpl{}, stored: map[*ssa.Global]bool{}, calls: map[string][]string{}, hsorts: map[string]string{}}
	mainPkg = ps[0].Pkg
	mainPkgName = mainPkg.Name()
	all := ssautil.AllFunctions(prog)
	var fns []*ssa.Function
	for f := range all {
		if f.Pkg == p.pkg {
			fns = append(fns, f)
		}
	}
	// methods that nothing calls are functions of the package too
	for _, m := range p.pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p.pkg && !all[f] {
						fns = append(fns, f)
						all[f] = true
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		p.funcs[p.fnName(f)] = f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && f.Name() != "init" {
					if g, ok := rootGlobal(st.Addr); ok {
						p.stored[g] = true
					}
				}
			}
		}
	}
	p.callGraph()
	p.runInit()
	return p, nil
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil, false
		}
	}
}

func (p *Prog) callGraph() {
	adj := map[string][]string{}
	for n, f := range p.funcs {
		seen := map[string]bool{}
		var visit func(f *ssa.Function, d int)
		add := func(m string) {
			if !seen[m] {
				seen[m] = true
				adj[n] = append(adj[n], m)
			}
		}
		visit = func(f *ssa.Function, d int) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var c *ssa.CallCommon
					if ci, ok := in.(ssa.CallInstruction); ok {
						c = ci.Common()
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						add(p.fnName(mc.Fn.(*ssa.Function)))
					}
					if c == nil {
						continue
					}
					if g := c.StaticCallee(); g != nil {
						if g.Pkg == p.pkg {
							add(p.fnName(g))
						} else if g.Synthetic != "" && d < 4 {
							visit(g, d+1) // promoted method wrappers
						}
					} else if c.IsInvoke() {
						if m := p.devirtualize(c.Value.Type(), c.Method); m != nil {
							add(p.fnName(m))
						}
					}
				}
			}
		}
		visit(f, 0)
		sort.Strings(adj[n])
	}
	p.calls = adj
	// Tarjan
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var st []string
	p.scc = map[string]int{}
	p.sccRec = map[string]bool{}
	n, ns := 0, 0
	var dfs func(v string)
	dfs = func(v string) {
		n++
		idx[v], low[v] = n, n
		st = append(st, v)
		on[v] = true
		for _, w := range adj[v] {
			if w == v {
				p.sccRec[v] = true
			}
			if _, ok := p.funcs[w]; !ok {
				continue
			}
			if idx[w] == 0 {
				dfs(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], idx[w])
			}
		}
		if low[v] == idx[v] {
			ns++
			k := 0
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				p.scc[w] = ns
				k++
				if k > 1 {
					p.sccRec[w] = true
				}
				if w == v {
					if k > 1 {
						p.sccRec[v] = true
					}
					break
				}
			}
		}
	}
	var names []string
	for v := range p.funcs {
		names = append(names, v)
	}
	sort.Strings(names)
	for _, v := range names {
		if idx[v] == 0 {
			dfs(v)
		}
	}
}

func (p *Prog) recursive(f *ssa.Function) bool { return p.sccRec[p.fnName(f)] }
func (p *Prog) sameSCC(f *ssa.Function, name string) bool {
	a, ok := p.scc[name]
	n := p.fnName(f)
	return ok && p.scc[n] == a && p.sccRec[n]
}

// devirtualize resolves a call through an interface of the package that has one implementation in it.
func (p *Prog) devirtualize(it types.Type, m *types.Func) *ssa.Function {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() != p.pkg.Pkg {
		return nil
	}
	iface := und(it).(*types.Interface)
	var found *ssa.Function
	for _, mem := range p.pkg.Members {
		t, ok := mem.(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) {
			continue
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if types.Implements(tt, iface) {
				sel := p.prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name())
				f := p.prog.MethodValue(sel)
				if f.Synthetic != "" {
					continue
				}
				if found != nil && found != f {
					return nil
				}
				found = f
			}
		}
	}
	return found
}

// ---- package variables

func (p *Prog) globalLoc(g *ssa.Global) *Loc {
	t := g.Type().(*types.Pointer).Elem()
	return &Loc{space: "obj", prefix: "glob!" + g.Name(), ref: Num(0), typ: t}
}

func (p *Prog) globalAddr(s *State, g *ssa.Global) Val {
	if !p.stored[g] && g.Pkg == p.pkg && p.inits != nil {
		// read-only: a cell holding the initial value
		if at, ok := und(g.Type().(*types.Pointer).Elem()).(*types.Array); ok {
			c := p.globCell(g)
			if _, ok := s.cells[c]; !ok {
				s.cells[c] = p.globalVal(s, g)
			}
			return &Loc{space: "cell", cell: c, typ: at}
		}
	}
	return p.globalLoc(g)
}

var globCells = map[*ssa.Global]*Cell{}

func (p *Prog) globCell(g *ssa.Global) *Cell {
	if c, ok := globCells[g]; ok {
		return c
	}
	c := &Cell{typ: g.Type().(*types.Pointer).Elem(), name: g.Name(), id: -len(globCells) - 1}
	globCells[g] = c
	return c
}

// globalVal is the value of a package variable: the initial one when nothing assigns it.
func (p *Prog) globalVal(s *State, g *ssa.Global) Val {
	if !p.stored[g] && g.Pkg == p.pkg && p.inits != nil && s != p.inits {
		return p.inits.load(p.initLoc(g))
	}
	return s.load(p.globalLoc(g))
}

func (p *Prog) initLoc(g *ssa.Global) *Loc { return p.globalLoc(g) }

// runInit executes the package initialiser symbolically.
func (p *Prog) runInit() {
	f := p.funcs["init"]
	if f == nil {
		return
	}
	x := &Exec{p: p, fn: f, fs: &FuncSpec{Loops: map[int]*LoopSpec{}, CBs: map[string]*CallbackSpec{}}, params: map[string]Val{}, loopNo: map[string]int{}, callee: map[string]bool{}, inl: map[string]bool{}, trust: map[string]bool{}, quiet: 1, covered: map[*ssa.BasicBlock]bool{}}
	s := newState("!init")
	s.next = Num(1)
	x.entry = s.clone()
	for n := range p.pkg.Members {
		if g, ok := p.pkg.Members[n].(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			func() {
				defer func() { recover() }()
				s.store(p.globalLoc(g), zero(t))
			}()
		}
	}
	fr := x.newFrame(f, nil, "")
	var done *State
	fr.ret = func(s *State, _ []Val) { done = s }
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					fmt.Println("init:", u)
					return
				}
				panic(r)
			}
		}()
		x.block(fr, s, f.Blocks[0], nil)
	}()
	if done != nil {
		p.inits = done
	}
}

// initFacts: what the package variables point to.
func (p *Prog) initFacts(s *State) []*Term {
	var out []*Term
	if p.inits == nil {
		return nil
	}
	out = append(out, Le(p.inits.next, s.next))
	out = append(out, p.inits.pcs()...)
	for _, m := range p.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || p.stored[g] {
			continue
		}
		if pt, ok := und(g.Type().(*types.Pointer).Elem()).(*types.Pointer); ok && !isStruct(pt.Elem()) {
			v := p.inits.load(p.globalLoc(g)).(*PtrV)
			l := ptrLoc(v)
			out = append(out, Eq(term(s.load(l)), term(p.inits.load(l))))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// heapSym makes the heap component of a name that no access has used yet.
func (p *Prog) heapSym(s *State, name string) *Term {
	if srt, ok := p.spec.Ghost[name]; ok {
		return s.H(name, objSort(srt))
	}
	if strings.HasPrefix(name, "glob.") {
		return nil
	}
	if strings.HasPrefix(name, "[]") {
		i := strings.Index(name, "@")
		el := name[2:i]
		var t types.Type = p.goType(el)
		if t == nil {
			for _, b := range types.Typ {
				if b.Name() == el {
					t = b
				}
			}
		}
		if strings.HasPrefix(el, "[2]int") {
			return s.H(name, elemHSort("Int"))
		}
		if t == nil {
			return nil
		}
		for _, c := range comps(t) {
			if c.suffix == name[i+1:] {
				return s.H(name, elemHSort(c.sort))
			}
		}
		return nil
	}
	if strings.HasPrefix(name, "box:") {
		return s.H(name, objSort("Int"))
	}
	if strings.HasPrefix(name, "map:") {
		return nil
	}
	w := strings.SplitN(name, ".", 2)
	if strings.HasPrefix(name, "glob!") {
		g := p.pkg.Var(strings.SplitN(name[5:], ".", 2)[0])
		if g == nil {
			return nil
		}
		for _, c := range comps(g.Type().(*types.Pointer).Elem()) {
			if "glob!"+g.Name()+c.suffix == name {
				return s.H(name, objSort(c.sort))
			}
		}
		return nil
	}
	t := p.goType(w[0])
	if t == nil {
		return nil
	}
	st := und(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if w[1] == st.Field(i).Name() || strings.HasPrefix(w[1], st.Field(i).Name()+".") {
			for _, c := range comps(st.Field(i).Type()) {
				if st.Field(i).Name()+c.suffix == w[1] {
					return s.H(name, objSort(c.sort))
				}
			}
		}
	}
	return nil
}
