package main

// Paths are explored block by block. The states that arrive at a block and agree on the memory are
// merged into one, whose path condition is the disjunction of theirs.

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	atBlock = iota
	atBack
	atRet
)

type arrival struct {
	kind   int
	b      *ssa.BasicBlock
	key    int
	s      *State
	env    map[ssa.Value]Val
	active map[*ssa.BasicBlock]*loopAct
	phis   []Val
	rets   []Val
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
	}
	return ph
}

// order gives the blocks of fn a topological order in which the body of a loop comes before what
// follows the loop.
func (p *Prog) order(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if o, ok := p.orders[fn]; ok {
		return o
	}
	o := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		o[b] = len(post) - i
	}
	if p.orders == nil {
		p.orders = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	p.orders[fn] = o
	return o
}

// block continues with block b, reached from prev.
func (x *Exec) block(fr *Frame, s *State, b, prev *ssa.BasicBlock) {
	if s.dead || fr.recording(b) {
		return
	}
	a := &arrival{b: b, s: s, key: x.p.order(fr.fn)[b]}
	if act := fr.active[b]; act != nil && prev != nil && act.li.blocks[prev] {
		a.kind, a.key = atBack, 1<<20+len(fr.fn.Blocks)-a.key
	}
	if prev != nil {
		k := predIndex(b, prev)
		for _, p := range phisOf(b) {
			a.phis = append(a.phis, x.val(fr, s, p.Edges[k]))
		}
	}
	x.arrive(fr, a)
}

func (x *Exec) arrive(fr *Frame, a *arrival) {
	a.env = make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		a.env[k] = v
	}
	a.active = make(map[*ssa.BasicBlock]*loopAct, len(fr.active))
	for k, v := range fr.active {
		a.active[k] = v
	}
	fr.work = append(fr.work, a)
	if !fr.running {
		x.drain(fr)
	}
}

// drain processes everything that waits in the frame.
func (x *Exec) drain(fr *Frame) {
	saved := fr.running
	fr.running = true
	for len(fr.work) > 0 {
		min := fr.work[0]
		for _, a := range fr.work {
			if a.key < min.key {
				min = a
			}
		}
		var here, rest []*arrival
		for _, a := range fr.work {
			if a.kind == min.kind && a.b == min.b {
				here = append(here, a)
			} else {
				rest = append(rest, a)
			}
		}
		fr.work = rest
		for _, a := range x.merge(fr, here) {
			x.process(fr, a)
		}
	}
	fr.running = saved
}

func (x *Exec) process(fr *Frame, a *arrival) {
	x.steps++
	if x.steps > 100000 {
		panic(unsupported("too many paths"))
	}
	fr.env, fr.active = a.env, a.active
	if a.kind == atRet {
		fr.ret(a.s, a.rets)
		return
	}
	if a.phis != nil {
		for i, p := range phisOf(a.b) {
			fr.env[p] = a.phis[i]
			if p.Comment != "" {
				a.s.names[p.Comment] = a.phis[i]
			}
		}
	}
	if a.kind == atBack {
		x.backEdge(fr, a.s, a.b, fr.active[a.b])
		return
	}
	if li, ok := fr.loops[a.b]; ok {
		x.loopHead(fr, a.s, a.b, li)
		return
	}
	x.instrs(fr, a.s, a.b, 0)
}

func (x *Exec) merge(fr *Frame, as []*arrival) []*arrival {
	if len(as) == 1 || x.fs.NoMerge {
		return as
	}
	var groups [][]*arrival
next:
	for _, a := range as {
		for i, g := range groups {
			if x.compatible(fr, g[0], a) {
				groups[i] = append(g, a)
				continue next
			}
		}
		groups = append(groups, []*arrival{a})
	}
	var out []*arrival
	for _, g := range groups {
		out = append(out, x.join(fr, g))
	}
	return out
}

func valEq(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch a := a.(type) {
	case *Term:
		b, ok := b.(*Term)
		return ok && a == b
	case *PtrV:
		b, ok := b.(*PtrV)
		return ok && (a == b || *a == *b)
	case *SliceV:
		b, ok := b.(*SliceV)
		return ok && (a == b || *a == *b)
	case *MapV:
		b, ok := b.(*MapV)
		return ok && (a == b || *a == *b)
	case *IfaceV:
		b, ok := b.(*IfaceV)
		return ok && (a == b || a.T == b.T)
	case *FuncV:
		b, ok := b.(*FuncV)
		return ok && (a == b || a.T == b.T)
	case *StructV:
		b, ok := b.(*StructV)
		if !ok || len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !valEq(a.F[i], b.F[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		b, ok := b.(*ArrV)
		if !ok || len(a.E) != len(b.E) {
			return false
		}
		for i := range a.E {
			if !valEq(a.E[i], b.E[i]) {
				return false
			}
		}
		return true
	case TupleV:
		b, ok := b.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !valEq(a[i], b[i]) {
				return false
			}
		}
		return true
	case *ClosureV:
		b, ok := b.(*ClosureV)
		if !ok || a.Fn != b.Fn || len(a.Bind) != len(b.Bind) {
			return false
		}
		for i := range a.Bind {
			if !valEq(a.Bind[i], b.Bind[i]) {
				return false
			}
		}
		return true
	case *Loc:
		b, ok := b.(*Loc)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if len(a.path) != len(b.path) || len(a.alts) > 0 || len(b.alts) > 0 {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
		return a.space == b.space && a.prefix == b.prefix && a.ref == b.ref && a.idx == b.idx && a.cell == b.cell && a.typ == b.typ && a.comp == b.comp
	}
	return false
}

// mergeable: two values can be represented by one
func mergeable(a, b Val) bool {
	if valEq(a, b) {
		return true
	}
	switch a := a.(type) {
	case *Term:
		b, ok := b.(*Term)
		return ok && a.Sort == b.Sort
	case *PtrV:
		b, ok := b.(*PtrV)
		if !ok {
			return false
		}
		c := *b
		c.Ref = a.Ref
		return *a == c
	case *SliceV:
		b, ok := b.(*SliceV)
		return ok && a.Region == b.Region && a.Owner == b.Owner && a.Cell == nil && b.Cell == nil
	case *IfaceV:
		_, ok := b.(*IfaceV)
		return ok
	case *StructV:
		b, ok := b.(*StructV)
		if !ok || len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !mergeable(a.F[i], b.F[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func mergeVals(vs []Val, eqs [][]*Term) Val {
	same := true
	for _, v := range vs {
		same = same && valEq(v, vs[0])
	}
	if same {
		return vs[0]
	}
	terms := func(f func(Val) *Term) *Term {
		ts := make([]*Term, len(vs))
		same := true
		for i, v := range vs {
			ts[i] = f(v)
			same = same && ts[i] == ts[0]
		}
		if same {
			return ts[0]
		}
		m := Fresh("m", ts[0].Sort)
		for i := range ts {
			eqs[i] = append(eqs[i], Eq(m, ts[i]))
		}
		return m
	}
	switch v := vs[0].(type) {
	case *Term:
		return terms(func(v Val) *Term { return v.(*Term) })
	case *PtrV:
		c := *v
		c.Ref = terms(func(v Val) *Term { return v.(*PtrV).Ref })
		return &c
	case *SliceV:
		c := *v
		c.Arr = terms(func(v Val) *Term { return v.(*SliceV).Arr })
		c.Off = terms(func(v Val) *Term { return v.(*SliceV).Off })
		c.Len = terms(func(v Val) *Term { return v.(*SliceV).Len })
		c.Cap = terms(func(v Val) *Term { return v.(*SliceV).Cap })
		return &c
	case *IfaceV:
		c := *v
		c.T = terms(func(v Val) *Term { return v.(*IfaceV).T })
		return &c
	case *StructV:
		c := &StructV{T: v.T}
		for i := range v.F {
			fs := make([]Val, len(vs))
			for j := range vs {
				fs[j] = vs[j].(*StructV).F[i]
			}
			c.F = append(c.F, mergeVals(fs, eqs))
		}
		return c
	}
	panic(unsupported("merge of values"))
}

// maxHeapDiff bounds the heap components in which merged states may differ.
const maxHeapDiff = 4

func heapDiff(a, b *State) []string {
	var out []string
	for n, t := range a.heap {
		if u, ok := b.heap[n]; ok {
			if u != t {
				out = append(out, n)
			}
		} else if t != Sym("H!"+n+b.epoch, t.Sort) {
			out = append(out, n)
		}
	}
	for n, t := range b.heap {
		if _, ok := a.heap[n]; !ok && t != Sym("H!"+n+a.epoch, t.Sort) {
			out = append(out, n)
		}
	}
	return out
}

func (x *Exec) compatible(fr *Frame, a, b *arrival) bool {
	s, t := a.s, b.s
	if s.pre != t.pre || s.writes != t.writes || s.epoch != t.epoch || len(heapDiff(s, t)) > maxHeapDiff {
		return false
	}
	for c, v := range s.cells {
		if w, ok := t.cells[c]; ok && !valEq(v, w) {
			return false
		}
	}
	for f, ds := range s.defers {
		es := t.defers[f]
		if len(ds) != len(es) {
			return false
		}
		for i := range ds {
			if ds[i] != es[i] {
				return false
			}
		}
	}
	for f, ds := range t.defers {
		if len(ds) != len(s.defers[f]) {
			return false
		}
	}
	for k, v := range a.active {
		if b.active[k] != v {
			return false
		}
	}
	for k, v := range b.active {
		if a.active[k] != v {
			return false
		}
	}
	for i := range a.phis {
		if !mergeable(a.phis[i], b.phis[i]) {
			return false
		}
	}
	for i := range a.rets {
		if !mergeable(a.rets[i], b.rets[i]) {
			return false
		}
	}
	if a.kind == atRet {
		return true
	}
	for v, av := range a.env {
		bv, ok := b.env[v]
		if !ok || valEq(av, bv) {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && !(in.Block().Dominates(a.b) && in.Block() != a.b) {
			continue // not used from here on
		}
		return false
	}
	return true
}

func (x *Exec) join(fr *Frame, g []*arrival) *arrival {
	if len(g) == 1 {
		return g[0]
	}
	r := &arrival{kind: g[0].kind, b: g[0].b, key: g[0].key, active: g[0].active, env: map[ssa.Value]Val{}}
	s := g[0].s.clone()
	s.lam = nil
	// what all agree on
	for v, w := range g[0].env {
		ok := true
		for _, a := range g[1:] {
			u, has := a.env[v]
			ok = ok && has && valEq(u, w)
		}
		if ok {
			r.env[v] = w
		}
	}
	for n, w := range g[0].s.names {
		for _, a := range g[1:] {
			u, has := a.s.names[n]
			if !has || !valEq(u, w) {
				delete(s.names, n)
			}
		}
	}
	for c := range g[0].s.cells {
		for _, a := range g[1:] {
			if _, has := a.s.cells[c]; !has {
				delete(s.cells, c)
			}
		}
	}
	for t := range g[0].s.fresh {
		for _, a := range g[1:] {
			if !a.s.fresh[t] {
				delete(s.fresh, t)
			}
		}
	}
	for l := range g[0].s.lits {
		for _, a := range g[1:] {
			if !a.s.lits[l] {
				delete(s.lits, l)
				break
			}
		}
	}
	for k, v := range g[0].s.eqs {
		for _, a := range g[1:] {
			if a.s.eqs[k] != v {
				delete(s.eqs, k)
				break
			}
		}
	}
	eqs := make([][]*Term, len(g))
	merged := func(get func(*arrival) []Val) []Val {
		var out []Val
		for i := range get(g[0]) {
			vs := make([]Val, len(g))
			for j, a := range g {
				vs[j] = get(a)[i]
			}
			out = append(out, mergeVals(vs, eqs))
		}
		return out
	}
	r.phis = merged(func(a *arrival) []Val { return a.phis })
	r.rets = merged(func(a *arrival) []Val { return a.rets })
	diff := map[string]bool{}
	for _, a := range g[1:] {
		for _, n := range heapDiff(g[0].s, a.s) {
			diff[n] = true
		}
	}
	var dn []string
	for n := range diff {
		dn = append(dn, n)
	}
	sort.Strings(dn)
	mergeTerms := func(get func(*State) *Term) *Term {
		vs := make([]Val, len(g))
		for j, a := range g {
			vs[j] = get(a.s)
		}
		return mergeVals(vs, eqs).(*Term)
	}
	for _, n := range dn {
		var srt string
		for _, a := range g {
			if t, ok := a.s.heap[n]; ok {
				srt = t.Sort
			}
		}
		s.heap[n] = mergeTerms(func(s *State) *Term { return s.H(n, srt) })
	}
	s.next = mergeTerms(func(s *State) *Term { return s.next })
	// the path condition: the common part, and one of the rests
	anc := g[0].s.pc
	for _, a := range g[1:] {
		anc = commonNode(anc, a.s.pc)
	}
	count := map[*Term]int{}
	deltas := make([][]*Term, len(g))
	for i, a := range g {
		for n := a.s.pc; n != anc; n = n.prev {
			deltas[i] = append(deltas[i], n.t)
		}
		for l, h := 0, len(deltas[i])-1; l < h; l, h = l+1, h-1 {
			deltas[i][l], deltas[i][h] = deltas[i][h], deltas[i][l]
		}
		for _, t := range deltas[i] {
			count[t]++
		}
	}
	s.pc = anc
	for _, t := range deltas[0] {
		if count[t] == len(g) {
			n := 1
			if s.pc != nil {
				n = s.pc.n + 1
			}
			s.pc = &pcNode{t, s.pc, n}
		}
	}
	var alts []*Term
	for i := range g {
		var cs []*Term
		for _, t := range deltas[i] {
			if count[t] != len(g) {
				cs = append(cs, t)
			}
		}
		alts = append(alts, And(append(cs, eqs[i]...)...))
	}
	s.assume(Or(simplifyAlts(alts)...))
	r.s = s
	return r
}

// simplifyAlts drops the complementary literal of two alternatives that only differ by it.
func simplifyAlts(alts []*Term) []*Term {
	conj := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		if t.Op == "and" {
			for _, a := range t.Args {
				m[a] = true
			}
		} else if t != tTrue {
			m[t] = true
		}
		return m
	}
	for changed := true; changed; {
		changed = false
	search:
		for i := range alts {
			for j := i + 1; j < len(alts); j++ {
				a, b := conj(alts[i]), conj(alts[j])
				if len(a) != len(b) {
					continue
				}
				var da *Term
				n := 0
				for t := range a {
					if !b[t] {
						da = t
						n++
					}
				}
				if n > 1 || n == 1 && !b[Not(da)] {
					continue
				}
				var cs []*Term
				for t := range a {
					if t != da {
						cs = append(cs, t)
					}
				}
				sort.Slice(cs, func(p, q int) bool { return cs[p].id < cs[q].id })
				alts[i] = And(cs...)
				alts = append(alts[:j:j], alts[j+1:]...)
				changed = true
				break search
			}
		}
	}
	return alts
}

func commonNode(a, b *pcNode) *pcNode {
	for a != b {
		switch {
		case a == nil || b == nil:
			return nil
		case a.n > b.n:
			a = a.prev
		case b.n > a.n:
			b = b.prev
		default:
			a, b = a.prev, b.prev
		}
	}
	return a
}
