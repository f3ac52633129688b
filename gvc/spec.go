package main

// Parser of the contract files (/verif/contracts/*.spec).

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Ex struct {
	K    string // "num","id","call","field","index","deref","un","bin","forall","exists","ite","let","old","lambda","str"
	S    string
	A    []*Ex
	Vars []VarDecl
	Pats [][]*Ex
	Line string
}
type VarDecl struct{ Name, Sort string }

type Clause struct {
	Kind string // requires ensures modifies decreases invariant ghost assert assume
	Tags []string
	E    *Ex
	L    *Ex // ghost target
	Cond *Ex
	Src  string
	Line string
	When string // ghost: entry, exit, loop
	Auto bool   // implied by another clause; also an invariant of loops
}

type LoopSpec struct {
	N       int
	Var     string
	Clauses []*Clause
}

type CallbackSpec struct {
	Param   string
	Args    []string
	Results []string
	Clauses []*Clause
}

type FuncSpec struct {
	Name      string // e.g. (*BDD).not
	Tag       string // "", "hudd", "buddy"
	Params    []string
	Results   []string
	Regions   map[string]string
	Clauses   []*Clause
	Loops     map[int]*LoopSpec
	CBs       map[string]*CallbackSpec
	Reveal    []string
	Pure      bool
	Trusted   bool
	Inline    bool
	Extern    bool
	Locked    bool
	Line      string
	Hints     []string
	Groups    []string // theory groups
	NoFrame   bool
	NoMerge   bool
	Used      bool
	Finalizer bool
	NoAlloc   bool
	FrameTags []string
}

type Def struct {
	Name   string
	Params []VarDecl
	Sort   string
	E      *Ex
	Opaque bool
	Tag    string
	Line   string
}
type FunDecl struct {
	Name string
	Args []string
	Ret  string
}
type Axiom struct {
	Name   string
	E      *Ex
	Src    string
	Group  string
	Line   string
	Lemma  bool
	Reveal []string
	term   *Term
	pats   []symSet // the axiom is relevant when all symbols of one of these sets occur
}

type Spec struct {
	Sorts    []string
	Funs     map[string]*FunDecl
	Defs     map[string]*Def
	Axioms   []*Axiom
	Funcs    []*FuncSpec
	Ghost    map[string]string // "tables.@T" -> sort
	Guards   []*GuardSpec
	Groups   map[string][]string
	Modset   map[string]string
	Clauses  map[string][]rawItem
	Order    []string // declaration order of funs for Lean
	Datas    []string
	Counters map[string]bool
	Props    map[string]*PropSpec
}

// PropSpec lists what decides a property.
type PropSpec struct {
	Name             string
	Tags             []string // tags of the obligations that belong to it, besides its own name
	Roots            []string // functions; their cone of calls is covered
	Builds, Thorough []string
	Bounded          int // seconds of bounded search on every run
	BoundedOnly      bool
	Select           string
	Level, Note      string
}

type GuardSpec struct {
	Region string
	E      *Ex
	Tag    string
	Line   string
}

func (s *Spec) lookupFunc(name, tag string) *FuncSpec {
	var r *FuncSpec
	for _, f := range s.Funcs {
		if f.Name == name && (r == nil || r.Tag == "" || f.Tag != "") {
			r = f
		}
	}
	return r
}

// ---- tokens

type tok struct {
	k string // id num op str eof
	s string
}

type parser struct {
	toks []tok
	p    int
	line string
}

func lex(src, line string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "=~=", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "<<", ">>"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '@' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '\'' || src[j] == '!') {
				if src[j] == '!' && j+1 < len(src) && src[j+1] == '=' {
					break
				}
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"num", src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j]})
			i = j + 1
		default:
			m := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					m = true
					break
				}
			}
			if !m {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("%s: %s near %q", p.line, msg, p.peek().s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

func (p *parser) sort() string {
	if p.accept("(") {
		s := "("
		first := true
		for !p.accept(")") {
			if !first {
				s += " "
			}
			first = false
			s += p.sort()
		}
		return s + ")"
	}
	return p.ident()
}

var binPrec = []map[string]bool{
	{"<==>": true}, {"==>": true}, {"||": true}, {"&&": true},
	{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "=~=": true},
	{"+": true, "-": true}, {"*": true, "/": true, "%": true},
}

func (p *parser) expr() *Ex { return p.bin(0) }

func (p *parser) mk(k, s string, a ...*Ex) *Ex { return &Ex{K: k, S: s, A: a, Line: p.line} }

func (p *parser) bin(l int) *Ex {
	if l == len(binPrec) {
		return p.unary()
	}
	x := p.bin(l + 1)
	for p.peek().k == "op" && binPrec[l][p.peek().s] {
		op := p.next().s
		if op == "==>" {
			y := p.bin(l)
			return p.mk("bin", op, x, y)
		}
		y := p.bin(l + 1)
		if l == 4 && x.K == "bin" && (x.S == "<" || x.S == "<=") && (op == "<" || op == "<=") {
			x = p.mk("bin", "&&", x, p.mk("bin", op, x.A[1], y))
			// keep chaining on the right operand
			x.Line = p.line
			last := y
			for p.peek().k == "op" && (p.peek().s == "<" || p.peek().s == "<=") {
				o := p.next().s
				z := p.bin(l + 1)
				x = p.mk("bin", "&&", x, p.mk("bin", o, last, z))
				last = z
			}
			continue
		}
		x = p.mk("bin", op, x, y)
	}
	return x
}

func (p *parser) unary() *Ex {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-":
			p.next()
			return p.mk("un", t.s, p.unary())
		case "*":
			p.next()
			return p.mk("deref", "", p.unary())
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Ex {
	x := p.primary()
	for {
		switch {
		case p.accept("."):
			x = p.mk("field", p.ident(), x)
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			x = p.mk("index", "", x, i)
		default:
			return x
		}
	}
}

func (p *parser) vars() []VarDecl {
	var vs []VarDecl
	for {
		n := p.ident()
		s := "Int"
		if p.accept(":") {
			s = p.sort()
		}
		vs = append(vs, VarDecl{n, s})
		if !p.accept(",") {
			break
		}
	}
	return vs
}

func (p *parser) primary() *Ex {
	t := p.next()
	switch t.k {
	case "num":
		return p.mk("num", t.s)
	case "str":
		return p.mk("str", t.s)
	case "op":
		if t.s == "(" {
			x := p.expr()
			p.expect(")")
			return x
		}
		p.p--
		p.fail("unexpected token")
	case "id":
		switch t.s {
		case "forall", "exists", "lambda":
			x := p.mk(t.s, "")
			x.Vars = p.vars()
			p.expect("::")
			for p.accept("{") {
				var pt []*Ex
				for {
					pt = append(pt, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				x.Pats = append(x.Pats, pt)
			}
			x.A = []*Ex{p.expr()}
			return x
		case "if":
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return p.mk("ite", "", c, a, b)
		case "let":
			n := p.ident()
			p.expect(":=")
			a := p.expr()
			p.expect(";")
			b := p.expr()
			return p.mk("let", n, a, b)
		case "old", "pre":
			p.expect("(")
			a := p.expr()
			p.expect(")")
			return p.mk(t.s, "", a)
		}
		if p.accept("(") {
			x := p.mk("call", t.s)
			for !p.accept(")") {
				x.A = append(x.A, p.expr())
				if !p.is(")") {
					p.expect(",")
				}
			}
			return x
		}
		return p.mk("id", t.s)
	}
	p.p--
	p.fail("expression expected")
	return nil
}

func parseExpr(src, line string) *Ex {
	p := &parser{toks: lex(src, line), line: line}
	e := p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing text in expression")
	}
	return e
}

// ---- files

var clauseKw = map[string]bool{"use": true, "requires": true, "ensures": true, "modifies": true, "decreases": true, "loop": true, "invariant": true,
	"ghost": true, "reveal": true, "pure": true, "trusted": true, "inline": true, "locked": true, "callback": true, "region": true, "groups": true, "assert": true, "noframe": true, "nomerge": true, "finalizer": true, "noalloc": true, "frametags": true, "loopassert": true}
var topKw = map[string]bool{"sort": true, "fun": true, "axiom": true, "def": true, "opaque": true, "func": true, "extern": true, "ghostfield": true, "guard": true, "group": true, "modset": true, "data": true, "counters": true, "lemma": true, "property": true, "clauses": true}

type rawItem struct {
	kw, tag, text, line string
	sub                 []rawItem
}

func stripComment(l string) string {
	if i := strings.Index(l, "#"); i >= 0 {
		l = l[:i]
	}
	if i := strings.Index(l, "//"); i >= 0 {
		l = l[:i]
	}
	return strings.TrimRight(l, " \t")
}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	j := 0
	for j < len(s) && (unicode.IsLetter(rune(s[j])) || s[j] == '_') {
		j++
	}
	return s[:j]
}

func loadSpec(dir, which string) *Spec {
	sp := &Spec{Funs: map[string]*FunDecl{}, Defs: map[string]*Def{}, Ghost: map[string]string{}, Groups: map[string][]string{}, Modset: map[string]string{}, Counters: map[string]bool{}, Props: map[string]*PropSpec{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var items []rawItem
		for n, l := range strings.Split(string(data), "\n") {
			l = stripComment(l)
			if strings.TrimSpace(l) == "" {
				continue
			}
			line := fmt.Sprintf("%s:%d", filepath.Base(f), n+1)
			w := firstWord(l)
			indented := l[0] == ' ' || l[0] == '\t'
			if !indented {
				if !topKw[w] {
					panic(line + ": unknown item " + w)
				}
				items = append(items, rawItem{kw: w, text: strings.TrimSpace(l)[len(w):], line: line})
				continue
			}
			it := &items[len(items)-1]
			if (it.kw == "func" || it.kw == "extern" || it.kw == "clauses") && clauseKw[w] {
				it.sub = append(it.sub, rawItem{kw: w, text: strings.TrimSpace(l)[len(w):], line: line})
				continue
			}
			if len(it.sub) > 0 {
				it.sub[len(it.sub)-1].text += "\n" + l
			} else {
				it.text += "\n" + l
			}
		}
		for _, it := range items {
			if t, rest := takeTags(it.text); len(t) > 0 && (t[0] == "hudd" || t[0] == "buddy") {
				if t[0] != which {
					continue
				}
				if it.kw == "axiom" || it.kw == "lemma" {
					it.text = rest
					if len(t) > 1 {
						it.text = " [" + strings.Join(t[1:], ",") + "] " + rest
					}
				}
			}
			sp.addItem(it)
		}
	}
	// the contracts of functions without state hold for the function symbols that stand for them
	for _, f := range sp.Funcs {
		if f.Pure && len(f.Results) == 1 {
			var rq, en []string
			app := f.Name + "(" + strings.Join(f.Params, ", ") + ")"
			re := regexp.MustCompile(`\b` + f.Results[0] + `\b`)
			for _, c := range f.Clauses {
				switch c.Kind {
				case "requires":
					rq = append(rq, "("+c.Src+")")
				case "ensures":
					en = append(en, "("+re.ReplaceAllString(c.Src, app)+")")
				}
			}
			rq = append(rq, "true")
			if len(en) > 0 {
				sp.addItem(rawItem{kw: "axiom", line: f.Line, text: " contract_" + f.Name + ": forall " + strings.Join(f.Params, ", ") + " :: {" + app + "} " + strings.Join(rq, " && ") + " ==> " + strings.Join(en, " && ")})
			}
		}
	}
	return sp
}

func takeTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		var tags []string
		for _, t := range strings.Split(s[1:i], ",") {
			if t = strings.TrimSpace(t); t != "" {
				tags = append(tags, t)
			}
		}
		return tags, strings.TrimSpace(s[i+1:])
	}
	return nil, s
}

func (sp *Spec) addItem(it rawItem) {
	tags, text := takeTags(it.text)
	tag := ""
	if len(tags) > 0 {
		tag = tags[0]
	}
	p := &parser{toks: lex(text, it.line), line: it.line}
	switch it.kw {
	case "sort":
		for p.peek().k == "id" {
			sp.Sorts = append(sp.Sorts, p.ident())
		}
	case "counters":
		for p.peek().k == "id" {
			sp.Counters[p.ident()] = true
		}
	case "property":
		w := strings.SplitN(text, ":", 2)
		ps := &PropSpec{Name: strings.TrimSpace(w[0])}
		for _, l := range strings.Split(w[1], "\n") {
			l = strings.TrimSpace(l)
			kv := strings.SplitN(l, "=", 2)
			if len(kv) < 2 {
				continue
			}
			v := strings.TrimSpace(kv[1])
			switch strings.TrimSpace(kv[0]) {
			case "tags":
				ps.Tags = strings.Fields(v)
			case "roots":
				for _, r := range strings.Fields(v) {
					ps.Roots = append(ps.Roots, r)
				}
			case "builds":
				ps.Builds = strings.Fields(v)
			case "thorough":
				ps.Thorough = strings.Fields(v)
			case "bounded":
				fmt.Sscan(v, &ps.Bounded)
			case "select":
				ps.Select = v
			case "only":
				ps.BoundedOnly = v == "bounded"
			case "level":
				ps.Level = v
			case "note":
				ps.Note = v
			default:
				panic(it.line + ": unknown field " + kv[0])
			}
		}
		sp.Props[ps.Name] = ps
	case "data":
		sp.Datas = append(sp.Datas, strings.TrimSpace(text))
	case "fun":
		n := p.ident()
		f := &FunDecl{Name: n}
		if p.accept("(") {
			for !p.accept(")") {
				f.Args = append(f.Args, p.sort())
				p.accept(",")
			}
		}
		p.expect(":")
		f.Ret = p.sort()
		sp.Funs[n] = f
		sp.Order = append(sp.Order, n)
	case "axiom", "lemma":
		var rv []string
		if p.accept("(") {
			p.expect("reveal")
			for !p.accept(")") {
				rv = append(rv, p.ident())
			}
		}
		n := p.ident()
		p.expect(":")
		e := p.expr()
		if p.peek().k != "eof" {
			p.fail("trailing text")
		}
		sp.Axioms = append(sp.Axioms, &Axiom{Name: n, E: e, Src: text, Line: it.line, Group: tag, Lemma: it.kw == "lemma", Reveal: rv})
	case "def", "opaque":
		d := &Def{Name: p.ident(), Opaque: it.kw == "opaque", Line: it.line, Sort: "Bool", Tag: tag}
		p.expect("(")
		for !p.accept(")") {
			v := VarDecl{Name: p.ident()}
			if p.accept(":") {
				v.Sort = p.sort()
			}
			d.Params = append(d.Params, v)
			p.accept(",")
		}
		if p.accept(":") {
			d.Sort = p.sort()
		}
		p.expect("=")
		d.E = p.expr()
		if p.peek().k != "eof" {
			p.fail("trailing text")
		}
		key := d.Name
		if tag != "" {
			key = tag + ":" + d.Name
		}
		sp.Defs[key] = d
	case "ghostfield":
		n := p.ident()
		for p.accept(".") {
			n += "." + p.ident()
		}
		p.expect(":")
		sp.Ghost[n] = p.sort()
	case "group":
		n := p.ident()
		p.expect(":")
		for p.peek().k == "id" {
			sp.Groups[n] = append(sp.Groups[n], p.ident())
		}
	case "modset":
		n := p.ident()
		p.expect(":")
		i := strings.Index(text, ":")
		sp.Modset[n] = text[i+1:]
	case "guard":
		// guard tables.nodes .refcou : expr over t (owner), i (index), w (is write)
		r := p.ident()
		p.expect(".")
		r += "." + p.ident()
		p.expect(":")
		sp.Guards = append(sp.Guards, &GuardSpec{Region: r, E: p.expr(), Line: it.line, Tag: "C20"})
	case "clauses":
		if sp.Clauses == nil {
			sp.Clauses = map[string][]rawItem{}
		}
		var subs []rawItem
		for _, s := range it.sub {
			if s.kw == "use" {
				c, ok := sp.Clauses[strings.TrimSpace(s.text)]
				if !ok {
					panic(s.line + ": unknown clauses " + s.text)
				}
				subs = append(subs, c...)
				continue
			}
			subs = append(subs, s)
		}
		sp.Clauses[strings.TrimSpace(text)] = subs
	case "func", "extern":
		sp.addFunc(it, tag, text)
	}
}

func (sp *Spec) addFunc(it rawItem, tag, text string) {
	f := &FuncSpec{Tag: tag, Regions: map[string]string{}, Loops: map[int]*LoopSpec{}, CBs: map[string]*CallbackSpec{}, Line: it.line, Extern: it.kw == "extern"}
	text = strings.TrimSpace(text)
	// NAME(params) results   where NAME may itself start with "(*T)."
	i := 0
	if strings.HasPrefix(text, "(") {
		i = strings.Index(text, ")") + 1
	}
	j := i + strings.Index(text[i:], "(")
	f.Name = text[:j]
	k := j + strings.Index(text[j:], ")")
	for _, a := range strings.Split(text[j+1:k], ",") {
		if a = strings.TrimSpace(a); a != "" {
			f.Params = append(f.Params, a)
		}
	}
	for _, a := range strings.FieldsFunc(text[k+1:], func(r rune) bool { return r == ' ' || r == ',' || r == '(' || r == ')' }) {
		f.Results = append(f.Results, a)
	}
	var loop *LoopSpec
	var cb *CallbackSpec
	var subs []rawItem
	for _, s := range it.sub {
		if s.kw == "use" {
			c, ok := sp.Clauses[strings.TrimSpace(s.text)]
			if !ok {
				panic(s.line + ": unknown clauses " + s.text)
			}
			subs = append(subs, c...)
			continue
		}
		subs = append(subs, s)
	}
	for _, s := range subs {
		tags, body := takeTags(s.text)
		body = strings.TrimSpace(body)
		switch s.kw {
		case "pure":
			f.Pure = true
		case "trusted":
			f.Trusted = true
		case "inline":
			f.Inline = true
		case "locked":
			f.Locked = true
		case "noframe":
			f.NoFrame = true
		case "reveal":
			f.Reveal = append(f.Reveal, strings.Fields(body)...)
		case "groups":
			f.Groups = append(f.Groups, strings.Fields(body)...)
		case "finalizer":
			f.Finalizer = true
		case "nomerge":
			f.NoMerge = true
		case "noalloc":
			f.NoAlloc = true
		case "frametags":
			f.FrameTags = strings.Fields(body)
		case "region":
			w := strings.Fields(body)
			f.Regions[w[0]] = w[1]
		case "loop":
			w := strings.Fields(body)
			n := 0
			fmt.Sscan(w[0], &n)
			loop = &LoopSpec{N: n}
			if len(w) > 1 {
				loop.Var = w[1]
			}
			cb = nil
			f.Loops[n] = loop
		case "callback":
			// callback f(a, b) err
			i := strings.Index(body, "(")
			j := strings.Index(body, ")")
			cb = &CallbackSpec{Param: strings.TrimSpace(body[:i])}
			for _, a := range strings.Split(body[i+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					cb.Args = append(cb.Args, a)
				}
			}
			cb.Results = strings.Fields(body[j+1:])
			loop = nil
			f.CBs[cb.Param] = cb
		default:
			c := &Clause{Kind: s.kw, Tags: tags, Line: s.line, Src: strings.Join(strings.Fields(body), " ")}
			if s.kw == "ghost" {
				// ghost [when] target := expr [if cond]
				w := firstWord(body)
				if w == "exit" || w == "entry" || w == "unlock" || w == "loop" || w == "cbexit" {
					c.When = w
					body = strings.TrimSpace(body)[len(w):]
				}
				p := &parser{toks: lex(body, s.line), line: s.line}
				c.L = p.postfix()
				p.expect(":=")
				c.E = p.expr()
				if p.accept("when") {
					c.Cond = p.expr()
				}
				if p.peek().k != "eof" {
					p.fail("trailing text")
				}
			} else if s.kw == "modifies" {
				for k := 0; k < 5 && strings.Contains(body, "$"); k++ {
					for n, t := range sp.Modset {
						body = replaceWord(body, "$"+n, t)
					}
				}
				parts := splitTop(body)
				fields := map[string]bool{}
				for _, b := range parts {
					fields[strings.TrimSpace(b)] = true
				}
				for _, b := range parts {
					cc := *c
					cc.E = parseExpr(b, s.line)
					if cb != nil {
						cb.Clauses = append(cb.Clauses, &cc)
					} else {
						f.Clauses = append(f.Clauses, &cc)
					}
					// a slice variable and its elements are both modified: it keeps its array or gets a new one
					if b = strings.TrimSpace(b); strings.HasPrefix(b, "elems(") {
						b = strings.TrimSuffix(strings.TrimPrefix(b, "elems("), ")")
						if i := strings.Index(b, ","); i >= 0 {
							b = b[:i]
						}
						if fields[b] {
							fields[b] = false
							cc := *c
							cc.Kind = "ensures"
							cc.Auto = true
							cc.Src = "arr(" + b + ") == old(arr(" + b + ")) || fresh(arr(" + b + "))"
							cc.E = parseExpr(cc.Src, s.line)
							if cb != nil {
								cb.Clauses = append(cb.Clauses, &cc)
							} else {
								f.Clauses = append(f.Clauses, &cc)
							}
						}
					}
				}
				continue
			} else {
				c.E = parseExpr(body, s.line)
			}
			switch {
			case loop != nil && (s.kw == "invariant" || s.kw == "decreases" || s.kw == "loopassert" || s.kw == "ghost" && (c.When == "loop" || c.When == "entry" || c.When == "")):
				loop.Clauses = append(loop.Clauses, c)
			case cb != nil && (s.kw == "requires" || s.kw == "ensures" || s.kw == "ghost"):
				cb.Clauses = append(cb.Clauses, c)
			default:
				f.Clauses = append(f.Clauses, c)
			}
		}
	}
	sp.Funcs = append(sp.Funcs, f)
}

func replaceWord(s, w, t string) string {
	return strings.ReplaceAll(s, w, t)
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}
