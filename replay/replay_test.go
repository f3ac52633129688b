// Replay of failed obligations against the real code.
//
// When the verifier rejects an obligation it does not give a history that leads to the failure. This
// file searches for one: it runs random histories of public operations (and a few directed scenarios)
// on the code of /repo, compares every result with an oracle that computes with truth tables, and
// writes the first history that violates the property it is asked about. It uses exported names only.
package rudd_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	. "github.com/dalzilio/rudd"
)

// ---- truth tables over six active variables

var proj = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

const tTrue = ^uint64(0)

func cof(t uint64, k int, v bool) uint64 { // cofactor, extended to all assignments
	s := uint(1) << uint(k)
	if v {
		x := t & proj[k]
		return x | x>>s
	}
	x := t &^ proj[k]
	return x | x<<s
}
func ex1(t uint64, k int) uint64 { return cof(t, k, false) | cof(t, k, true) }

func apply(op int, a, b uint64) uint64 {
	switch op {
	case 0:
		return a & b
	case 1:
		return a ^ b
	case 2:
		return a | b
	case 3:
		return ^(a & b)
	case 4:
		return ^(a | b)
	case 5:
		return ^a | b
	case 6:
		return ^(a ^ b)
	case 7:
		return a &^ b
	case 8:
		return b &^ a
	case 9:
		return a | ^b
	}
	panic("op")
}

// ---- failures

type failure struct {
	props string // properties that are violated
	msg   string
}

var prop = os.Getenv("VERIF_PROP")
var outFile = os.Getenv("VERIF_OUT")

type H struct {
	r       *rand.Rand
	b       *BDD
	vn      int
	act     []int // positions of the active variables
	pool    []Node
	tts     []uint64
	shape   map[int][3]int
	log     []string
	limited bool
	maxSize int
	init    int
	incr    int
	cfg     string
	noGrow  bool
	ids     map[int]bool
	last    int
	reps    []Replacer
	maps    []map[int]int
	lastErr bool
}

func (h *H) fail(props, f string, a ...interface{}) {
	panic(failure{props, fmt.Sprintf(f, a...)})
}

func (h *H) op(f string, a ...interface{}) {
	h.log = append(h.log, fmt.Sprintf(f, a...))
	if len(h.log)%64 == 0 || traceAll {
		h.save("")
	}
}

var cur = &H{}

var traceAll = os.Getenv("VERIF_TRACE") != ""

func (h *H) save(msg string) {
	if outFile == "" {
		return
	}
	var sb strings.Builder
	if msg != "" {
		fmt.Fprintf(&sb, "%s\n", msg)
	} else {
		fmt.Fprintf(&sb, "(history in progress)\n")
	}
	fmt.Fprintf(&sb, "configuration: %s\n", h.cfg)
	for i, l := range h.log {
		fmt.Fprintf(&sb, "%4d %s\n", i, l)
	}
	os.WriteFile(outFile, []byte(sb.String()), 0o644)
}

// ---- evaluation of nodes through Label, Low and High

func (h *H) pos(level int) int {
	for k, p := range h.act {
		if p == level {
			return k
		}
	}
	return -1
}

func (h *H) tt(n Node, props string) uint64 {
	memo := map[int]uint64{0: 0, 1: tTrue}
	var walk func(n Node, last int) uint64
	walk = func(n Node, last int) uint64 {
		if n == nil {
			h.fail(props+",C01,C16", "a branch of a node is not readable")
		}
		if v, ok := memo[*n]; ok {
			if *n < 2 {
				return v
			}
			if lv := h.b.Label(n); lv <= last {
				h.fail(props+",C01", "node %d with variable %d is below variable %d", *n, lv, last)
			}
			return v
		}
		lv := h.b.Label(n)
		if lv <= last || lv >= h.vn {
			h.fail(props+",C01", "node %d has variable %d below variable %d", *n, lv, last)
		}
		k := h.pos(lv)
		if k < 0 {
			h.fail(props, "node %d depends on variable %d, on which no operand depends", *n, lv)
		}
		lo, hi := h.b.Low(n), h.b.High(n)
		l := walk(lo, lv)
		r := walk(hi, lv)
		v := (l &^ proj[k]) | (r & proj[k])
		memo[*n] = v
		return v
	}
	return walk(n, -1)
}

func (h *H) snapshot(n Node) {
	if n == nil || *n < 2 {
		return
	}
	h.shape[*n] = h.shapeOf(n)
}
func (h *H) shapeOf(n Node) [3]int {
	return [3]int{h.b.Label(n), *h.b.Low(n), *h.b.High(n)}
}

// add checks the result of an operation and keeps it.
func (h *H) add(props string, n Node, want uint64, what string) {
	if n == nil {
		if h.limited && h.b.Errored() {
			h.lastErr = true
			return
		}
		h.fail(props+",C15,C21", "%s returns nil (%s)", what, h.b.Error())
	}
	got := h.tt(n, props)
	if got != want {
		ps := props
		h.fail(ps+",C13,C11", "%s returns node %d with truth table %016x instead of %016x (bit i is the value under assignment i of variables %v)", what, *n, got, want, h.act)
	}
	h.pool = append(h.pool, n)
	h.tts = append(h.tts, want)
	if *n >= 2 {
		h.snapshot(n)
	}
	if len(h.pool) > 12+h.r.Intn(20) {
		h.drop(h.r.Intn(6) + 1)
	}
}

func (h *H) drop(k int) {
	for ; k > 0 && len(h.pool) > 1; k-- {
		i := h.r.Intn(len(h.pool))
		l := len(h.pool) - 1
		h.pool[i], h.tts[i] = h.pool[l], h.tts[l]
		h.pool[l] = nil
		h.pool, h.tts = h.pool[:l], h.tts[:l]
	}
	h.shape = map[int][3]int{}
	for _, n := range h.pool {
		h.snapshot(n)
	}
}

func (h *H) collect() {
	runtime.GC()
	if h.r.Intn(3) == 0 {
		time.Sleep(200 * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

// intact checks that no live node has changed, and canonicity.
func (h *H) intact(op string) {
	for i, n := range h.pool {
		if *n >= 2 {
			s, ok := h.shape[*n]
			if ok && s != h.shapeOf(n) {
				h.fail(op+"C11,C12", "node %d, still referenced, was (level %d, low %d, high %d) and is now %v", *n, s[0], s[1], s[2], h.shapeOf(n))
			}
		}
		if got := h.tt(n, op+"C11,C12"); got != h.tts[i] {
			h.fail(op+"C11,C12,C02", "node %d, still referenced, denoted %016x and now denotes %016x", *n, h.tts[i], got)
		}
		for j, m := range h.pool[:i] {
			if (h.tts[i] == h.tts[j]) != h.b.Equal(n, m) {
				h.fail("C01", "nodes %d and %d denote %016x and %016x, Equal says %v", *n, *m, h.tts[i], h.tts[j], h.b.Equal(n, m))
			}
		}
	}
}

type entry struct{ id, level, low, high int }

func (h *H) all(props string, n ...Node) []entry {
	var es []entry
	err := h.b.Allnodes(func(id, level, low, high int) error {
		es = append(es, entry{id, level, low, high})
		return nil
	}, n...)
	if err != nil {
		h.fail(props, "Allnodes fails: %v", err)
	}
	return es
}

func (h *H) table(op string) {
	es := h.all("C10")
	seen := map[entry]int{}
	ids := map[int]entry{}
	for _, e := range es {
		if _, ok := ids[e.id]; ok {
			h.fail("C10,C18", "Allnodes reports node %d twice", e.id)
		}
		ids[e.id] = e
	}
	if _, ok := ids[0]; !ok {
		h.fail("C10,C17", "Allnodes does not report the constant 0")
	}
	if _, ok := ids[1]; !ok {
		h.fail("C10,C17", "Allnodes does not report the constant 1")
	}
	for _, e := range es {
		if e.id < 2 {
			continue
		}
		if e.low == e.high {
			h.fail("C01", "node %d has twice the same branch %d", e.id, e.low)
		}
		k := e
		k.id = 0
		if o, ok := seen[k]; ok {
			h.fail("C01", "nodes %d and %d are the same (level %d, low %d, high %d)", o, e.id, e.level, e.low, e.high)
		}
		seen[k] = e.id
		for _, c := range []int{e.low, e.high} {
			f, ok := ids[c]
			if !ok {
				h.fail("C01,C11,C10,C18", "branch %d of node %d is not in the table", c, e.id)
			}
			if c >= 2 && f.level <= e.level {
				h.fail("C01", "node %d (variable %d) has branch %d with variable %d", e.id, e.level, c, f.level)
			}
		}
	}
	// all variables exist
	for i := 0; i < h.vn; i++ {
		p, q := h.b.Ithvar(i), h.b.NIthvar(i)
		if p == nil || q == nil {
			h.fail("C16,C17", "Ithvar or NIthvar (%d) is nil", i)
		}
		if e, ok := ids[*p]; !ok || e != (entry{*p, i, 0, 1}) {
			h.fail("C16,C17,C11", "variable %d is node %v", i, e)
		}
		if e, ok := ids[*q]; !ok || e != (entry{*q, i, 1, 0}) {
			h.fail("C16,C17,C11", "the negation of variable %d is node %v", i, e)
		}
	}
	a, u, f := h.stats()
	if a >= 0 {
		if u+f != a || u != len(es) {
			h.fail("C18", "Stats reports %d slots, %d used and %d free, there are %d nodes", a, u, f, len(es))
		}
		h.limits(a)
	}
	if strings.Contains(op, "new") && len(es) != 2*h.vn+2 {
		h.fail("C17", "a new BDD with %d variables has %d nodes", h.vn, len(es))
	}
}

func (h *H) limits(a int) {
	if h.maxSize > 0 && a > h.maxSize && a > h.init {
		h.fail("C15", "the table has %d slots, Maxnodesize is %d and the initial size %d", a, h.maxSize, h.init)
	}
	h.last = a
}

var reStat = regexp.MustCompile(`(?m)^(Allocated|Used|Free|Varnum|Produced):\s+(\d+)`)

func (h *H) stats() (int, int, int) {
	m := map[string]int{}
	for _, x := range reStat.FindAllStringSubmatch(h.b.Stats(), -1) {
		m[x[1]], _ = strconv.Atoi(x[2])
	}
	a, ok1 := m["Allocated"]
	u, ok2 := m["Used"]
	f, ok3 := m["Free"]
	if !ok1 || !ok2 || !ok3 {
		return -1, -1, -1
	}
	if v, ok := m["Varnum"]; ok && v != h.vn {
		h.fail("C17,C18", "Stats reports %d variables instead of %d", v, h.vn)
	}
	return a, u, f
}

func newH(seed int64) *H {
	r := rand.New(rand.NewSource(seed))
	h := &H{r: r, shape: map[int][3]int{}, ids: map[int]bool{}}
	cur = h
	h.vn = 1 + r.Intn(6)
	if r.Intn(4) == 0 {
		h.vn = 6 + r.Intn(30)
	}
	if r.Intn(40) == 0 {
		h.vn = 1000 + r.Intn(1000)
	}
	na := h.vn
	if na > 6 {
		na = 6
	}
	h.act = r.Perm(h.vn)[:na]
	sort.Ints(h.act)
	ns := 2*h.vn + 2
	h.init = ns
	switch r.Intn(4) {
	case 0:
		h.init = ns + r.Intn(20)
	case 1:
		h.init = ns + r.Intn(200)
	}
	h.incr = 1 << 20
	switch r.Intn(4) {
	case 0:
		h.incr = 1 + r.Intn(20)
	case 1:
		h.incr = 0
	case 2:
		h.incr = 40 + r.Intn(60)
	}
	if r.Intn(3) == 0 {
		h.maxSize = ns + r.Intn(120)
		h.limited = true
	}
	min := 20
	switch r.Intn(4) {
	case 0:
		min = r.Intn(100)
	case 1:
		min = 1
	}
	if (prop == "C15" || prop == "C21") && r.Intn(12) == 0 {
		min = -1 // never enough to grow
		h.limited = true
	}
	if h.incr > 0 && h.incr < 40 && isBuddy {
		h.limited = true // there may be no prime within reach
	}
	cs := []int{0, 1, 2, 3, 5, 10, 40, 1000, 10000}[r.Intn(9)]
	cr := []int{0, 0, 1, 25, 100, 400}[r.Intn(6)]
	h.cfg = fmt.Sprintf("New(%d, Nodesize(%d), Maxnodesize(%d), Maxnodeincrease(%d), Minfreenodes(%d), Cachesize(%d), Cacheratio(%d)), seed %d, build %s", h.vn, h.init, h.maxSize, h.incr, min, cs, cr, seed, build)
	b, err := New(h.vn, Nodesize(h.init), Maxnodesize(h.maxSize), Maxnodeincrease(h.incr), Minfreenodes(min), Cachesize(cs), Cacheratio(cr))
	if err != nil || b == nil {
		h.fail("C17", "New fails: %v", err)
	}
	h.b = b
	h.add("C16", b.True(), tTrue, "True()")
	h.add("C16", b.False(), 0, "False()")
	if a, _, _ := h.stats(); a >= 0 {
		if a > h.init {
			h.init = a
		}
		h.last = a
	}
	if h.r.Intn(2) == 0 {
		h.table("new")
	}
	if b.Varnum() != h.vn {
		h.fail("C17,C16", "Varnum() is %d", b.Varnum())
	}
	return h
}

func (h *H) pick() (Node, uint64) {
	i := h.r.Intn(len(h.pool))
	return h.pool[i], h.tts[i]
}

func (h *H) v() int { return h.act[h.r.Intn(len(h.act))] }

func (h *H) subset() ([]int, []int) { // indices and positions, increasing
	var ks, ps []int
	for k := range h.act {
		if h.r.Intn(2) == 0 {
			ks = append(ks, k)
			ps = append(ps, h.act[k])
		}
	}
	return ks, ps
}

var errUser = errors.New("user error")

func (h *H) step() {
	r := h.r
	b := h.b
	w := r.Intn(100)
	if focus > 0 && r.Intn(3) == 0 {
		w = focus - 1
	}
	switch {
	case w < 6:
		v := h.v()
		h.op("Ithvar(%d)", v)
		h.add("C16", b.Ithvar(v), proj[h.pos(v)], fmt.Sprintf("Ithvar(%d)", v))
	case w < 10:
		v := h.v()
		h.op("NIthvar(%d)", v)
		h.add("C16", b.NIthvar(v), ^proj[h.pos(v)], fmt.Sprintf("NIthvar(%d)", v))
	case w < 15:
		n, t := h.pick()
		h.op("Not(%d)", *n)
		h.add("C02", b.Not(n), ^t, fmt.Sprintf("Not(%d)", *n))
	case w < 35:
		n, t := h.pick()
		m, u := h.pick()
		op := r.Intn(10)
		h.op("Apply(%d, %d, %s)", *n, *m, Operator(op))
		h.add("C02", b.Apply(n, m, Operator(op)), apply(op, t, u), fmt.Sprintf("Apply(%d, %d, %s)", *n, *m, Operator(op)))
	case w < 40:
		k := r.Intn(5)
		var ns []Node
		a, o := tTrue, uint64(0)
		var ids []int
		for i := 0; i < k; i++ {
			n, t := h.pick()
			ns = append(ns, n)
			ids = append(ids, *n)
			a &= t
			o |= t
		}
		switch r.Intn(4) {
		case 0, 1:
			h.op("And(%v)", ids)
			h.add("C02", b.And(ns...), a, fmt.Sprintf("And(%v)", ids))
		case 2:
			h.op("Or(%v)", ids)
			h.add("C02", b.Or(ns...), o, fmt.Sprintf("Or(%v)", ids))
		default:
			n, t := h.pick()
			m, u := h.pick()
			h.op("Imp, Equiv(%d,%d)", *n, *m)
			h.add("C02", b.Imp(n, m), ^t|u, fmt.Sprintf("Imp(%d,%d)", *n, *m))
			h.add("C02", b.Equiv(n, m), ^(t ^ u), fmt.Sprintf("Equiv(%d,%d)", *n, *m))
		}
	case w < 50:
		f, t := h.pick()
		g, u := h.pick()
		k, v := h.pick()
		h.op("Ite(%d,%d,%d)", *f, *g, *k)
		h.add("C03", b.Ite(f, g, k), t&u|^t&v, fmt.Sprintf("Ite(%d,%d,%d)", *f, *g, *k))
	case w < 60:
		n, t := h.pick()
		ks, ps := h.subset()
		h.op("vs = Makeset(%v); Exist(%d, vs)", ps, *n)
		s := b.Makeset(ps)
		if h.nilOK(s, "C16,C04", "Makeset") {
			return
		}
		if t2 := h.tt(s, "C16"); t2 != setTT(ks) {
			h.fail("C16", "Makeset(%v) denotes %016x", ps, t2)
		}
		for _, k := range ks {
			t = ex1(t, k)
		}
		e := b.Exist(n, s)
		h.add("C04", e, t, fmt.Sprintf("Exist(%d, Makeset(%v)=%d)", *n, ps, *s))
		runtime.KeepAlive(s)
	case w < 70:
		n, t := h.pick()
		m, u := h.pick()
		ks, ps := h.subset()
		op := r.Intn(4)
		h.op("vs = Makeset(%v); AppEx(%d, %d, %s, vs)", ps, *n, *m, Operator(op))
		s := b.Makeset(ps)
		if h.nilOK(s, "C16,C05", "Makeset") {
			return
		}
		t = apply(op, t, u)
		for _, k := range ks {
			t = ex1(t, k)
		}
		var e Node
		if op == 0 && r.Intn(2) == 0 {
			e = b.AndExist(n, m, s)
		} else {
			e = b.AppEx(n, m, Operator(op), s)
		}
		h.add("C05", e, t, fmt.Sprintf("AppEx(%d, %d, %s, Makeset(%v)=%d)", *n, *m, Operator(op), ps, *s))
		runtime.KeepAlive(s)
	case w < 78:
		h.replace()
	case w < 82:
		// Makeset, in any order, with repetitions; Scanset; Makecube
		var vs []int
		t := tTrue
		set := map[int]bool{}
		for i := r.Intn(8); i > 0; i-- {
			v := h.v()
			vs = append(vs, v)
			t &= proj[h.pos(v)]
			set[v] = true
		}
		h.op("Makeset(%v)", vs)
		s := b.Makeset(vs)
		if h.nilOK(s, "C16", "Makeset") {
			return
		}
		h.add("C16", s, t, fmt.Sprintf("Makeset(%v)", vs))
		var want []int
		for v := range set {
			want = append(want, v)
		}
		sort.Ints(want)
		got := b.Scanset(s)
		if len(got) != len(want) {
			h.fail("C16", "Scanset of Makeset(%v) is %v", vs, got)
		}
		for i := range got {
			if got[i] != want[i] {
				h.fail("C16", "Scanset of Makeset(%v) is %v", vs, got)
			}
		}
		ks, ps := h.subset()
		if len(ps) > 0 {
			var pl []bool
			t = tTrue
			for _, k := range ks {
				p := r.Intn(2) == 0
				pl = append(pl, p)
				if p {
					t &= proj[k]
				} else {
					t &= ^proj[k]
				}
			}
			h.op("Makecube(%v,%v)", ps, pl)
			h.add("C16", b.Makecube(ps, pl), t, fmt.Sprintf("Makecube(%v,%v)", ps, pl))
		} else if h.vn == len(h.act) {
			var pl []bool
			t = tTrue
			for k := range h.act {
				p := r.Intn(2) == 0
				pl = append(pl, p)
				if p {
					t &= proj[k]
				} else {
					t &= ^proj[k]
				}
			}
			h.op("Makecube(nil,%v)", pl)
			h.add("C16", b.Makecube(nil, pl), t, fmt.Sprintf("Makecube(nil,%v)", pl))
		}
	case w < 85:
		n, t := h.pick()
		h.op("Satcount(%d)", *n)
		h.satcount(n, t)
	case w < 88:
		h.allsat()
	case w < 91:
		h.allnodes()
	case w < 92:
		h.op("check the table")
		h.table("")
	case w < 94:
		h.invalid()
	case w < 95:
		h.output()
	case w < 97:
		h.op("drop, GC")
		h.drop(r.Intn(len(h.pool)))
		h.collect()
	case w < 98:
		n, t := h.pick()
		if *n >= 2 {
			lv := b.Label(n)
			l, hi := b.Low(n), b.High(n)
			k := h.pos(lv)
			if k < 0 || l == nil || hi == nil {
				h.fail("C16", "Label/Low/High(%d) = %d %v %v", *n, lv, l, hi)
			}
			h.op("Low, High(%d)", *n)
			h.add("C16", l, cof(t, k, false), fmt.Sprintf("Low(%d)", *n))
			h.add("C16", hi, cof(t, k, true), fmt.Sprintf("High(%d)", *n))
		}
	case w < 99:
		f := r.Intn(2) == 0
		t := uint64(0)
		if f {
			t = tTrue
		}
		h.add("C16", b.From(f), t, "From")
	default:
		h.op("check live nodes")
		h.intact("")
	}
}

// nilOK reports whether a nil (or, for Makeset, False) result stands for a lack of room.
func (h *H) nilOK(n Node, props, what string) bool {
	if n == nil {
		if h.limited && h.b.Errored() {
			return true
		}
		h.fail(props+",C15,C21", "%s returns nil (%s)", what, h.b.Error())
	}
	return false
}

func setTT(ks []int) uint64 {
	t := tTrue
	for _, k := range ks {
		t &= proj[k]
	}
	return t
}

func (h *H) satcount(n Node, t uint64) {
	na := len(h.act)
	c := 0
	for i := 0; i < 1<<uint(na); i++ {
		if t>>uint(i)&1 == 1 {
			c++
		}
	}
	want := new(big.Int).Lsh(big.NewInt(int64(c)), uint(h.vn-na))
	got := h.b.Satcount(n)
	if got == nil || got.Cmp(want) != 0 {
		h.fail("C08", "Satcount(%d) = %v instead of %v (truth table %016x of %v, %d variables)", *n, got, want, t, h.act, h.vn)
	}
}

func (h *H) allsat() {
	r := h.r
	n, t := h.pick()
	stopAt := -1
	if r.Intn(4) == 0 {
		stopAt = r.Intn(4)
	}
	create := r.Intn(3) == 0
	lose := r.Intn(6) == 0
	h.op("Allsat(%d), stop at %d, create %v", *n, stopAt, create)
	var cov, twice uint64
	calls, after := 0, false
	arg := n
	if lose && *n >= 2 {
		// the only reference is the argument itself
		arg = h.b.Or(n, h.b.False())
		if arg == nil {
			return
		}
	}
	err := h.b.Allsat(func(p []int) error {
		if after {
			h.fail("C09", "Allsat(%d) goes on after an error", *n)
		}
		if len(p) != h.vn {
			h.fail("C09", "Allsat gives an assignment of length %d", len(p))
		}
		c := tTrue
		for i, x := range p {
			k := h.pos(i)
			if x < -1 || x > 1 || k < 0 && x != -1 {
				h.fail("C09", "Allsat gives %d for variable %d, on which node %d does not depend", x, i, *n)
			}
			if x == 0 {
				c &= ^proj[k]
			} else if x == 1 {
				c &= proj[k]
			}
		}
		twice |= cov & c
		cov |= c
		if create {
			a, u := h.pick()
			d, v := h.pick()
			e := h.b.Apply(a, d, OPxor)
			if e != nil {
				if got := h.tt(e, "C09"); got != u^v {
					h.fail("C09,C02", "an Apply in the function given to Allsat is wrong")
				}
			}
			if r.Intn(5) == 0 {
				h.collect()
			}
		}
		calls++
		if calls-1 == stopAt {
			after = true
			return errUser
		}
		return nil
	}, arg)
	if after {
		if err != errUser {
			h.fail("C09", "Allsat(%d) returns %v instead of the error of its function", *n, err)
		}
		if cov&^t != 0 || twice != 0 {
			h.fail("C09", "Allsat(%d) covers %016x (twice %016x), the node denotes %016x", *n, cov, twice, t)
		}
		return
	}
	if err != nil {
		h.fail("C09", "Allsat(%d) returns the error %v", *n, err)
	}
	if cov != t || twice != 0 {
		h.fail("C09", "Allsat(%d) covers %016x (twice %016x), the node denotes %016x (variables %v)", *n, cov, twice, t, h.act)
	}
}

func (h *H) reach(ns []Node) map[int]entry {
	m := map[int]entry{}
	var walk func(n Node)
	walk = func(n Node) {
		if *n < 2 {
			return
		}
		if _, ok := m[*n]; ok {
			return
		}
		l, r := h.b.Low(n), h.b.High(n)
		m[*n] = entry{*n, h.b.Label(n), *l, *r}
		walk(l)
		walk(r)
	}
	for _, n := range ns {
		walk(n)
	}
	return m
}

func (h *H) allnodes() {
	r := h.r
	var ns []Node
	var ids []int
	for i := 1 + r.Intn(3); i > 0; i-- {
		n, _ := h.pick()
		ns = append(ns, n)
		ids = append(ids, *n)
	}
	h.op("Allnodes(%v)", ids)
	want := h.reach(ns)
	es := h.all("C10", ns...)
	got := map[int]bool{}
	for _, e := range es {
		if e.id < 2 {
			h.fail("C10", "Allnodes(%v) visits the constant %d", ids, e.id)
		}
		if got[e.id] {
			h.fail("C10", "Allnodes(%v) visits node %d twice", ids, e.id)
		}
		got[e.id] = true
		if w, ok := want[e.id]; !ok || w != e {
			h.fail("C10", "Allnodes(%v) visits %v, expected %v", ids, e, w)
		}
	}
	if len(got) != len(want) {
		h.fail("C10", "Allnodes(%v) visits %d nodes instead of %d", ids, len(got), len(want))
	}
	// stop at an error
	for _, args := range [][]Node{ns, nil} {
		total := len(es)
		if args == nil {
			total = len(h.all("C10"))
		}
		if total == 0 {
			continue
		}
		k, calls := r.Intn(total), 0
		err := h.b.Allnodes(func(id, level, low, high int) error {
			calls++
			if calls == k+1 {
				return errUser
			}
			return nil
		}, args...)
		if err != errUser || calls != k+1 {
			h.fail("C10", "Allnodes(%v) returns %v after %d calls, the function fails at call %d", ids, err, calls, k+1)
		}
	}
	for id, e := range h.reach(ns) {
		if want[id] != e {
			h.fail("C10", "after Allnodes node %d is %v instead of %v", id, e, want[id])
		}
	}
	if n2 := len(h.all("C10", ns...)); n2 != len(es) {
		h.fail("C10", "after an Allnodes that stops, Allnodes(%v) visits %d nodes instead of %d", ids, n2, len(es))
	}
}

func (h *H) replace() {
	r := h.r
	b := h.b
	n, t := h.pick()
	var ri int
	if len(h.reps) > 0 && r.Intn(2) == 0 {
		ri = r.Intn(len(h.reps))
	} else {
		// a random renaming, not always valid
		var ov, nv []int
		for k := range h.act {
			if r.Intn(2) == 0 {
				ov = append(ov, h.act[k])
			}
		}
		r.Shuffle(len(ov), func(i, j int) { ov[i], ov[j] = ov[j], ov[i] })
		switch r.Intn(3) {
		case 0: // a permutation of the old variables
			nv = append([]int(nil), ov...)
			r.Shuffle(len(nv), func(i, j int) { nv[i], nv[j] = nv[j], nv[i] })
		case 1: // other variables
			for range ov {
				nv = append(nv, h.v())
			}
		default:
			p := r.Perm(len(h.act))
			for i := range ov {
				nv = append(nv, h.act[p[i]])
			}
		}
		bad := r.Intn(8)
		if bad == 0 {
			nv = append(nv, h.v())
		} else if bad == 1 && len(ov) > 0 {
			ov[r.Intn(len(ov))] = []int{-1, h.vn, h.vn + 3, 1 << 40}[r.Intn(4)]
		} else if bad == 2 && len(nv) > 0 {
			nv[r.Intn(len(nv))] = []int{-1, h.vn, h.vn + 3, 1 << 40}[r.Intn(4)]
		} else if bad == 3 && len(ov) > 1 {
			ov[0] = ov[1]
		}
		valid := len(ov) == len(nv)
		so, sn := map[int]int{}, map[int]bool{}
		for i := range ov {
			if !valid {
				break
			}
			if ov[i] < 0 || ov[i] >= h.vn || nv[i] < 0 || nv[i] >= h.vn {
				valid = false
				break
			}
			if _, ok := so[ov[i]]; ok || sn[nv[i]] {
				valid = false
			}
			so[ov[i]] = nv[i]
			sn[nv[i]] = true
		}
		if valid {
			for v := range sn {
				if w, ok := so[v]; ok && w != v {
					valid = false
				}
			}
		}
		h.op("NewReplacer(%v, %v)", ov, nv)
		rp, err := b.NewReplacer(ov, nv)
		if (err == nil) != valid {
			// the statement leaves open no other case
			h.fail("C07", "NewReplacer(%v, %v) returns error %v", ov, nv, err)
		}
		if !valid {
			return
		}
		if h.ids[rp.Id()] {
			h.fail("C07", "NewReplacer(%v, %v) gives the identifier %d again", ov, nv, rp.Id())
		}
		h.ids[rp.Id()] = true
		for i := 0; i < h.vn; i++ {
			w, ok := so[i]
			if !ok {
				w = i
			}
			x, ch := rp.Replace(int32(i))
			if int(x) != w || !ch && false {
				h.fail("C07", "NewReplacer(%v, %v) maps %d to %d", ov, nv, i, x)
			}
		}
		h.reps = append(h.reps, rp)
		h.maps = append(h.maps, so)
		ri = len(h.reps) - 1
	}
	mp := h.maps[ri]
	h.op("Replace(%d, replacer %d %v)", *n, ri, mp)
	// expected: value under a is the value of n under a' with a'[old] = a[new]
	var want uint64
	for a := 0; a < 64; a++ {
		ap := a
		for k, v := range h.act {
			if w, ok := mp[v]; ok {
				kw := h.pos(w)
				ap = ap&^(1<<uint(k)) | (a >> uint(kw) & 1 << uint(k))
			}
		}
		want |= (t >> uint(ap) & 1) << uint(a)
	}
	dep := func(k int) bool { return cof(t, k, false) != cof(t, k, true) }
	must := true
	for k, v := range h.act {
		w, ok := mp[v]
		if ok && w != v && dep(h.pos(w)) {
			if _, isOld := mp[w]; !isOld || true {
				must = false
			}
		}
		_ = k
	}
	clash := false
	for k, v := range h.act {
		if w, ok := mp[v]; ok && w != v && dep(k) {
			if _, isOld := mp[w]; !isOld && dep(h.pos(w)) {
				clash = true
			}
		}
	}
	res := b.Replace(n, h.reps[ri])
	what := fmt.Sprintf("Replace(%d, %v)", *n, mp)
	if clash {
		if res != nil {
			h.fail("C06", "%s returns node %d although it merges two variables", what, *res)
		}
		if !b.Errored() {
			h.fail("C06,C14", "%s merges two variables and records no error", what)
		}
		return
	}
	if res == nil {
		if must && !h.limited {
			h.fail("C06,C15,C21", "%s returns nil (%s)", what, b.Error())
		}
		if !b.Errored() {
			h.fail("C06,C14", "%s returns nil without an error", what)
		}
		return
	}
	h.add("C06", res, want, what)
}

func (h *H) invalid() {
	b, r := h.b, h.r
	n, _ := h.pick()
	// values that are never the number of a node
	bad := []Node{nil, ptr(-1), ptr(-7), ptr(1 << 40), ptr(1 << 62), ptr(-1 << 62), ptr(5000000)}[r.Intn(7)]
	if bad == nil || r.Intn(4) > 0 {
	} else if es := h.all("C10"); true {
		// a free slot of the table, if there is one
		a, _, _ := h.stats()
		ids := map[int]bool{}
		for _, e := range es {
			ids[e.id] = true
		}
		for i := 0; i < a; i++ {
			if !ids[i] {
				bad = ptr(i)
				break
			}
		}
	}
	s := "nil"
	if bad != nil {
		s = fmt.Sprint(*bad)
	}
	was := b.Errored()
	set := b.True()
	if len(h.act) > 0 {
		set = b.Ithvar(h.act[0])
	}
	var rep Replacer
	if len(h.reps) > 0 {
		rep = h.reps[0]
	} else {
		rep, _ = b.NewReplacer([]int{h.act[0]}, []int{h.act[0]})
	}
	type tc struct {
		name string
		f    func() bool // true when the answer is the documented one
		err  bool        // must be in error state afterwards
	}
	ops := Operator(r.Intn(4))
	badop := []Operator{10, 11, -1, 100, -8}[r.Intn(5)]
	badv := []int{-1, h.vn, h.vn + 1, 1 << 32, 1<<32 + 1, -1 << 40}[r.Intn(6)]
	cs := []tc{
		{"Not(" + s + ")", func() bool { return b.Not(bad) == nil }, true},
		{"Apply(" + s + ", n)", func() bool { return b.Apply(bad, n, ops) == nil }, true},
		{"Apply(n, " + s + ")", func() bool { return b.Apply(n, bad, ops) == nil }, true},
		{"Ite(" + s + ", n, n)", func() bool { return b.Ite(bad, n, n) == nil }, true},
		{"Ite(n, " + s + ", n)", func() bool { return b.Ite(n, bad, n) == nil }, true},
		{"Ite(n, n, " + s + ")", func() bool { return b.Ite(n, n, bad) == nil }, true},
		{"Exist(" + s + ", set)", func() bool { return b.Exist(bad, set) == nil }, true},
		{"Exist(n, " + s + ")", func() bool { return b.Exist(n, bad) == nil }, true},
		{"AppEx(" + s + ", n, set)", func() bool { return b.AppEx(bad, n, ops, set) == nil }, true},
		{"AppEx(n, " + s + ", set)", func() bool { return b.AppEx(n, bad, ops, set) == nil }, true},
		{"AppEx(n, n, " + s + ")", func() bool { return b.AppEx(n, n, ops, bad) == nil }, true},
		{"AndExist(n, " + s + ", set)", func() bool { return b.AndExist(n, bad, set) == nil }, true},
		{"Replace(" + s + ", r)", func() bool { return b.Replace(bad, rep) == nil }, true},
		{"And(n, " + s + ")", func() bool { return b.And(n, bad) == nil }, true},
		{"And(" + s + ", n)", func() bool { return b.And(bad, n) == nil }, true},
		{"And(" + s + ")", func() bool { return b.And(bad) == nil }, true},
		{"Or(" + s + ")", func() bool { return b.Or(bad) == nil }, true},
		{"Or(n, " + s + ", n)", func() bool { return b.Or(n, bad, n) == nil }, true},
		{"Imp(" + s + ", n)", func() bool { return b.Imp(bad, n) == nil }, true},
		{"Equiv(n, " + s + ")", func() bool { return b.Equiv(n, bad) == nil }, true},
		{"Label(" + s + ")", func() bool { return b.Label(bad) == -1 }, true},
		{"Low(" + s + ")", func() bool { return b.Low(bad) == nil }, true},
		{"High(" + s + ")", func() bool { return b.High(bad) == nil }, true},
		{"Scanset(" + s + ")", func() bool { return b.Scanset(bad) == nil }, false},
		{"Satcount(" + s + ")", func() bool { x := b.Satcount(bad); return x != nil && x.Sign() == 0 }, true},
		{"Allsat(" + s + ")", func() bool { return b.Allsat(func([]int) error { return nil }, bad) != nil }, false},
		{"Allnodes(" + s + ")", func() bool {
			return b.Allnodes(func(_, _, _, _ int) error { return nil }, bad) != nil
		}, false},
		{"Allnodes(n, " + s + ")", func() bool {
			return b.Allnodes(func(_, _, _, _ int) error { return nil }, n, bad) != nil
		}, false},
		{fmt.Sprintf("Ithvar(%d)", badv), func() bool { return b.Ithvar(badv) == nil }, true},
		{fmt.Sprintf("NIthvar(%d)", badv), func() bool { return b.NIthvar(badv) == nil }, true},
		{fmt.Sprintf("Makeset([%d])", badv), func() bool { x := b.Makeset([]int{badv}); return x != nil && *x == 0 }, true},
		{fmt.Sprintf("Makeset([%d %d])", badv, h.act[0]), func() bool { x := b.Makeset([]int{badv, h.act[0]}); return x != nil && *x == 0 }, true},
		{fmt.Sprintf("Makecube([%d])", badv), func() bool { return b.Makecube([]int{badv}, []bool{true}) == nil }, true},
		{"Makecube, different lengths", func() bool { return b.Makecube([]int{h.act[0]}, []bool{true, false}) == nil }, true},
		{"Makecube, different lengths", func() bool { return b.Makecube([]int{h.act[0]}, nil) == nil }, true},
		{"Makecube, short polarity", func() bool { return b.Makecube(nil, make([]bool, h.vn+1)) == nil }, true},
		{fmt.Sprintf("Apply(n, m, Operator(%d))", badop), func() bool { m := b.Ithvar(h.act[0]); return b.Apply(m, m, badop) == nil && b.Apply(b.True(), m, badop) == nil }, true},
		{fmt.Sprintf("AppEx(Operator(%d))", badop), func() bool { return b.AppEx(set, set, badop, set) == nil }, true},
		{"AppEx(OPimp)", func() bool { return b.AppEx(set, set, OPimp, set) == nil }, true},
	}
	for k := 0; k < 5; k++ {
		c := cs[r.Intn(len(cs))]
		if *set < 2 && strings.HasPrefix(c.name, "AppEx(O") {
			continue
		}
		h.op("invalid: %s", c.name)
		ok := h.guarded("C14", c.name, c.f)
		if !ok {
			h.fail("C14", "%s (n is %d) does not return the documented answer for an invalid argument", c.name, *n)
		}
		if c.err && (!b.Errored() || b.Error() == "") {
			h.fail("C14", "%s records no error", c.name)
		}
		if was && !b.Errored() {
			h.fail("C14", "the error state is lost")
		}
		was = b.Errored()
	}
	h.intact("C14,")
}

func (h *H) guarded(props, what string, f func() bool) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if fl, is := x.(failure); is {
				panic(fl)
			}
			h.fail(props, "%s panics: %v", what, x)
		}
	}()
	return f()
}

func ptr(i int) Node { return &i }

func (h *H) output() {
	b := h.b
	n, _ := h.pick()
	if b.Errored() {
		return // Print and Dot only show the error
	}
	h.op("Print, Dot(%d)", *n)
	m, _ := h.pick()
	for _, args := range [][]Node{{n}, {n, m}, {b.True(), n}, {b.False(), m, n}, {n, n}, nil} {
		var want []entry
		if args == nil {
			for _, e := range h.all("C10") {
				if e.id > 1 {
					want = append(want, e)
				}
			}
		} else {
			for _, e := range h.reach(args) {
				want = append(want, e)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
		var buf bytes.Buffer
		b.Print(&buf, args...)
		if len(args) == 1 && *n < 2 {
			exp := []string{"False", "True"}[*n]
			if strings.TrimSpace(buf.String()) != exp {
				h.fail("C19", "Print(%d) writes %q", *n, buf.String())
			}
		} else {
			var got []entry
			for _, l := range strings.Split(buf.String(), "\n") {
				x := reNum.FindAllString(l, -1)
				if len(x) == 0 && strings.TrimSpace(l) == "" {
					continue
				}
				if len(x) != 4 {
					h.fail("C19", "Print writes the row %q", l)
				}
				var v [4]int
				for i := range v {
					v[i], _ = strconv.Atoi(x[i])
				}
				got = append(got, entry{v[0], v[1], v[2], v[3]})
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				h.fail("C19", "Print writes %v, the nodes are %v", got, want)
			}
		}
		buf.Reset()
		if err := b.Dot(&buf, args...); err != nil {
			h.fail("C19", "Dot fails: %v", err)
		}
		h.dot(buf.String(), want)
	}
}

var reNum = regexp.MustCompile(`-?\d+`)
var reEdge = regexp.MustCompile(`(?m)^\s*(\d+)\s*->\s*(\d+)\s*\[style=(\w+)\]`)
var reVert = regexp.MustCompile(`(?ms)^\s*(\d+)\s+\[label=<(.*?)>\];`)
var reTag = regexp.MustCompile(`<[^>]*>`)

func (h *H) dot(s string, want []entry) {
	verts := map[int]int{}
	for _, m := range reVert.FindAllStringSubmatch(s, -1) {
		id, _ := strconv.Atoi(m[1])
		verts[id]++
		x := reNum.FindAllString(reTag.ReplaceAllString(m[2], " "), -1)
		found := false
		for _, e := range want {
			if e.id == id && len(x) == 2 && x[0] == fmt.Sprint(e.level) && x[1] == fmt.Sprint(e.id) {
				found = true
			}
		}
		if !found {
			h.fail("C19", "Dot writes vertex %d with label %v", id, x)
		}
	}
	edges := map[string]int{}
	for _, m := range reEdge.FindAllStringSubmatch(s, -1) {
		edges[m[1]+">"+m[2]+" "+m[3]]++
	}
	exp := map[string]int{}
	for _, e := range want {
		if verts[e.id] != 1 {
			h.fail("C19", "Dot writes vertex %d %d times", e.id, verts[e.id])
		}
		if e.low != 0 {
			exp[fmt.Sprintf("%d>%d dotted", e.id, e.low)]++
		}
		if e.high != 0 {
			exp[fmt.Sprintf("%d>%d filled", e.id, e.high)]++
		}
	}
	if len(verts) != len(want) || fmt.Sprint(edges) != fmt.Sprint(exp) {
		h.fail("C19", "Dot writes the vertices %v and edges %v, expected %v", verts, edges, exp)
	}
}

// ---- directed scenarios

func scenarioRefs(seed int64) {
	h := &H{r: rand.New(rand.NewSource(seed)), vn: 6, act: []int{0, 1, 2, 3, 4, 5}, shape: map[int][3]int{}, ids: map[int]bool{}, limited: true}
	cur = h
	n := 900 + h.r.Intn(1300)
	h.cfg = fmt.Sprintf("New(6, Nodesize(30), Maxnodesize(400)): %d references to one node, dropped but one, seed %d, build %s", n, seed, build)
	b, err := New(6, Nodesize(30), Maxnodesize(400), Maxnodeincrease(40))
	if err != nil {
		h.fail("C17", "New fails: %v", err)
	}
	h.b = b
	t := tTrue
	mk := func() Node {
		x := b.Apply(b.Ithvar(0), b.Ithvar(1), OPxor)
		x = b.Apply(x, b.Ithvar(2), OPxor)
		if x == nil {
			h.fail("C12,C15", "no room for a node: %s", b.Error())
		}
		return x
	}
	t = proj[0] ^ proj[1] ^ proj[2]
	hs := make([]Node, 0, n)
	for i := 0; i < n; i++ {
		hs = append(hs, mk())
		if h.r.Intn(200) == 0 {
			runtime.GC()
		}
	}
	keep := hs[h.r.Intn(n)]
	id := *keep
	h.op("%d references to node %d, all but one dropped", n, id)
	hs = nil
	for k := 0; k < 4; k++ {
		runtime.GC()
		time.Sleep(3 * time.Millisecond)
	}
	h.pool, h.tts = []Node{keep}, []uint64{t}
	h.snapshot(keep)
	for i := 0; i < 300; i++ {
		x := b.Apply(b.Apply(b.Ithvar(h.r.Intn(6)), b.Ithvar(h.r.Intn(6)), Operator(h.r.Intn(10))), b.Apply(b.Ithvar(h.r.Intn(6)), b.NIthvar(h.r.Intn(6)), Operator(h.r.Intn(10))), Operator(h.r.Intn(10)))
		_ = x
		if i%40 == 0 {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
	}
	h.intact("C12,")
	runtime.KeepAlive(keep)
}

// scenarioFree keeps few nodes alive under a limit: reclamation has to make room.
func scenarioFree(seed int64) {
	h := &H{r: rand.New(rand.NewSource(seed)), vn: 6, act: []int{0, 1, 2, 3, 4, 5}, shape: map[int][3]int{}, ids: map[int]bool{}, limited: true}
	cur = h
	h.cfg = fmt.Sprintf("New(6, Nodesize(200), Maxnodesize(200)): random nodes, all dropped and collected again and again, seed %d, build %s", seed, build)
	b, err := New(6, Nodesize(200), Maxnodesize(200), Maxnodeincrease(40))
	if err != nil {
		h.fail("C17", "New fails: %v", err)
	}
	h.b = b
	for i := 0; i < 40; i++ {
		h.drop(len(h.pool))
		h.pool, h.tts = nil, nil
		for k := 0; k < 3; k++ {
			runtime.GC()
			time.Sleep(2 * time.Millisecond)
		}
		var ns []Node
		for j := 0; j < 20; j++ {
			a, c := h.r.Intn(6), h.r.Intn(6)
			op := Operator(h.r.Intn(10))
			x := b.Apply(b.Ithvar(a), b.NIthvar(c), op)
			if x == nil {
				h.fail("C12,C18,C15", "at most %d nodes are referenced and 200 slots exist, but Apply(x%d, !x%d, %s) fails: %s", len(ns)+20, a, c, op, b.Error())
			}
			y := b.Apply(x, b.Ithvar(h.r.Intn(6)), Operator(h.r.Intn(10)))
			if y == nil {
				h.fail("C12,C18,C15", "at most %d nodes are referenced and 200 slots exist, but Apply fails: %s", 2*len(ns)+20, b.Error())
			}
			if j < 8 {
				ns = append(ns, y)
			}
		}
		runtime.KeepAlive(ns)
	}
}

// scenarioNew checks New on unusual arguments.
func scenarioNew(seed int64) {
	h := &H{r: rand.New(rand.NewSource(seed)), shape: map[int][3]int{}, ids: map[int]bool{}}
	cur = h
	for _, v := range []int{0, -1, 1 << 21, 1<<21 + 5, 1 << 31, 1 << 32, 1<<32 + 3, -1 << 40} {
		h.cfg = fmt.Sprintf("New(%d), build %s", v, build)
		h.guarded("C17", h.cfg, func() bool {
			b, err := New(v)
			if err == nil || b != nil {
				h.fail("C17", "New(%d) succeeds", v)
			}
			return true
		})
	}
	for i := 0; i < 20; i++ {
		v := 1 + h.r.Intn(40)
		ns, mx, mi, mf := h.r.Intn(300)-50, h.r.Intn(300)-50, h.r.Intn(300)-50, h.r.Intn(250)-50
		cs, cr := h.r.Intn(300)-50, h.r.Intn(300)-50
		h.cfg = fmt.Sprintf("New(%d, Nodesize(%d), Maxnodesize(%d), Maxnodeincrease(%d), Minfreenodes(%d), Cachesize(%d), Cacheratio(%d)), build %s", v, ns, mx, mi, mf, cs, cr, build)
		h.guarded("C17,C13", h.cfg, func() bool {
			b, err := New(v, Nodesize(ns), Maxnodesize(mx), Maxnodeincrease(mi), Minfreenodes(mf), Cachesize(cs), Cacheratio(cr))
			if err != nil || b == nil {
				h.fail("C17", "New fails: %v", err)
			}
			h.b, h.vn, h.maxSize, h.init = b, v, 0, 0
			h.table("new")
			if a, _, _ := h.stats(); a >= 0 && (a < ns || a < 2*v+2) {
				h.fail("C17", "the table has %d slots", a)
			}
			if v >= 3 {
				x := b.And(b.Ithvar(0), b.NIthvar(1), b.Ithvar(2))
				y := b.Not(b.Or(b.NIthvar(0), b.Ithvar(1), b.NIthvar(2)))
				if x != nil && y != nil && !b.Equal(x, y) {
					h.fail("C17,C13", "de Morgan fails")
				}
			}
			return true
		})
	}
}

// scenarioGrow checks that the table grows when it has to, by no more than allowed.
func scenarioGrow(seed int64) {
	h := &H{r: rand.New(rand.NewSource(seed)), vn: 12, act: []int{0, 1, 2, 3, 4, 5}, shape: map[int][3]int{}, ids: map[int]bool{}}
	cur = h
	inc := []int{50, 100, 1000, 0, -3}[h.r.Intn(5)]
	max := 0
	if h.r.Intn(2) == 0 {
		max = 100 + h.r.Intn(300)
		h.limited = true
	}
	h.cfg = fmt.Sprintf("New(12, Nodesize(30), Maxnodesize(%d), Maxnodeincrease(%d)), seed %d, build %s", max, inc, seed, build)
	b, err := New(12, Nodesize(30), Maxnodesize(max), Maxnodeincrease(inc), Cacheratio(h.r.Intn(2)*50))
	if err != nil {
		h.fail("C17", "New fails: %v", err)
	}
	h.b = b
	h.maxSize = max
	a, _, _ := h.stats()
	h.init = a
	var ns []Node
	for i := 0; i < 400; i++ {
		x := b.Apply(b.Apply(b.Ithvar(h.r.Intn(12)), b.Ithvar(h.r.Intn(12)), Operator(h.r.Intn(10))), b.Apply(b.Ithvar(h.r.Intn(12)), b.Ithvar(h.r.Intn(12)), Operator(h.r.Intn(10))), Operator(h.r.Intn(10)))
		if x == nil && max == 0 {
			h.fail("C15,C21", "an operation fails without limits: %s", b.Error())
		}
		if x != nil {
			ns = append(ns, x)
		}
		a2, u, f := h.stats()
		if a < 0 {
			break
		}
		if a2 != a {
			h.op("the table grows from %d to %d", a, a2)
			if a2 < a || inc > 0 && a2-a > 2*inc {
				h.fail("C15", "the table grows from %d to %d", a, a2)
			}
			if max > 0 && a2 > max && a2 > h.init {
				h.fail("C15", "the table grows to %d, over the limit %d", a2, max)
			}
		}
		if u+f != a2 {
			h.fail("C18", "Stats: %d used and %d free out of %d", u, f, a2)
		}
		a = a2
	}
	h.table("")
	runtime.KeepAlive(ns)
}

// ---- the search

var focus = map[string]int{"C02": 20, "C03": 45, "C04": 55, "C05": 65, "C06": 75, "C07": 75, "C08": 84, "C09": 87, "C10": 90, "C14": 94, "C16": 81, "C18": 92, "C19": 95, "C01": 100, "C11": 97, "C12": 97}[prop]

// scenarioPressure runs one operation on random functions in a table that is almost full, so that
// reclamations happen in the middle of it.
func scenarioPressure(seed int64) {
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 60; i++ {
		h := &H{r: r, vn: 6, act: []int{0, 1, 2, 3, 4, 5}, shape: map[int][3]int{}, ids: map[int]bool{}}
		cur = h
		size, inc, free, cache, ratio := 14+r.Intn(120), []int{1, 7, 16, 30}[r.Intn(4)], r.Intn(3), 1+r.Intn(200), r.Intn(2)*100
		if build == "buddy" {
			inc += 30
		}
		h.cfg = fmt.Sprintf("New(6, Nodesize(%d), Maxnodeincrease(%d), Minfreenodes(%d), Cachesize(%d), Cacheratio(%d)), seed %d, build %s", size, inc, free, cache, ratio, seed, build)
		b, err := New(6, Nodesize(size), Maxnodeincrease(inc), Minfreenodes(free), Cachesize(cache), Cacheratio(ratio))
		if err != nil {
			h.fail("C17", "New fails: %v", err)
		}
		h.b = b
		mk := func(t uint64) Node {
			var rec func(t uint64, k int) Node
			rec = func(t uint64, k int) Node {
				if t == 0 || t == tTrue {
					return b.From(t != 0)
				}
				return b.Ite(b.Ithvar(k), rec(cof(t, k, true), k+1), rec(cof(t, k, false), k+1))
			}
			return rec(t, 0)
		}
		var ts [3]uint64
		var ns [3]Node
		for k := range ts {
			ts[k] = r.Uint64()
			if r.Intn(3) == 0 {
				ts[k] = ex1(ts[k], r.Intn(6))
			}
			ns[k] = mk(ts[k])
		}
		var set []int
		for k := 0; k < 6; k++ {
			if r.Intn(3) == 0 {
				set = append(set, k)
			}
		}
		vs := b.Makeset(set)
		runtime.GC()
		for j := 0; j < 3; j++ {
			what := r.Intn(7)
			want, props := uint64(0), ""
			var res Node
			desc := ""
			switch what {
			case 0:
				desc, props, want = "Not", "C02", ^ts[0]
				res = b.Not(ns[0])
			case 1, 2:
				op := r.Intn(10)
				desc, props, want = "Apply "+Operator(op).String(), "C02", apply(op, ts[0], ts[1])
				res = b.Apply(ns[0], ns[1], Operator(op))
			case 3:
				desc, props, want = "Ite", "C03", ts[0]&ts[1]|^ts[0]&ts[2]
				res = b.Ite(ns[0], ns[1], ns[2])
			case 4:
				desc, props, want = fmt.Sprint("Exist ", set), "C04", ts[0]
				for _, k := range set {
					want = ex1(want, k)
				}
				res = b.Exist(ns[0], vs)
			case 5:
				op := r.Intn(4)
				desc, props, want = fmt.Sprint("AppEx ", Operator(op), " ", set), "C05", apply(op, ts[0], ts[1])
				for _, k := range set {
					want = ex1(want, k)
				}
				res = b.AppEx(ns[0], ns[1], Operator(op), vs)
			case 6:
				k, l := r.Intn(6), r.Intn(6)
				t := ex1(ts[0], l)
				n := mk(t)
				rep, err := b.NewReplacer([]int{k}, []int{l})
				if err != nil {
					h.fail("C07", "NewReplacer([%d], [%d]) fails: %v", k, l, err)
				}
				desc, props = fmt.Sprintf("Replace %d by %d", k, l), "C06"
				t0, t1 := cof(t, k, false), cof(t, k, true)
				want = t0&^proj[l] | t1&proj[l]
				if k == l {
					want = t
				}
				runtime.GC()
				res = b.Replace(n, rep)
				runtime.KeepAlive(n)
			}
			h.op("operands %016x %016x %016x, then %s", ts[0], ts[1], ts[2], desc)
			if res == nil {
				h.fail(props+",C15,C21,C11", "%s fails: %s", desc, b.Error())
			}
			if got := h.tt(res, props+",C11,C13"); got != want {
				h.fail(props+",C11,C13", "%s of %016x %016x %016x gives %016x instead of %016x", desc, ts[0], ts[1], ts[2], got, want)
			}
		}
		for k := range ns {
			if got := h.tt(ns[k], "C11,C12"); got != ts[k] {
				h.fail("C11,C12", "an operand that denoted %016x now denotes %016x", ts[k], got)
			}
		}
		runtime.KeepAlive(vs)
		runtime.KeepAlive(ns)
	}
}

func run(seed int64, steps int, end time.Time) (f *failure, h *H) {
	defer func() {
		if x := recover(); x != nil {
			if fl, ok := x.(failure); ok {
				f = &fl
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			f = &failure{"all", fmt.Sprintf("panic: %v\n%s", x, st)}
		}
	}()
	h = newH(seed)
	for i := 0; i < steps && time.Now().Before(end); i++ {
		h.step()
		if i%16 == 15 {
			h.intact("")
		}
		if i%61 == 60 {
			h.table("")
		}
	}
	h.op("final checks")
	h.intact("")
	h.table("")
	return nil, h
}

func scen(fn func(int64), seed int64) (f *failure) {
	defer func() {
		if x := recover(); x != nil {
			if fl, ok := x.(failure); ok {
				f = &fl
				return
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			f = &failure{"all", fmt.Sprintf("panic: %v\n%s", x, st)}
		}
	}()
	fn(seed)
	return nil
}

func relevant(f *failure) bool {
	if prop == "" || f.props == "all" {
		return true
	}
	for _, p := range strings.Split(f.props, ",") {
		if p == prop {
			return true
		}
	}
	return false
}

var _ = bits.Len

func TestReplay(t *testing.T) {
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 10
	}
	seed0, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	others := map[string]int{}
	n := 0
	type sc struct {
		f     func(int64)
		props string
	}
	scs := []sc{{scenarioRefs, "C11,C12,C20,C21"}, {scenarioFree, "C12,C18,C15,C11,C21"}, {scenarioNew, "C17,C13,C21,C01,C16"}, {scenarioGrow, "C15,C18,C21,C11"},
		{scenarioPressure, "C02,C03,C04,C05,C06,C11,C13,C15,C21"}}
	report := func(f *failure, h *H, what string) bool {
		if f == nil {
			return false
		}
		if !relevant(f) {
			others[f.props]++
			return false
		}
		msg := fmt.Sprintf("FAILING INPUT property=%s\n%s\nfound by: %s", prop, f.msg, what)
		fmt.Println(msg)
		if h == nil {
			h = cur
		}
		h.save(msg)
		t.Fail()
		return true
	}
	for seed := seed0 * 1000003; time.Now().Before(end); seed++ {
		for _, s := range scs {
			every := int64(60)
			if prop == "" || strings.Contains(s.props, prop) {
				every = 12
			}
			if seed%every == 1%every {
				cur = &H{cfg: fmt.Sprintf("scenario, seed %d", seed)}
				cur.save("")
				if report(scen(s.f, seed), nil, "a directed scenario") {
					return
				}
			}
		}
		steps := 60 + int(seed%7)*60
		h := &H{}
		var f *failure
		f, h = run(seed, steps, end)
		if report(f, h, "random histories") {
			return
		}
		n++
	}
	fmt.Printf("no failing input among %d histories (failures of other properties: %v)\n", n, others)
}
