# Cubes, sets of variables, replacers, counting and enumeration.

# ---- cubes: the conjunction of the literals i <= k < n, variable V[k] in positive form when P[k]
fun CUBE((Array Int Int), (Array Int Bool), Int, Int) : Fn
axiom [cube] cube_nil: forall V: (Array Int Int), P: (Array Int Bool), i, n :: {CUBE(V, P, i, n)} n <= i ==> CUBE(V, P, i, n) == F1
axiom [cube] cube_step: forall V: (Array Int Int), P: (Array Int Bool), i, j, n :: {CUBE(V, P, i, n), CUBE(V, P, j, n)}
  j == i + 1 && i < n ==> CUBE(V, P, i, n) == (if P[i] then mk(V[i], F0, CUBE(V, P, j, n)) else mk(V[i], CUBE(V, P, j, n), F0))

func (*BDD).Makecube(b, varset, polarity) r
  use op
  groups cube
  requires arr(varset) != arr(b.refstack)
  requires len(varset) == len(polarity) ==> (forall i, j :: {varset[i], varset[j]} 0 <= i && i < j && j < len(varset) ==> varset[i] < varset[j])
  loop 1
    invariant INV(b) && -1 <= k && k < len(polarity) && len(polarity) == b.varnum
    invariant depth(SK(b)) == len(polarity) - 1 - k
    invariant if b.failed then res == -1 else 0 <= res && K(b.@T, b.@L, SK(b), res) && stkok(b.@T, SK(b))
    invariant !b.failed ==> g(b.@T, res) == CUBE(lambda i :: i, elems(polarity), k + 1, len(polarity)) && ib(g(b.@T, res), k + 1)
    invariant pres(pre(b.@T), b.@L, emp, b.@T) && b.@L == pre(b.@L) && !b.@clash
    decreases k + 1
  loop 2
    invariant INV(b) && -1 <= k && k < len(polarity)
    invariant depth(SK(b)) == len(polarity) - 1 - k
    invariant if b.failed then res == -1 else 0 <= res && K(b.@T, b.@L, SK(b), res) && stkok(b.@T, SK(b))
    invariant !b.failed ==> g(b.@T, res) == CUBE(elems(varset), elems(polarity), k + 1, len(polarity))
    invariant !b.failed && k >= 0 && 0 <= varset[k] && varset[k] < b.varnum ==> ib(g(b.@T, res), varset[k] + 1)
    invariant pres(pre(b.@T), b.@L, emp, b.@T) && b.@L == pre(b.@L) && !b.@clash
    invariant forall i :: {varset[i]} k < i && i < len(varset) ==> 0 <= varset[i] && varset[i] < b.varnum
    decreases k + 1
  ensures r != nil && len(varset) == 0 ==> len(polarity) == b.varnum && g(b.@T, *r) == CUBE(lambda i :: i, elems(polarity), 0, len(polarity))
  ensures r != nil && len(varset) > 0 ==> len(polarity) == len(varset) && g(b.@T, *r) == CUBE(elems(varset), elems(polarity), 0, len(polarity))
  ensures [C14] len(varset) == 0 && len(polarity) != b.varnum || len(varset) > 0 && len(varset) != len(polarity) ==> r == nil
  ensures [C14] forall i :: {varset[i]} 0 <= i && i < len(varset) && !(0 <= varset[i] && varset[i] < b.varnum) ==> r == nil
  ensures [C15] r == nil && (len(varset) == 0 && len(polarity) == b.varnum || len(varset) > 0 && len(varset) == len(polarity)) 
    && (forall i :: {varset[i]} 0 <= i && i < len(varset) ==> 0 <= varset[i] && varset[i] < b.varnum) ==> limited(b.tables)

# ---- sets of variables: the conjunction of the variables V[i], ..., V[n-1]
fun SETF((Array Int Int), Int, Int) : Fn
axiom [cube] set_nil: forall V: (Array Int Int), i, n :: {SETF(V, i, n)} n <= i ==> SETF(V, i, n) == F1
axiom [cube] set_step: forall V: (Array Int Int), i, j, n :: {SETF(V, i, n), SETF(V, j, n)} j == i + 1 && i < n ==> SETF(V, i, n) == AP(0, VAR(V[i]), SETF(V, j, n))
# a diagram of such a conjunction is a chain of high branches through these variables
axiom [cube] set_vs: forall T: Tab, n, V: (Array Int Int), i, m, k :: {vs(T, n)[k], SETF(V, i, m)} wf(T) && in(T, n) && g(T, n) == SETF(V, i, m)
  && (forall j :: {V[j]} i <= j && j < m ==> 0 <= V[j] && V[j] < lev(T, 0)) ==> (vs(T, n)[k] <==> (exists j :: i <= j && j < m && V[j] == k))

func (*BDD).Makeset(b, varset) r
  reveal VA
  groups cube
  requires INV(b)
  requires arr(varset) != arr(b.refstack)
  modifies $opmods, b.@L, b.@clash, b.applycache.op
  loop 1
    invariant INV(b) && -1 <= k && k < len(varset) && b.applycache.op == 0
    invariant depth(SK(b)) == len(varset) - 1 - k
    invariant if b.failed then res == -1 else 0 <= res && K(b.@T, b.@L, SK(b), res) && stkok(b.@T, SK(b)) && g(b.@T, res) == SETF(elems(varset), k + 1, len(varset))
    invariant pres(pre(b.@T), b.@L, emp, b.@T) && b.@L == pre(b.@L) && !b.@clash
    invariant forall i :: {varset[i]} k < i && i < len(varset) ==> 0 <= varset[i] && varset[i] < b.varnum
    decreases k + 1
  ensures INV(b)
  ensures [C11] pres(old(b.@T), old(b.@L), emp, b.@T)
  ensures [C11] forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures r != nil ==> in(b.@T, *r) && (*r < 2 || b.@L[*r])
  ensures [C14] r == nil ==> b.error != nil
  ensures [C14] forall i :: {varset[i]} 0 <= i && i < len(varset) && !(0 <= varset[i] && varset[i] < b.varnum) ==> r == bddzero && b.error != nil
  ensures r != nil && (forall i :: {varset[i]} 0 <= i && i < len(varset) ==> 0 <= varset[i] && varset[i] < b.varnum) ==> g(b.@T, *r) == SETF(elems(varset), 0, len(varset))
  ensures r != nil && (forall i :: {varset[i]} 0 <= i && i < len(varset) ==> 0 <= varset[i] && varset[i] < b.varnum) ==>
    (forall k :: {vs(b.@T, *r)[k]} vs(b.@T, *r)[k] <==> (exists i :: 0 <= i && i < len(varset) && varset[i] == k))
  ensures [C15] r == nil ==> limited(b.tables)

# @sp: the position at which Scanset puts a variable
ghostfield glob.@sp : (Array Int Int)
func (*BDD).Scanset(b, n) r
  requires INV(b)
  modifies $rd, b.error, @sp
  loop 1
    ghost loop @sp := store(@sp, res[len(res) - 1], len(res) - 1)
    invariant INV(b) && in(b.@T, i) && b.@T == pre(b.@T)
    invariant 0 <= len(res) && len(res) <= 1 + lev(b.@T, i) && fresh(arr(res))
    invariant forall j :: {res[j]} 0 <= j && j < len(res) ==> 0 <= res[j] && res[j] < lev(b.@T, i) && vs(b.@T, *n)[res[j]]
    invariant forall j, k :: {res[j], res[k]} 0 <= j && j < k && k < len(res) ==> res[j] < res[k]
    invariant forall k :: {vs(b.@T, i)[k]} vs(b.@T, i)[k] ==> vs(b.@T, *n)[k]
    invariant forall k :: {vs(b.@T, *n)[k]} vs(b.@T, *n)[k] ==> vs(b.@T, i)[k] || 0 <= @sp[k] && @sp[k] < len(res) && res[@sp[k]] == k
    decreases lev(b.@T, 0) - lev(b.@T, i)
  ensures INV(b)
  ensures [C14] n == nil || !in(b.@T, *n) ==> len(r) == 0 && b.error != nil
  ensures n != nil && in(b.@T, *n) ==> b.error == old(b.error)
  ensures n != nil && in(b.@T, *n) ==> (forall j :: {r[j]} 0 <= j && j < len(r) ==> vs(b.@T, *n)[r[j]])
  ensures n != nil && in(b.@T, *n) ==> (forall j, k :: {r[j], r[k]} 0 <= j && j < k && k < len(r) ==> r[j] < r[k])
  ensures n != nil && in(b.@T, *n) ==> (forall k :: {vs(b.@T, *n)[k]} vs(b.@T, *n)[k] ==> 0 <= @sp[k] && @sp[k] < len(r) && r[@sp[k]] == k)

# ---- replacers
# oldvars and newvars describe a substitution that Replace accepts
def VR(n, lo, o: (Array Int Int), lw, w: (Array Int Int)) = lo == lw
  && (forall j :: {o[j]} {w[j]} 0 <= j && j < lo ==> 0 <= o[j] && o[j] < n && 0 <= w[j] && w[j] < n)
  && (forall j, k :: {o[j], o[k]} 0 <= j && j < k && k < lo ==> o[j] != o[k])
  && (forall j, k :: {w[j], w[k]} 0 <= j && j < k && k < lw ==> w[j] != w[k])
  && (forall j, k :: {w[j], o[k]} 0 <= j && j < lw && 0 <= k && k < lo && j != k ==> w[j] != o[k])
lemma (reveal CR) cr_img: forall n, a: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, m: (Array Int (Array Int Int)), z, m2: (Array Int (Array Int Int)), z2 ::
  {CR(n, a, c, r, T, m, z), CR(n, a, c, r, T, m2, z2)} CR(n, a, c, r, T, m, z) && z <= z2 && (forall k :: {m2[k]} k < z ==> m2[k] == m[k]) ==> CR(n, a, c, r, T, m2, z2)
# @op, @np: the positions of a variable in oldvars and in newvars; @rim: the substitution
ghostfield glob.@op : (Array Int Int)
ghostfield glob.@np : (Array Int Int)
ghostfield glob.@rim : (Array Int Int)
def rimage(r: replacer, i): Int = r.image[i]
func (*BDD).NewReplacer(b, oldvars, newvars) r, err
  requires INV(b) && allocated(arr(b.quantset)) && 0 <= _REPLACEID && _REPLACEID <= 536870911
  modifies _REPLACEID, @img, @op, @np, @rim
  loop 1
    invariant forall i :: {res.image[i]} 0 <= i && i < $i ==> res.image[i] == i
  loop 2
    ghost loop @op := store(@op, oldvars[$i - 1], $i - 1)
    invariant forall j :: {oldvars[j]} {newvars[j]} 0 <= j && j < $i ==> 0 <= oldvars[j] && oldvars[j] < b.varnum && 0 <= newvars[j] && newvars[j] < b.varnum && support[oldvars[j]] && @op[oldvars[j]] == j
    invariant forall v :: {support[v]} {res.image[v]} 0 <= v && v < b.varnum ==> (support[v] ==> 0 <= @op[v] && @op[v] < $i && oldvars[@op[v]] == v && v <= res.last) && res.image[v] == (if support[v] then newvars[@op[v]] else v)
    invariant 0 <= res.last && res.last < b.varnum
  loop 3
    ghost loop @np := store(@np, newvars[$i - 1], $i - 1)
    invariant forall j :: {newvars[j]} 0 <= j && j < $i ==> target[newvars[j]] && @np[newvars[j]] == j && res.image[newvars[j]] == newvars[j]
    invariant forall v :: {target[v]} 0 <= v && v < b.varnum && target[v] ==> 0 <= @np[v] && @np[v] < $i && newvars[@np[v]] == v
  ghost exit @rim := lambda v :: if 0 <= v && v < b.varnum then rimage(r, v) else v
  ghost exit @img := store(@img, 4 * old(_REPLACEID), @rim) when err == nil
  assert CR(len(b.replacecache.table), elems(b.replacecache.table, a), elems(b.replacecache.table, c), elems(b.replacecache.table, res), b.@T, old(@img), 4 * old(_REPLACEID))
  ensures INV(b)
  ensures forall k :: {@img[k]} k < 4 * old(_REPLACEID) ==> @img[k] == old(@img)[k]
  ensures old(_REPLACEID) <= _REPLACEID && _REPLACEID <= 536870911
  ensures err == nil ==> RP(b, r)
  ensures err == nil ==> rid(r) == 4 * old(_REPLACEID) && _REPLACEID == old(_REPLACEID) + 1
  ensures err != nil ==> r == nil
  ensures [C14] err == nil ==> VR(b.varnum, len(oldvars), elems(oldvars), len(newvars), elems(newvars))
  ensures old(_REPLACEID) < 536870911 && VR(b.varnum, len(oldvars), elems(oldvars), len(newvars), elems(newvars)) ==> err == nil
  ensures err == nil ==> (forall j :: {oldvars[j]} 0 <= j && j < len(oldvars) ==> @img[rid(r)][oldvars[j]] == newvars[j])
  ensures err == nil ==> (forall v :: {@img[rid(r)][v]} @img[rid(r)][v] == v || 0 <= @op[v] && @op[v] < len(oldvars) && oldvars[@op[v]] == v)

# ---- counting. CNT(f, l, n): the number of assignments to the variables l, ..., n-1 that satisfy f,
# when f depends on no others
fun CNT(Fn, Int, Int) : Int
fun POW2(Int) : Int
fun MUL(Int, Int) : Int
axiom [count] pow2_0: POW2(0) == 1
axiom [count] cnt_f0: forall l, n :: {CNT(F0, l, n)} CNT(F0, l, n) == 0
axiom [count] cnt_f1: forall l, n :: {CNT(F1, l, n)} l <= n ==> CNT(F1, l, n) == POW2(n - l)
axiom [count] cnt_mk: forall l, a: Fn, b: Fn, i, j, n :: {CNT(mk(l, a, b), l, n), CNT(a, i, n), CNT(b, j, n)} 0 <= l && l < i && l < j && i <= n && j <= n && ib(a, i) && ib(b, j)
  ==> CNT(mk(l, a, b), l, n) == MUL(POW2(i - l - 1), CNT(a, i, n)) + MUL(POW2(j - l - 1), CNT(b, j, n))
axiom [count] cnt_lift: forall f: Fn, l, m, n :: {CNT(f, l, n), CNT(f, m, n)} ib(f, m) && 0 <= l && l <= m && m <= n ==> CNT(f, l, n) == MUL(POW2(m - l), CNT(f, m, n))

axiom [count] mul_comm: forall x, y :: {MUL(x, y)} MUL(x, y) == MUL(y, x)
axiom [count] mul_one: forall x :: {MUL(x, 1)} MUL(x, 1) == x

extern (*big.Int).Lsh(z, x, n) r
  requires [C21] z != nil && x != nil
  modifies z.@val
  ensures r == z && z.@val == MUL(POW2(n), old(x.@val))
extern (*big.Int).Set(z, x) r
  requires [C21] z != nil && x != nil
  modifies z.@val
  ensures r == z && z.@val == old(x.@val)
extern (*big.Int).SetInt64(z, x) r
  requires [C21] z != nil
  modifies z.@val
  ensures r == z && z.@val == x
extern (*big.Int).SetBit(z, x, i, v) r
  requires [C21] 0 <= i && z != nil && x != nil
  modifies z.@val
  ensures r == z && (old(x.@val) == 0 && v == 1 ==> z.@val == POW2(i))
extern (*big.Int).Add(z, x, y) r
  requires [C21] z != nil && x != nil && y != nil
  modifies z.@val
  ensures r == z && z.@val == old(x.@val) + old(y.@val)
extern (*big.Int).Mul(z, x, y) r
  requires [C21] z != nil && x != nil && y != nil
  modifies z.@val
  ensures r == z && z.@val == MUL(old(x.@val), old(y.@val))

func (*BDD).satcount(b, n, satc) r
  groups count
  requires INV(b) && in(b.@T, n) && satc != nil
  requires forall k :: {dom(satc)[k]} {vals(satc)[k]} dom(satc)[k] ==> in(b.@T, k) && allocated(vals(satc)[k]) && gh(big.Int.@val, vals(satc)[k]) == CNT(g(b.@T, k), lev(b.@T, k), b.varnum)
  modifies $rd, mapof(satc)
  ensures INV(b)
  ensures forall k :: {dom(satc)[k]} {vals(satc)[k]} dom(satc)[k] ==> in(b.@T, k) && allocated(vals(satc)[k]) && gh(big.Int.@val, vals(satc)[k]) == CNT(g(b.@T, k), lev(b.@T, k), b.varnum)
  ensures forall k :: {dom(satc)[k]} {vals(satc)[k]} dom(satc)[k] ==> old(dom(satc))[k] && vals(satc)[k] == old(vals(satc))[k] || fresh(vals(satc)[k])
  ensures r != nil && r.@val == CNT(g(b.@T, n), lev(b.@T, n), b.varnum)
  decreases lev(b.@T, 0) - lev(b.@T, n)

func (*BDD).Satcount(b, n) r
  groups count
  requires INV(b)
  modifies $rd, b.error
  ensures INV(b)
  ensures r != nil
  ensures n != nil && in(b.@T, *n) ==> r.@val == CNT(g(b.@T, *n), 0, b.varnum) && b.error == old(b.error)
  ensures [C14] n == nil || !in(b.@T, *n) ==> r.@val == 0 && b.error != nil

# ---- enumeration of nodes. @vis: the number of visits of each node; @cberr: the function that Allnodes
# or Allsat calls has returned an error, and which
ghostfield glob.@vis : (Array Int Int)
ghostfield glob.@cberr : Int
clauses visitor
  callback f(id, level, low, high) err
    requires [C21] 0 <= id && id < tsize(b.@T)
    requires in(b.@T, id) && level == lev(b.@T, id) && low == lo(b.@T, id) && high == hi(b.@T, id)
    requires @cberr == 0
    modifies @vis, @cberr
    ensures @vis == store(old(@vis), id, old(@vis)[id] + 1)
    ensures @cberr == err

func [buddy] (*tables).unmarkall(b)
  reveal TS
  requires TIm(b) && RI(b) && b.@marking
  modifies elems(b.nodes, level)
  loop 1
    invariant TS(b)
    invariant forall i :: {b.nodes[i].level} 0 <= i && i < $i ==> !mk2(b.nodes[i].level)
  ensures TS(b)
  ensures forall i :: {b.nodes[i].level} 0 <= i && i < len(b.nodes) ==> !mk2(b.nodes[i].level)

func [buddy] (*tables).allnodesfrom(b, f, n) r
  reveal TS MK CM
  groups gc
  requires TI(b) && RI(b) && @cberr == 0 && f != nil
  requires forall i :: {n[i]} 0 <= i && i < len(n) ==> n[i] != nil && in(b.@T, *n[i])
  modifies elems(b.nodes, refcou), elems(b.nodes, level), b.@cnt, b.@mode, b.@marking, @P, @vis, @cberr
  ghost entry b.@marking := true
  ghost entry @P := lambda k :: exists i :: 0 <= i && i < len(n) && *n[i] == k
  loop 1
    invariant TIm(b) && RI(b)
    invariant CM(b.@T, elems(b.nodes, level), @P, emp)
    invariant forall i :: {n[i]} 0 <= i && i < $i && 2 <= *n[i] ==> b.nodes[*n[i]].level >= 2097152
  loop 2
    invariant marked(b.@T, @P, emp, pre(elems(b.nodes, level)))
    invariant RI(b) && b.@mode == 0 && @cberr == 0 && TS(b)
    invariant forall i :: {b.nodes[i].level} 0 <= i && i < len(b.nodes) ==> (mk2(b.nodes[i].level) <==> $i <= i && mk2(pre(elems(b.nodes, level))[i]))
    invariant forall i :: {@vis[i]} @vis[i] == old(@vis)[i] + (if 0 <= i && i < $i && mk2(pre(elems(b.nodes, level))[i]) then 1 else 0)
  ghost exit b.@marking := false
  ensures TI(b) && RI(b)
  ensures r == nil <==> @cberr == 0
  ensures r == @cberr
  ensures forall k :: {@P[k]} @P[k] <==> (exists i :: 0 <= i && i < len(n) && *n[i] == k)
  ensures r == nil ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if 2 <= k && K(b.@T, @P, emp, k) then 1 else 0))
  use visitor

func [buddy] (*tables).allnodes(b, f) r
  reveal TS wf
  requires TI(b) && RI(b) && @cberr == 0 && f != nil
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode, @vis, @cberr
  loop 1
    invariant RI(b) && b.@mode == 0 && @cberr == 0
    invariant forall i :: {@vis[i]} @vis[i] == old(@vis)[i] + (if 0 <= i && i < $i && in(b.@T, i) then 1 else 0)
  ensures TI(b) && RI(b)
  ensures r == @cberr
  ensures r == nil ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if in(b.@T, k) then 1 else 0))
  use visitor

func [hudd] (*tables).unmarkall(b)
  reveal TS RI RELY LOWM
  requires TIm(b) && RI(b) && b.@marking
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  loop 1
    invariant RI(b) && b.@mode == 0
    invariant forall i :: {b.nodes[i].refcou} 0 <= i && i < $i ==> !mk2(b.nodes[i].refcou)
  ensures RI(b) && b.@mode == 0
  ensures forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) ==> !mk2(b.nodes[i].refcou)

func [hudd] (*tables).allnodesfrom(b, f, n) r
  reveal TS RI RELY MK LOWM CM
  groups gc
  requires TI(b) && RI(b) && @cberr == 0 && f != nil
  requires forall i :: {n[i]} 0 <= i && i < len(n) ==> n[i] != nil && in(b.@T, *n[i])
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode, b.@marking, @P, @vis, @cberr
  ghost entry b.@marking := true
  ghost entry @P := lambda k :: exists i :: 0 <= i && i < len(n) && *n[i] == k
  loop 1
    invariant TIm(b) && RI(b)
    invariant CM(b.@T, elems(b.nodes, refcou), @P, emp)
    invariant forall i :: {n[i]} 0 <= i && i < $i && 2 <= *n[i] ==> b.nodes[*n[i]].refcou >= 2097152
  loop 2
    invariant marked(b.@T, @P, emp, pre(elems(b.nodes, refcou)))
    invariant RI(b) && b.@mode == 0 && @cberr == 0
    invariant forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) ==> (mk2(b.nodes[i].refcou) <==> k <= i && mk2(pre(elems(b.nodes, refcou))[i]))
    invariant forall i :: {@vis[i]} @vis[i] == old(@vis)[i] + (if 0 <= i && i < k && mk2(pre(elems(b.nodes, refcou))[i]) then 1 else 0)
  ghost exit b.@marking := false
  ensures TI(b) && RI(b)
  ensures r == nil <==> @cberr == 0
  ensures r == @cberr
  ensures forall k :: {@P[k]} @P[k] <==> (exists i :: 0 <= i && i < len(n) && *n[i] == k)
  ensures r == nil ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if 2 <= k && K(b.@T, @P, emp, k) then 1 else 0))
  use visitor

func [hudd] (*tables).allnodes(b, f) r
  reveal TS RI RELY wf
  requires TI(b) && RI(b) && @cberr == 0 && f != nil
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode, @vis, @cberr
  loop 1
    invariant RI(b) && b.@mode == 0 && @cberr == 0
    invariant forall i :: {@vis[i]} @vis[i] == old(@vis)[i] + (if i < k && in(b.@T, i) then 1 else 0)
  ensures TI(b) && RI(b)
  ensures r == @cberr
  ensures r == nil ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if in(b.@T, k) then 1 else 0))
  use visitor

func (*BDD).Allnodes(b, f, n) r
  requires INV(b) && @cberr == 0 && f != nil
  modifies $rd, elems(b.nodes, level), b.@marking, @P, @vis, @cberr, b.error
  loop 1
    invariant INV(b) && b.error == old(b.error) && 0 <= $i
    invariant forall i :: {n[i]} 0 <= i && i < $i ==> n[i] != nil && in(b.@T, *n[i])
  ensures INV(b)
  ensures (forall i :: {n[i]} 0 <= i && i < len(n) ==> n[i] != nil && in(b.@T, *n[i])) ==> r == @cberr && b.error == old(b.error)
  ensures forall i :: {n[i]} 0 <= i && i < len(n) && (n[i] == nil || !in(b.@T, *n[i])) ==> r != nil && b.error != nil && @vis == old(@vis)
  ensures r == nil && len(n) == 0 ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if in(b.@T, k) then 1 else 0))
  ensures r == nil && len(n) > 0 ==> (forall k :: {@vis[k]} @vis[k] == old(@vis)[k] + (if 2 <= k && K(b.@T, @P, emp, k) then 1 else 0))
  ensures r == nil && len(n) > 0 ==> (forall k :: {@P[k]} @P[k] <==> (exists i :: 0 <= i && i < len(n) && *n[i] == k))
  use visitor

# ---- enumeration of assignments. AV: an arbitrary assignment, the same in all contracts; EVA(f): the
# value of f under it; M(p, l): it agrees with the profile p on the variables below l
fun AV(Int) : Bool
fun EVA(Fn) : Bool
axiom [eva] eva_const: !EVA(F0) && EVA(F1)
axiom [eva] eva_mk: forall l, a: Fn, b: Fn :: {EVA(mk(l, a, b))} EVA(mk(l, a, b)) <==> (if AV(l) then EVA(b) else EVA(a))
opaque M(p: (Array Int Int), l) = forall v :: {p[v]} {AV(v)} 0 <= v && v < l ==> p[v] == -1 || p[v] == (if AV(v) then 1 else 0)
# @hits: the number of profiles that agree with AV. @alive: the last node given to runtime.KeepAlive
# after the function was called
ghostfield glob.@hits : Int
ghostfield glob.@alive : Int
extern runtime.KeepAlive(x)
  modifies @alive
  ensures @alive == ref(x)

modset anyop: $opmods, b.@L, b.@clash, $qmods, b.appexcache.op, b.appexcache.id, b.replacecache.id, _REPLACEID, @img, @op, @np, @rim, @sp, @hits, @cberr, @vis, @alive
clauses satisfier
  callback f(p) err
    requires len(p) == b.varnum && (forall v :: {p[v]} 0 <= v && v < len(p) ==> -1 <= p[v] && p[v] <= 1)
    requires INV(b)
    requires @cberr == 0
    modifies $anyop
    ensures INV(b)
    ensures pres(old(b.@T), old(b.@L), emp, b.@T)
    ensures forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
    ensures @hits == old(@hits) + (if M(elems(p), len(p)) then 1 else 0)
    ensures @cberr == err && @alive == 0

func (*BDD).allsat(b, n, prof, f) r
  reveal M
  groups eva chain
  requires INV(b) && K(b.@T, b.@L, emp, n) && @cberr == 0 && f != nil
  requires len(prof) == b.varnum && allocated(arr(prof)) && arr(prof) != arr(b.refstack)
  requires forall v :: {prof[v]} 0 <= v && v < len(prof) ==> -1 <= prof[v] && prof[v] <= 1
  decreases lev(b.@T, 0) - lev(b.@T, n)
  modifies $anyop, elems(prof)
  loop 1
    invariant INV(b) && b.@T == pre(b.@T)
    invariant lev(b.@T, n) <= v
    invariant forall i :: {prof[i]} v < i && i < lev(b.@T, lo(b.@T, n)) ==> prof[i] == -1
    invariant forall i :: {prof[i]} i <= v || lev(b.@T, lo(b.@T, n)) <= i ==> prof[i] == pre(elems(prof))[i]
    decreases v
  loop 2
    invariant INV(b) && b.@T == pre(b.@T)
    invariant lev(b.@T, n) <= v
    invariant forall i :: {prof[i]} v < i && i < lev(b.@T, hi(b.@T, n)) ==> prof[i] == -1
    invariant forall i :: {prof[i]} i <= v || lev(b.@T, hi(b.@T, n)) <= i ==> prof[i] == pre(elems(prof))[i]
    decreases v
  ensures INV(b)
  ensures pres(old(b.@T), old(b.@L), emp, b.@T)
  ensures forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures forall v :: {prof[v]} 0 <= v && v < len(prof) ==> -1 <= prof[v] && prof[v] <= 1
  ensures forall v :: {prof[v]} 0 <= v && v < lev(old(b.@T), n) ==> prof[v] == old(elems(prof))[v]
  ensures r == @cberr
  ensures r == nil ==> @hits == old(@hits) + (if EVA(g(old(b.@T), n)) && M(old(elems(prof)), lev(old(b.@T), n)) then 1 else 0)
  use satisfier

func (*BDD).Allsat(b, f, n) r
  reveal M
  groups eva chain
  requires INV(b) && @cberr == 0 && f != nil
  requires allocated(arr(b.refstack))
  requires n != nil && in(b.@T, *n) && 2 <= *n ==> b.@L[*n]
  modifies $anyop
  loop 1
    invariant forall i :: {prof[i]} 0 <= i && i < $i ==> prof[i] == -1
  ensures INV(b)
  ensures pres(old(b.@T), old(b.@L), emp, b.@T)
  ensures n != nil && in(old(b.@T), *n) ==> r == @cberr && @alive == ref(n)
  ensures n != nil && in(old(b.@T), *n) && r == nil ==> @hits == old(@hits) + (if EVA(g(old(b.@T), *n)) then 1 else 0)
  ensures [C14] n == nil || !in(old(b.@T), *n) ==> r != nil && b.error != nil && @hits == old(@hits)
  use satisfier
