# Boolean functions, decision diagrams as abstract tables, reference stacks.
# Every axiom below is a theorem of the Lean development in /verif/lean (same names).

sort Fn Tab Stk

# ---- Boolean functions over the variables 0, 1, 2, ...
fun F0 : Fn
fun F1 : Fn
fun mk(Int, Fn, Fn) : Fn
fun NOT(Fn) : Fn
fun AP(Int, Fn, Fn) : Fn
fun ITE(Fn, Fn, Fn) : Fn
fun EX((Array Int Bool), Fn) : Fn
fun SUBST((Array Int Int), Fn) : Fn
fun ib(Fn, Int) : Bool
fun dep(Fn, Int) : Bool
fun VAR(Int) : Fn
fun NVAR(Int) : Fn

# the documented truth tables of the operators, in the order of the constants OPand...OPinvimp
def tt(op, x: Bool, y: Bool) =
  (op == 0 && x && y) || (op == 1 && x != y) || (op == 2 && (x || y)) || (op == 3 && !(x && y)) || (op == 4 && !(x || y))
  || (op == 5 && (!x || y)) || (op == 6 && x == y) || (op == 7 && x && !y) || (op == 8 && !x && y) || (op == 9 && (x || !y))

# the function of f which is x where f is false and y where f is true
def sel(x: Bool, y: Bool, f: Fn): Fn = if x then (if y then F1 else NOT(f)) else (if y then f else F0)

axiom f0_ne_f1: F0 != F1
axiom not_f0: NOT(F0) == F1
axiom not_f1: NOT(F1) == F0
axiom not_not: forall f: Fn :: {NOT(NOT(f))} NOT(NOT(f)) == f
axiom not_mk: forall l, a: Fn, b: Fn :: {NOT(mk(l, a, b))} NOT(mk(l, a, b)) == mk(l, NOT(a), NOT(b))
axiom mk_same: forall l, f: Fn :: {mk(l, f, f)} mk(l, f, f) == f

axiom ap_l0: forall op, f: Fn :: {AP(op, F0, f)} 0 <= op && op < 10 ==> AP(op, F0, f) == sel(tt(op, false, false), tt(op, false, true), f)
axiom ap_l1: forall op, f: Fn :: {AP(op, F1, f)} 0 <= op && op < 10 ==> AP(op, F1, f) == sel(tt(op, true, false), tt(op, true, true), f)
axiom ap_r0: forall op, f: Fn :: {AP(op, f, F0)} 0 <= op && op < 10 ==> AP(op, f, F0) == sel(tt(op, false, false), tt(op, true, false), f)
axiom ap_r1: forall op, f: Fn :: {AP(op, f, F1)} 0 <= op && op < 10 ==> AP(op, f, F1) == sel(tt(op, false, true), tt(op, true, true), f)
axiom ap_diag: forall op, f: Fn :: {AP(op, f, f)} 0 <= op && op < 10 ==> AP(op, f, f) == sel(tt(op, false, false), tt(op, true, true), f)
axiom ap_mk: forall op, l, a: Fn, b: Fn, c: Fn, d: Fn :: {AP(op, mk(l, a, b), mk(l, c, d))}
  AP(op, mk(l, a, b), mk(l, c, d)) == mk(l, AP(op, a, c), AP(op, b, d))
axiom ap_mk_l: forall op, l, a: Fn, b: Fn, g: Fn :: {AP(op, mk(l, a, b), g)}
  ib(g, l + 1) ==> AP(op, mk(l, a, b), g) == mk(l, AP(op, a, g), AP(op, b, g))
axiom ap_mk_r: forall op, l, a: Fn, b: Fn, g: Fn :: {AP(op, g, mk(l, a, b))}
  ib(g, l + 1) ==> AP(op, g, mk(l, a, b)) == mk(l, AP(op, g, a), AP(op, g, b))

# ib(f, l): f does not depend on the variables below l
axiom ib_f0: forall l :: {ib(F0, l)} ib(F0, l)
axiom ib_f1: forall l :: {ib(F1, l)} ib(F1, l)
axiom ib_mk: forall m, a: Fn, b: Fn, l :: {ib(mk(m, a, b), l)} l <= m && ib(a, l) && ib(b, l) ==> ib(mk(m, a, b), l)
axiom ib_not: forall f: Fn, l :: {ib(NOT(f), l)} ib(f, l) ==> ib(NOT(f), l)
axiom ib_ap: forall op, f: Fn, h: Fn, l :: {ib(AP(op, f, h), l)} ib(f, l) && ib(h, l) ==> ib(AP(op, f, h), l)
axiom ib_ite: forall f: Fn, h: Fn, k: Fn, l :: {ib(ITE(f, h, k), l)} ib(f, l) && ib(h, l) && ib(k, l) ==> ib(ITE(f, h, k), l)
axiom ib_ex: forall v: (Array Int Bool), f: Fn, l :: {ib(EX(v, f), l)} ib(f, l) ==> ib(EX(v, f), l)
axiom ib_var: forall v, l :: {ib(VAR(v), l)} 0 <= l && l <= v ==> ib(VAR(v), l)

axiom ite_f1: forall f: Fn, h: Fn :: {ITE(F1, f, h)} ITE(F1, f, h) == f
axiom ite_f0: forall f: Fn, h: Fn :: {ITE(F0, f, h)} ITE(F0, f, h) == h
axiom ite_same: forall f: Fn, h: Fn :: {ITE(f, h, h)} ITE(f, h, h) == h
axiom ite_id: forall f: Fn :: {ITE(f, F1, F0)} ITE(f, F1, F0) == f
axiom ite_mk: forall f: Fn, h: Fn, k: Fn, l, f0: Fn, f1: Fn, h0: Fn, h1: Fn, k0: Fn, k1: Fn :: {ITE(f, h, k), mk(l, ITE(f0, h0, k0), ITE(f1, h1, k1))}
  f == mk(l, f0, f1) && h == mk(l, h0, h1) && k == mk(l, k0, k1) ==> ITE(f, h, k) == mk(l, ITE(f0, h0, k0), ITE(f1, h1, k1))
axiom ite_not: forall f: Fn :: {ITE(f, F0, F1)} ITE(f, F0, F1) == NOT(f)

axiom var_mk: forall l :: {VAR(l)} VAR(l) == mk(l, F0, F1)
axiom nvar_mk: forall l :: {NVAR(l)} NVAR(l) == mk(l, F1, F0) && NVAR(l) == NOT(VAR(l))

# ---- tables: a snapshot of the node array. lev, lo, hi: contents of the slots; in: slots that hold
# a node; g: the function of a node
fun tsize(Tab) : Int
fun lev(Tab, Int) : Int
fun lo(Tab, Int) : Int
fun hi(Tab, Int) : Int
fun in(Tab, Int) : Bool
fun g(Tab, Int) : Fn
fun isTab(Tab, Int, (Array Int Int), (Array Int Int), (Array Int Int)) : Bool

axiom [tabs] istab_size: forall T: Tab, n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int) :: {isTab(T, n, a, b, c)}
  isTab(T, n, a, b, c) ==> tsize(T) == n
axiom [tabs] istab_lev: forall T: Tab, n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), i :: {isTab(T, n, a, b, c), lev(T, i)}
  isTab(T, n, a, b, c) && 0 <= i && i < n ==> lev(T, i) == a[i]
axiom [tabs] istab_lo: forall T: Tab, n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), i :: {isTab(T, n, a, b, c), lo(T, i)}
  isTab(T, n, a, b, c) && 0 <= i && i < n ==> lo(T, i) == b[i]
axiom [tabs] istab_hi: forall T: Tab, n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), i :: {isTab(T, n, a, b, c), hi(T, i)}
  isTab(T, n, a, b, c) && 0 <= i && i < n ==> hi(T, i) == c[i]
axiom [tabs] in_def: forall T: Tab, i :: {in(T, i)} in(T, i) <==> (0 <= i && i < tsize(T) && (i < 2 || lo(T, i) != -1))
axiom in_range: forall T: Tab, i :: {in(T, i)} in(T, i) ==> 0 <= i && i < tsize(T)
axiom in_lo: forall T: Tab, i :: {in(T, i), lo(T, i)} in(T, i) && 2 <= i ==> lo(T, i) != -1
axiom lo_in: forall T: Tab, i :: {lo(T, i)} 2 <= i && i < tsize(T) && lo(T, i) != -1 ==> in(T, i)

# wf(T): T is a reduced ordered diagram; its constants 0 and 1 are at the level of the number of variables
opaque wf(T: Tab) =
  tsize(T) >= 2 && 1 <= lev(T, 0) && lev(T, 0) <= 2097151 && lev(T, 1) == lev(T, 0)
  && lo(T, 0) == 0 && hi(T, 0) == 0 && lo(T, 1) == 1 && hi(T, 1) == 1 && in(T, 0) && in(T, 1)
  && (forall n :: {in(T, n)} in(T, n) && 2 <= n ==> 0 <= lev(T, n) && lev(T, n) < lev(T, 0) && in(T, lo(T, n)) && in(T, hi(T, n))
        && lo(T, n) != hi(T, n) && lev(T, n) < lev(T, lo(T, n)) && lev(T, n) < lev(T, hi(T, n)))
  && (forall n, m :: {in(T, n), in(T, m)} in(T, n) && in(T, m) && 2 <= n && 2 <= m && lev(T, n) == lev(T, m) && lo(T, n) == lo(T, m)
        && hi(T, n) == hi(T, m) ==> n == m)

lemma (reveal wf) wf_const: forall T: Tab :: {wf(T), in(T, 0)} {wf(T), in(T, 1)} {wf(T), lev(T, 0)} {wf(T), lev(T, 1)} {wf(T), g(T, 0)} {wf(T), g(T, 1)} {wf(T), lo(T, 0)} {wf(T), tsize(T)}
  wf(T) ==> in(T, 0) && in(T, 1) && lev(T, 1) == lev(T, 0) && 1 <= lev(T, 0) && lev(T, 0) <= 2097151 && tsize(T) >= 2
lemma (reveal wf) wf_node: forall T: Tab, n :: {wf(T), in(T, n), lo(T, n)} {wf(T), in(T, n), hi(T, n)} {wf(T), in(T, n), lev(T, n)}
  wf(T) && in(T, n) && 2 <= n ==> 0 <= lev(T, n) && lev(T, n) < lev(T, 0) && in(T, lo(T, n)) && in(T, hi(T, n))
    && lo(T, n) != hi(T, n) && lev(T, n) < lev(T, lo(T, n)) && lev(T, n) < lev(T, hi(T, n))
lemma (reveal wf) wf_lev: forall T: Tab, n :: {wf(T), lev(T, n)} wf(T) && in(T, n) ==> 0 <= lev(T, n) && lev(T, n) <= lev(T, 0) && (lev(T, n) == lev(T, 0) <==> n < 2)

axiom g_const: forall T: Tab :: {g(T, 0)} {g(T, 1)} g(T, 0) == F0 && g(T, 1) == F1
axiom g_unfold: forall T: Tab, n :: {wf(T), g(T, n), lo(T, n)} {wf(T), g(T, n), hi(T, n)} wf(T) && in(T, n) && 2 <= n ==> g(T, n) == mk(lev(T, n), g(T, lo(T, n)), g(T, hi(T, n)))
axiom g_ib: forall T: Tab, n, l :: {wf(T), ib(g(T, n), l)} wf(T) && in(T, n) ==> (l <= lev(T, 0) ==> (ib(g(T, n), l) <==> l <= lev(T, n)))
axiom [canon] g_canon: forall T: Tab, n, m :: {wf(T), g(T, n), g(T, m)} wf(T) && in(T, n) && in(T, m) && g(T, n) == g(T, m) ==> n == m

# ---- stacks of nodes
fun stk((Array Int Int), Int, Int) : Stk
fun push(Stk, Int) : Stk
fun dropn(Stk, Int) : Stk
fun depth(Stk) : Int
fun has(Stk, Int) : Bool
fun stkok(Tab, Stk) : Bool
fun emp : Stk

axiom depth_push: forall S: Stk, x :: {push(S, x)} depth(push(S, x)) == depth(S) + 1
axiom depth_nonneg: forall S: Stk :: {depth(S)} depth(S) >= 0
axiom drop_push: forall S: Stk, x, a :: {dropn(push(S, x), a)} 1 <= a ==> dropn(push(S, x), a) == dropn(S, a - 1)
axiom drop_zero: forall S: Stk :: {dropn(S, 0)} dropn(S, 0) == S
axiom depth_drop: forall S: Stk, a :: {dropn(S, a)} 0 <= a && a <= depth(S) ==> depth(dropn(S, a)) == depth(S) - a
axiom has_push: forall S: Stk, x, y :: {has(push(S, x), y)} has(push(S, x), y) <==> (x == y || has(S, y))
axiom emp_depth: depth(emp) == 0
axiom emp_has: forall x :: {has(emp, x)} !has(emp, x)
axiom depth_zero: forall S: Stk :: {depth(S)} depth(S) == 0 ==> S == emp
axiom stkok_emp: forall T: Tab :: {stkok(T, emp)} stkok(T, emp)
axiom stkok_push: forall T: Tab, S: Stk, x :: {stkok(T, push(S, x))} stkok(T, push(S, x)) <==> (stkok(T, S) && in(T, x))
axiom stkok_drop: forall T: Tab, S: Stk, a :: {stkok(T, dropn(S, a))} stkok(T, S) && 0 <= a && a <= depth(S) ==> stkok(T, dropn(S, a))
axiom stkok_has: forall T: Tab, S: Stk, x :: {stkok(T, S), has(S, x)} stkok(T, S) && has(S, x) ==> in(T, x)
axiom [stack] depth_stk: forall a: (Array Int Int), o, n :: {stk(a, o, n)} 0 <= n ==> depth(stk(a, o, n)) == n
axiom [stack] stk_push: forall a: (Array Int Int), b: (Array Int Int), o, n, m, x :: {push(stk(a, o, n), x), stk(b, o, m)}
  0 <= n && m == n + 1 && (forall i :: {b[i]} {a[i]} o <= i && i < o + n ==> b[i] == a[i]) && b[o + n] == x ==> stk(b, o, m) == push(stk(a, o, n), x)
axiom [stack] stk_drop: forall a: (Array Int Int), o, n, m, k :: {dropn(stk(a, o, n), k), stk(a, o, m)} 0 <= m && m == n - k && 0 <= k ==> stk(a, o, m) == dropn(stk(a, o, n), k)
axiom [stack] stk_has: forall a: (Array Int Int), o, n, i :: {stk(a, o, n), a[i]} 0 <= n && o <= i && i < o + n ==> has(stk(a, o, n), a[i])
axiom [stack] stk_has_ex: forall a: (Array Int Int), o, n, x :: {has(stk(a, o, n), x)} 0 <= n && has(stk(a, o, n), x) ==> (exists i :: o <= i && i < o + n && a[i] == x)

# ---- protected nodes: reachable from a node that the program holds (L), that is on the stack of the
# running operation (S), or from a constant
fun K(Tab, (Array Int Bool), Stk, Int) : Bool
fun pres(Tab, (Array Int Bool), Stk, Tab) : Bool
fun ext(Tab, Tab) : Bool

axiom k_in: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n)} K(T, L, S, n) ==> in(T, n)
axiom k_const: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n)} in(T, n) && n < 2 ==> K(T, L, S, n)
axiom k_held: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n)} in(T, n) && L[n] ==> K(T, L, S, n)
axiom k_stack: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n)} in(T, n) && has(S, n) ==> K(T, L, S, n)
axiom k_child: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n), lo(T, n)} {K(T, L, S, n), hi(T, n)}
  wf(T) && K(T, L, S, n) ==> K(T, L, S, lo(T, n)) && K(T, L, S, hi(T, n))
axiom k_push: forall T: Tab, L: (Array Int Bool), S: Stk, x, n :: {K(T, L, push(S, x), n)} K(T, L, S, n) ==> K(T, L, push(S, x), n)
axiom k_emp: forall T: Tab, L: (Array Int Bool), S: Stk, n :: {K(T, L, S, n), K(T, L, emp, n)} K(T, L, emp, n) ==> K(T, L, S, n)

axiom [chain] k_mono: forall T: Tab, L: (Array Int Bool), M: (Array Int Bool), S: Stk, n :: {K(T, L, S, n), K(T, M, S, n)} K(T, L, S, n) && (forall k :: {M[k]} L[k] ==> M[k]) ==> K(T, M, S, n)

axiom pres_refl: forall T: Tab, L: (Array Int Bool), S: Stk :: {pres(T, L, S, T)} pres(T, L, S, T)
axiom pres_trans: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab, V: Tab :: {pres(T, L, S, U), pres(U, L, S, V)} pres(T, L, S, U) && pres(U, L, S, V) ==> pres(T, L, S, V)
axiom [chain] pres_chain: forall T: Tab, L: (Array Int Bool), M: (Array Int Bool), S: Stk, U: Tab, V: Tab :: {pres(T, L, S, U), pres(U, M, S, V)}
  pres(T, L, S, U) && pres(U, M, S, V) && (forall k :: {M[k]} L[k] ==> M[k]) ==> pres(T, L, S, V)
axiom pres_pop: forall T: Tab, L: (Array Int Bool), S: Stk, x, U: Tab :: {pres(T, L, push(S, x), U)} pres(T, L, push(S, x), U) ==> pres(T, L, S, U)
axiom pres_emp: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab :: {pres(T, L, S, U)} pres(T, L, S, U) ==> pres(T, L, emp, U)
axiom pres_lev: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab :: {pres(T, L, S, U)} pres(T, L, S, U) ==> lev(U, 0) == lev(T, 0)
axiom pres_node: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab, n :: {pres(T, L, S, U), in(U, n)} {pres(T, L, S, U), g(U, n)} {pres(T, L, S, U), lev(U, n)} {pres(T, L, S, U), lo(U, n)} {pres(T, L, S, U), hi(U, n)} {pres(T, L, S, U), K(U, L, S, n)} {pres(T, L, S, U), K(T, L, S, n)}
  wf(T) && pres(T, L, S, U) && K(T, L, S, n) ==> in(U, n) && K(U, L, S, n) && g(U, n) == g(T, n) && lev(U, n) == lev(T, n) && lo(U, n) == lo(T, n) && hi(U, n) == hi(T, n)
axiom pres_stkok: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab :: {pres(T, L, S, U), stkok(U, S)} wf(T) && pres(T, L, S, U) && stkok(T, S) ==> stkok(U, S)

# ext(T, U): U extends T, every node of T is unchanged in U
axiom ext_refl: forall T: Tab :: {ext(T, T)} ext(T, T)
axiom ext_pres: forall T: Tab, U: Tab, L: (Array Int Bool), S: Stk :: {ext(T, U), pres(T, L, S, U)} wf(T) && ext(T, U) ==> pres(T, L, S, U)
axiom pres_ext: forall T: Tab, U: Tab, V: Tab, L: (Array Int Bool), S: Stk :: {pres(T, L, S, U), ext(U, V)} wf(T) && wf(U) && pres(T, L, S, U) && ext(U, V) ==> pres(T, L, S, V)
axiom ext_trans: forall T: Tab, U: Tab, V: Tab :: {ext(T, U), ext(U, V)} ext(T, U) && ext(U, V) ==> ext(T, V)
axiom ext_node: forall T: Tab, U: Tab, n :: {ext(T, U), in(T, n)} {ext(T, U), g(T, n)} wf(T) && ext(T, U) && in(T, n) ==> in(U, n) && g(U, n) == g(T, n) && lev(U, n) == lev(T, n) && lo(U, n) == lo(T, n) && hi(U, n) == hi(T, n)
axiom ext_lev: forall T: Tab, U: Tab :: {ext(T, U)} ext(T, U) ==> lev(U, 0) == lev(T, 0)

# introduction rules, used where the table itself changes
axiom [tabs] ext_intro: forall T: Tab, U: Tab :: {ext(T, U)} tsize(T) <= tsize(U) && lev(U, 0) == lev(T, 0)
  && (forall n :: {in(T, n)} in(T, n) ==> in(U, n) && lev(U, n) == lev(T, n) && lo(U, n) == lo(T, n) && hi(U, n) == hi(T, n)) ==> ext(T, U)

# reach(T, n, m): m can be reached from n
fun reach(Tab, Int, Int) : Bool
axiom reach_refl: forall T: Tab, n :: {reach(T, n, n)} reach(T, n, n)
axiom reach_child: forall T: Tab, n, m :: {reach(T, lo(T, n), m)} {reach(T, hi(T, n), m)}
  2 <= n && (reach(T, lo(T, n), m) || reach(T, hi(T, n), m)) ==> reach(T, n, m)
axiom [reach] reach_step: forall T: Tab, n, m :: {reach(T, n, m)} reach(T, n, m) ==> n == m || (2 <= n && (reach(T, lo(T, n), m) || reach(T, hi(T, n), m)))
axiom reach_in: forall T: Tab, n, m :: {reach(T, n, m)} wf(T) && in(T, n) && reach(T, n, m) ==> in(T, m)
axiom k_reach: forall T: Tab, L: (Array Int Bool), S: Stk, n, m :: {K(T, L, S, n), reach(T, n, m)} wf(T) && K(T, L, S, n) && reach(T, n, m) ==> K(T, L, S, m)

# A holds the marks left by a traversal from the roots L and S: it contains everything protected
fun marked(Tab, (Array Int Bool), Stk, (Array Int Int)) : Bool
axiom [gc] marked_intro: forall T: Tab, L: (Array Int Bool), S: Stk, A: (Array Int Int) :: {marked(T, L, S, A)}
  (forall n :: {lo(T, n), A[n]} in(T, n) && 2 <= n && A[n] >= 2097152 ==> lo(T, n) < 2 || A[lo(T, n)] >= 2097152)
  && (forall n :: {hi(T, n), A[n]} in(T, n) && 2 <= n && A[n] >= 2097152 ==> hi(T, n) < 2 || A[hi(T, n)] >= 2097152)
  && (forall n :: {in(T, n)} in(T, n) && 2 <= n && L[n] ==> A[n] >= 2097152)
  && (forall n :: {has(S, n)} in(T, n) && 2 <= n && has(S, n) ==> A[n] >= 2097152) ==> marked(T, L, S, A)
axiom [gc] marked_k: forall T: Tab, L: (Array Int Bool), S: Stk, A: (Array Int Int), n :: {marked(T, L, S, A), K(T, L, S, n)}
  wf(T) && marked(T, L, S, A) && K(T, L, S, n) && 2 <= n ==> A[n] >= 2097152
axiom [gc] pres_intro: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab :: {pres(T, L, S, U)}
  wf(T) && lev(U, 0) == lev(T, 0) && (forall n :: {K(T, L, S, n)} K(T, L, S, n) ==> in(U, n) && lev(U, n) == lev(T, n) && lo(U, n) == lo(T, n) && hi(U, n) == hi(T, n)) ==> pres(T, L, S, U)

# ---- quantification. vs(T, n): the variables found when following the high branches from n
fun vs(Tab, Int) : (Array Int Bool)
axiom vs_const: forall T: Tab, n, k :: {vs(T, n)[k]} n < 2 ==> !vs(T, n)[k]
axiom vs_node: forall T: Tab, n, k :: {vs(T, n)[k], hi(T, n)} wf(T) && in(T, n) && 2 <= n ==> (vs(T, n)[k] <==> (k == lev(T, n) || vs(T, hi(T, n))[k]))
axiom vs_range: forall T: Tab, n, k :: {vs(T, n)[k]} wf(T) && in(T, n) && vs(T, n)[k] ==> lev(T, n) <= k && k < lev(T, 0)
axiom vs_ext: forall T: Tab, U: Tab, n :: {ext(T, U), vs(T, n)} {ext(T, U), vs(U, n)} wf(T) && ext(T, U) && in(T, n) ==> vs(U, n) == vs(T, n)
axiom vs_pres: forall T: Tab, L: (Array Int Bool), S: Stk, U: Tab, n :: {pres(T, L, S, U), vs(U, n)} {pres(T, L, S, U), vs(T, n)} wf(T) && pres(T, L, S, U) && K(T, L, S, n) ==> vs(U, n) == vs(T, n)

axiom ex_f0: forall v: (Array Int Bool) :: {EX(v, F0)} EX(v, F0) == F0
axiom ex_f1: forall v: (Array Int Bool) :: {EX(v, F1)} EX(v, F1) == F1
axiom ex_mk: forall v: (Array Int Bool), l, a: Fn, b: Fn :: {EX(v, mk(l, a, b))} ib(a, l + 1) && ib(b, l + 1) ==>
  EX(v, mk(l, a, b)) == (if v[l] then AP(2, EX(v, a), EX(v, b)) else mk(l, EX(v, a), EX(v, b)))
# no quantified variable at or below the level l
axiom ex_none: forall v: (Array Int Bool), f: Fn, l :: {EX(v, f), ib(f, l)} ib(f, l) && (forall k :: {v[k]} v[k] ==> k < l) ==> EX(v, f) == f

# ---- substitution of variables by variables: m[v] takes the place of v
fun COR(Int, Fn, Fn) : Fn
fun injS((Array Int Int), Fn) : Bool
axiom cor_def: forall l, a: Fn, b: Fn :: {COR(l, a, b)} COR(l, a, b) == mk(l, a, b)
axiom cor_both: forall l, m, a: Fn, b: Fn, c: Fn, d: Fn :: {COR(l, mk(m, a, b), mk(m, c, d))} l != m ==> COR(l, mk(m, a, b), mk(m, c, d)) == mk(m, COR(l, a, c), COR(l, b, d))
axiom cor_left: forall l, m, a: Fn, b: Fn, h: Fn :: {COR(l, mk(m, a, b), h)} l != m ==> COR(l, mk(m, a, b), h) == mk(m, COR(l, a, h), COR(l, b, h))
axiom cor_right: forall l, m, a: Fn, b: Fn, h: Fn :: {COR(l, h, mk(m, a, b))} l != m ==> COR(l, h, mk(m, a, b)) == mk(m, COR(l, h, a), COR(l, h, b))
axiom ib_cor: forall m, a: Fn, b: Fn, l :: {ib(COR(m, a, b), l)} l <= m && ib(a, l) && ib(b, l) ==> ib(COR(m, a, b), l)
axiom subst_mk: forall m: (Array Int Int), l, a: Fn, b: Fn :: {SUBST(m, mk(l, a, b))} SUBST(m, mk(l, a, b)) == COR(m[l], SUBST(m, a), SUBST(m, b))
axiom subst_id: forall m: (Array Int Int), f: Fn, l :: {SUBST(m, f), ib(f, l)} ib(f, l) && (forall k :: {m[k]} l <= k ==> m[k] == k) ==> SUBST(m, f) == f
axiom dep_lev: forall T: Tab, n :: {dep(g(T, n), lev(T, n))} wf(T) && in(T, n) && 2 <= n ==> dep(g(T, n), lev(T, n))
axiom dep_mk: forall l, a: Fn, b: Fn, k :: {dep(mk(l, a, b), k)} ib(a, l + 1) && ib(b, l + 1) && k != l && (dep(a, k) || dep(b, k)) ==> dep(mk(l, a, b), k)
axiom inj_mk: forall m: (Array Int Int), l, a: Fn, b: Fn :: {injS(m, mk(l, a, b))} ib(a, l + 1) && ib(b, l + 1) && injS(m, mk(l, a, b)) ==> injS(m, a) && injS(m, b)
# the image of a variable that f depends on cannot be met below when the substitution is injective on the support
axiom inj_dep: forall m: (Array Int Int), l, a: Fn, b: Fn :: {injS(m, mk(l, a, b)), dep(SUBST(m, a), m[l])} {injS(m, mk(l, a, b)), dep(SUBST(m, b), m[l])}
  ib(a, l + 1) && ib(b, l + 1) && a != b && injS(m, mk(l, a, b)) ==> !dep(SUBST(m, a), m[l]) && !dep(SUBST(m, b), m[l])

lemma ex_none_node: forall v: (Array Int Bool), T: Tab, n :: {EX(v, g(T, n))} wf(T) && in(T, n) && (forall k :: {v[k]} v[k] ==> k < lev(T, n)) && ib(g(T, n), lev(T, n)) ==> EX(v, g(T, n)) == g(T, n)
lemma subst_id_node: forall m: (Array Int Int), T: Tab, n :: {SUBST(m, g(T, n))} wf(T) && in(T, n) && (forall k :: {m[k]} lev(T, n) <= k ==> m[k] == k) && ib(g(T, n), lev(T, n)) ==> SUBST(m, g(T, n)) == g(T, n)
lemma ex_none_ap: forall v: (Array Int Bool), op, T: Tab, n, m :: {EX(v, AP(op, g(T, n), g(T, m)))} wf(T) && in(T, n) && in(T, m) && (forall k :: {v[k]} v[k] ==> k < min(lev(T, n), lev(T, m)))
  && ib(AP(op, g(T, n), g(T, m)), min(lev(T, n), lev(T, m))) ==> EX(v, AP(op, g(T, n), g(T, m))) == AP(op, g(T, n), g(T, m))
lemma ex_ap_mk: forall v: (Array Int Bool), op, l, a: Fn, b: Fn, c: Fn, d: Fn :: {EX(v, AP(op, mk(l, a, b), mk(l, c, d)))} ib(a, l + 1) && ib(b, l + 1) && ib(c, l + 1) && ib(d, l + 1) ==>
  EX(v, AP(op, mk(l, a, b), mk(l, c, d))) == (if v[l] then AP(2, EX(v, AP(op, a, c)), EX(v, AP(op, b, d))) else mk(l, EX(v, AP(op, a, c)), EX(v, AP(op, b, d))))
