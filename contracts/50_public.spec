# The operations that users call.

func (*BDD).checkptr(b, n) r
  reveal TS
  requires INV(b)
  modifies $rd, b.error
  ensures INV(b)
  ensures [C14] r == nil <==> n != nil && in(b.@T, *n)
  ensures tsize(b.@T) <= 2147483648
  ensures if r == nil then b.error == old(b.error) else b.error != nil

# what every operation does
clauses op
  requires INV(b)
  modifies $opmods, b.@L, b.@clash
  ensures INV(b)
  ensures [C11] pres(old(b.@T), old(b.@L), emp, b.@T)
  ensures [C11] forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures r != nil ==> in(b.@T, *r) && (*r < 2 || b.@L[*r])
  ensures [C14] r == nil ==> b.error != nil

func (*BDD).Not(b, n) r
  use op
  ensures r != nil ==> n != nil && in(old(b.@T), *n) && g(b.@T, *r) == NOT(g(old(b.@T), *n))
  ensures [C14] n == nil || !in(old(b.@T), *n) ==> r == nil
  ensures [C15] r == nil && n != nil && in(old(b.@T), *n) ==> limited(b.tables)

func (*BDD).Apply(b, n1, n2, op) r
  use op
  modifies b.applycache.op
  ensures r != nil ==> 0 <= op && op < 10 && n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && g(b.@T, *r) == AP(op, g(old(b.@T), *n1), g(old(b.@T), *n2))
  ensures [C14] n1 == nil || n2 == nil || !in(old(b.@T), *n1) || !in(old(b.@T), *n2) || op < 0 || 10 <= op ==> r == nil
  ensures [C15] r == nil && n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && 0 <= op && op < 10 ==> limited(b.tables)

func (*BDD).Ite(b, f, h, k) r
  use op
  ensures r != nil ==> f != nil && in(old(b.@T), *f) && h != nil && in(old(b.@T), *h) && k != nil && in(old(b.@T), *k) && g(b.@T, *r) == ITE(g(old(b.@T), *f), g(old(b.@T), *h), g(old(b.@T), *k))
  ensures [C14] f == nil || h == nil || k == nil || !in(old(b.@T), *f) || !in(old(b.@T), *h) || !in(old(b.@T), *k) ==> r == nil
  ensures [C15] r == nil && f != nil && in(old(b.@T), *f) && h != nil && in(old(b.@T), *h) && k != nil && in(old(b.@T), *k) ==> limited(b.tables)

modset qmods: b.quantsetID, b.quantset, elems(b.quantset), b.quantlast, b.applycache.op, b.quantcache.id
func (*BDD).Exist(b, n, varset) r
  use op
  requires n != nil && in(b.@T, *n) ==> *n < 2 || b.@L[*n]
  modifies $qmods
  ensures r != nil ==> n != nil && in(old(b.@T), *n) && varset != nil && in(old(b.@T), *varset) && g(b.@T, *r) == EX(vs(old(b.@T), *varset), g(old(b.@T), *n))
  ensures [C14] n == nil || varset == nil || !in(old(b.@T), *n) || !in(old(b.@T), *varset) ==> r == nil
  ensures [C15] r == nil && n != nil && in(old(b.@T), *n) && varset != nil && in(old(b.@T), *varset) ==> limited(b.tables)

func (*BDD).AppEx(b, n1, n2, op, varset) r
  use op
  modifies $qmods, b.appexcache.op, b.appexcache.id
  ensures r != nil ==> n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && varset != nil && in(old(b.@T), *varset) && 0 <= op && op <= 3
     && g(b.@T, *r) == EX(vs(old(b.@T), *varset), AP(op, g(old(b.@T), *n1), g(old(b.@T), *n2)))
  ensures [C14] n1 == nil || n2 == nil || varset == nil || !in(old(b.@T), *n1) || !in(old(b.@T), *n2) || !in(old(b.@T), *varset) || op < 0 || 3 < op ==> r == nil
  ensures [C15] r == nil && n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && varset != nil && in(old(b.@T), *varset) && 0 <= op && op <= 3 ==> limited(b.tables)

func (*BDD).AndExist(b, n1, n2, varset) r
  use op
  modifies $qmods, b.appexcache.op, b.appexcache.id
  ensures r != nil ==> n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && varset != nil && in(old(b.@T), *varset)
     && g(b.@T, *r) == EX(vs(old(b.@T), *varset), AP(0, g(old(b.@T), *n1), g(old(b.@T), *n2)))
  ensures [C14] n1 == nil || n2 == nil || varset == nil || !in(old(b.@T), *n1) || !in(old(b.@T), *n2) || !in(old(b.@T), *varset) ==> r == nil
  ensures [C15] r == nil && n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && varset != nil && in(old(b.@T), *varset) ==> limited(b.tables)

func (*BDD).Imp(b, n1, n2) r
  use op
  modifies b.applycache.op
  ensures r != nil ==> n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && g(b.@T, *r) == AP(5, g(old(b.@T), *n1), g(old(b.@T), *n2))
  ensures [C14] n1 == nil || n2 == nil || !in(old(b.@T), *n1) || !in(old(b.@T), *n2) ==> r == nil
func (*BDD).Equiv(b, n1, n2) r
  use op
  modifies b.applycache.op
  ensures r != nil ==> n1 != nil && in(old(b.@T), *n1) && n2 != nil && in(old(b.@T), *n2) && g(b.@T, *r) == AP(6, g(old(b.@T), *n1), g(old(b.@T), *n2))
  ensures [C14] n1 == nil || n2 == nil || !in(old(b.@T), *n1) || !in(old(b.@T), *n2) ==> r == nil

func (*BDD).Replace(b, n, r) res
  requires INV(b) && RP(b, r)
  modifies $opmods, b.@L, b.@clash, b.replacecache.id
  ensures INV(b)
  ensures [C11] pres(old(b.@T), old(b.@L), emp, b.@T)
  ensures [C11] forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures res != nil ==> in(b.@T, *res) && (*res < 2 || b.@L[*res])
  ensures res != nil ==> n != nil && in(old(b.@T), *n) && g(b.@T, *res) == SUBST(@img[rid(r)], g(old(b.@T), *n))
  ensures [C14] res == nil ==> b.error != nil
  ensures [C14] n == nil || !in(old(b.@T), *n) ==> res == nil
  ensures [C15] res == nil && n != nil && in(old(b.@T), *n) ==> limited(b.tables) || !injS(@img[rid(r)], g(old(b.@T), *n))

# two nodes are Equal exactly when they denote the same function
func (*BDD).Equal(b, n1, n2) r
  groups canon
  requires INV(b)
  ensures n1 != nil && n2 != nil && in(b.@T, *n1) && in(b.@T, *n2) ==> (r <==> g(b.@T, *n1) == g(b.@T, *n2))
  ensures n1 == nil && n2 == nil ==> r
  ensures (n1 == nil || n2 == nil) && n1 != n2 ==> !r

func (*BDD).Label(b, n) r
  requires INV(b)
  modifies $rd, b.error
  ensures INV(b)
  ensures n != nil && in(b.@T, *n) && 2 <= *n ==> r == lev(b.@T, *n) && b.error == old(b.error)
  ensures [C14] !(n != nil && in(b.@T, *n) && 2 <= *n) ==> r == -1 && b.error != nil

func (*BDD).Low(b, n) r
  reveal wf
  requires INV(b)
  modifies $rd, b.error, b.@L, @r0, @c0
  ensures INV(b)
  ensures forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures r != nil <==> n != nil && in(b.@T, *n)
  ensures r != nil ==> *r == lo(b.@T, *n) && in(b.@T, *r) && (*r < 2 || b.@L[*r])
  ensures [C14] r == nil ==> b.error != nil
func (*BDD).High(b, n) r
  reveal wf
  requires INV(b)
  modifies $rd, b.error, b.@L, @r0, @c0
  ensures INV(b)
  ensures forall k :: {b.@L[k]} old(b.@L)[k] ==> b.@L[k]
  ensures r != nil <==> n != nil && in(b.@T, *n)
  ensures r != nil ==> *r == hi(b.@T, *n) && in(b.@T, *r) && (*r < 2 || b.@L[*r])
  ensures [C14] r == nil ==> b.error != nil

func (*BDD).Ithvar(b, i) r
  reveal VA
  requires INV(b)
  modifies b.error
  ensures INV(b)
  ensures r != nil <==> 0 <= i && i < b.varnum
  ensures r != nil ==> in(b.@T, *r) && g(b.@T, *r) == VAR(i) && b.@L[*r]
  ensures [C14] r == nil ==> b.error != nil
func (*BDD).NIthvar(b, i) r
  reveal VA
  requires INV(b)
  modifies b.error
  ensures INV(b)
  ensures r != nil <==> 0 <= i && i < b.varnum
  ensures r != nil ==> in(b.@T, *r) && g(b.@T, *r) == NVAR(i) && b.@L[*r]
  ensures [C14] r == nil ==> b.error != nil

func (*BDD).True(b) r
  ensures r == bddone && *r == 1
func (*BDD).False(b) r
  ensures r == bddzero && *r == 0
func (*BDD).From(b, v) r
  ensures r == (if v then bddone else bddzero) && *r == (if v then 1 else 0)
func (*BDD).Varnum(b) r
  ensures r == b.varnum

# the conjunction (op 0) or disjunction (op 2) of the nodes V[0..n)
fun BIG(Int, Tab, (Array Int Int), Int) : Fn
axiom big_zero: forall op, T: Tab, V: (Array Int Int), n :: {BIG(op, T, V, n)} n <= 0 ==> BIG(op, T, V, n) == (if op == 0 then F1 else F0)
axiom big_one: forall op, T: Tab, V: (Array Int Int), n :: {BIG(op, T, V, n)} n == 1 && (op == 0 || op == 2) ==> BIG(op, T, V, n) == g(T, V[0])
axiom big_cons: forall op, T: Tab, V: (Array Int Int), n, W: (Array Int Int), m :: {BIG(op, T, V, n), BIG(op, T, W, m)}
  n >= 1 && m == n - 1 && (forall k :: {W[k]} 0 <= k && k < m ==> W[k] == V[k + 1]) ==> BIG(op, T, V, n) == AP(op, g(T, V[0]), BIG(op, T, W, m))

clauses bigop
  use op
  groups chain
  requires forall k :: {n[k]} 0 <= k && k < len(n) && n[k] != nil && in(b.@T, *n[k]) ==> *n[k] < 2 || b.@L[*n[k]]
  modifies b.applycache.op
  ensures [C14] r != nil ==> (forall k :: {n[k]} 0 <= k && k < len(n) ==> n[k] != nil && 0 <= *n[k])
  ensures [C14] r != nil && len(n) > 0 ==> in(old(b.@T), *n[len(n) - 1])
  decreases len(n)
func (*BDD).And(b, n) r
  use bigop
  ensures r != nil && (forall k :: {n[k]} 0 <= k && k < len(n) ==> in(old(b.@T), *n[k])) ==> g(b.@T, *r) == BIG(0, old(b.@T), old(lambda k :: *n[k]), len(n))
func (*BDD).Or(b, n) r
  use bigop
  ensures r != nil && (forall k :: {n[k]} 0 <= k && k < len(n) ==> in(old(b.@T), *n[k])) ==> g(b.@T, *r) == BIG(2, old(b.@T), old(lambda k :: *n[k]), len(n))
