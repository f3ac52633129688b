# The operations of the package, above the node table.

# ---- operation caches: what an entry asserts, for tables of n entries with the fields a, b, c and res
opaque CA(n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab) =
  n >= 1 && (forall i :: {a[i]} 0 <= i && i < n && a[i] >= 0 && r[i] >= 0 ==>
    (c[i] == 10 ==> in(T, a[i]) && in(T, r[i]) && g(T, r[i]) == NOT(g(T, a[i])))
    && (0 <= c[i] && c[i] < 10 ==> in(T, a[i]) && in(T, b[i]) && in(T, r[i]) && g(T, r[i]) == AP(c[i], g(T, a[i]), g(T, b[i]))))
opaque CI(n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab) =
  n >= 1 && (forall i :: {a[i]} 0 <= i && i < n && a[i] >= 0 && r[i] >= 0 ==>
    in(T, a[i]) && in(T, b[i]) && in(T, c[i]) && in(T, r[i]) && g(T, r[i]) == ITE(g(T, a[i]), g(T, b[i]), g(T, c[i])))
opaque CQ(n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab) =
  n >= 1 && (forall i :: {a[i]} 0 <= i && i < n && a[i] >= 0 && r[i] >= 0 ==>
    in(T, a[i]) && in(T, b[i]) && in(T, r[i]) && g(T, r[i]) == EX(vs(T, b[i]), g(T, a[i])))
opaque CX(n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab) =
  n >= 1 && (forall i :: {a[i]} 0 <= i && i < n && a[i] >= 0 && r[i] >= 0 && c[i] >= 0 ==>
    in(T, a[i]) && in(T, b[i]) && in(T, r[i]) && in(T, c[i] / 4) && g(T, r[i]) == EX(vs(T, c[i] / 4), AP(c[i] % 4, g(T, a[i]), g(T, b[i]))))
# @img: the substitution that each identifier of a Replacer stands for
opaque CR(n, a: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, m: (Array Int (Array Int Int)), z) =
  n >= 1 && (forall i :: {a[i]} 0 <= i && i < n && a[i] >= 0 && r[i] >= 0 ==>
    c[i] < z && in(T, a[i]) && in(T, r[i]) && g(T, r[i]) == SUBST(m[c[i]], g(T, a[i])))
ghostfield glob.@img : (Array Int (Array Int Int))

lemma (reveal CA) ca_ext: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, U: Tab :: {CA(n, a, b, c, r, T), ext(T, U)}
  wf(T) && CA(n, a, b, c, r, T) && ext(T, U) ==> CA(n, a, b, c, r, U)
lemma (reveal CI) ci_ext: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, U: Tab :: {CI(n, a, b, c, r, T), ext(T, U)}
  wf(T) && CI(n, a, b, c, r, T) && ext(T, U) ==> CI(n, a, b, c, r, U)
lemma (reveal CQ) cq_ext: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, U: Tab :: {CQ(n, a, b, c, r, T), ext(T, U)}
  wf(T) && CQ(n, a, b, c, r, T) && ext(T, U) ==> CQ(n, a, b, c, r, U)
lemma (reveal CX) cx_ext: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, U: Tab :: {CX(n, a, b, c, r, T), ext(T, U)}
  wf(T) && CX(n, a, b, c, r, T) && ext(T, U) ==> CX(n, a, b, c, r, U)
lemma (reveal CR) cr_ext: forall n, a: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, U: Tab, m: (Array Int (Array Int Int)), z :: {CR(n, a, c, r, T, m, z), ext(T, U)}
  wf(T) && CR(n, a, c, r, T, m, z) && ext(T, U) ==> CR(n, a, c, r, U, m, z)

lemma (reveal CA) ca_len: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab :: {CA(n, a, b, c, r, T)} CA(n, a, b, c, r, T) ==> n >= 1
lemma (reveal CI) ci_len: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab :: {CI(n, a, b, c, r, T)} CI(n, a, b, c, r, T) ==> n >= 1
lemma (reveal CQ) cq_len: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab :: {CQ(n, a, b, c, r, T)} CQ(n, a, b, c, r, T) ==> n >= 1
lemma (reveal CX) cx_len: forall n, a: (Array Int Int), b: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab :: {CX(n, a, b, c, r, T)} CX(n, a, b, c, r, T) ==> n >= 1
lemma (reveal CR) cr_len: forall n, a: (Array Int Int), c: (Array Int Int), r: (Array Int Int), T: Tab, m: (Array Int (Array Int Int)), z :: {CR(n, a, c, r, T, m, z)} CR(n, a, c, r, T, m, z) ==> n >= 1

def vCA(b: BDD, T: Tab) = CA(len(b.applycache.table), elems(b.applycache.table, a), elems(b.applycache.table, b), elems(b.applycache.table, c), elems(b.applycache.table, res), T)
def vCI(b: BDD, T: Tab) = CI(len(b.itecache.table), elems(b.itecache.table, a), elems(b.itecache.table, b), elems(b.itecache.table, c), elems(b.itecache.table, res), T)
def vCQ(b: BDD, T: Tab) = CQ(len(b.quantcache.table), elems(b.quantcache.table, a), elems(b.quantcache.table, b), elems(b.quantcache.table, c), elems(b.quantcache.table, res), T)
def vCX(b: BDD, T: Tab) = CX(len(b.appexcache.table), elems(b.appexcache.table, a), elems(b.appexcache.table, b), elems(b.appexcache.table, c), elems(b.appexcache.table, res), T)
def vCR(b: BDD, T: Tab) = CR(len(b.replacecache.table), elems(b.replacecache.table, a), elems(b.replacecache.table, c), elems(b.replacecache.table, res), T, @img, 4 * _REPLACEID)
def caches(b: BDD, T: Tab) = vCA(b, T) && vCI(b, T) && vCQ(b, T) && vCX(b, T) && vCR(b, T)

# the parts of a BDD exist and do not overlap
def ST(b: BDD) = b.tables != nil && b.applycache != nil && b.itecache != nil && b.quantcache != nil && b.appexcache != nil && b.replacecache != nil
  && arr(b.applycache.table) != arr(b.itecache.table) && arr(b.applycache.table) != arr(b.quantcache.table) && arr(b.applycache.table) != arr(b.appexcache.table)
  && arr(b.itecache.table) != arr(b.quantcache.table) && arr(b.itecache.table) != arr(b.appexcache.table) && arr(b.quantcache.table) != arr(b.appexcache.table)
  && b.applycache.ratio <= 1000000 && b.itecache.ratio <= 1000000 && b.quantcache.ratio <= 1000000
  && b.appexcache.ratio <= 1000000 && b.replacecache.ratio <= 1000000

# the variables have their nodes, for ever
opaque VA(n, p: (Array Int Int), q: (Array Int Int), T: Tab, L: (Array Int Bool)) =
  n == lev(T, 0)
  && (forall i :: {p[i]} 0 <= i && i < n ==> in(T, p[i]) && L[p[i]] && g(T, p[i]) == VAR(i))
  && (forall i :: {q[i]} 0 <= i && i < n ==> in(T, q[i]) && L[q[i]] && g(T, q[i]) == NVAR(i))
lemma (reveal VA) va_pres: forall n, p: (Array Int Int), q: (Array Int Int), T: Tab, L: (Array Int Bool), S: Stk, U: Tab :: {VA(n, p, q, T, L), pres(T, L, S, U)}
  wf(T) && VA(n, p, q, T, L) && pres(T, L, S, U) ==> VA(n, p, q, U, L)
lemma (reveal VA) va_lev: forall n, p: (Array Int Int), q: (Array Int Int), T: Tab, L: (Array Int Bool) :: {VA(n, p, q, T, L)} VA(n, p, q, T, L) ==> n == lev(T, 0)
lemma (reveal VA) va_hold: forall n, p: (Array Int Int), q: (Array Int Int), T: Tab, L: (Array Int Bool), M: (Array Int Bool) :: {VA(n, p, q, T, L), VA(n, p, q, T, M)}
  VA(n, p, q, T, L) && (forall k :: {M[k]} L[k] ==> M[k]) ==> VA(n, p, q, T, M)
def vVA(b: BDD) = VA(b.varnum, elemsA(b.varset, 0), elemsA(b.varset, 1), b.@T, b.@L) && len(b.varset) == b.varnum

# an operation that gave up has set the error
ghostfield BDD.@clash : Bool
def FE(b: BDD) = b.failed ==> b.error != nil && (limited(b.tables) || b.@clash)

def SK(b: BDD): Stk = SS(elems(b.refstack), len(b.refstack))
# the marks of the last set of variables of a quantification
opaque QI(n, q: (Array Int Int), id) = 0 <= id && id < 2147483647 && (forall k :: {q[k]} 0 <= k && k < n ==> q[k] <= id)
def vQI(b: BDD) = len(b.quantset) == b.varnum && QI(b.varnum, elems(b.quantset), b.quantsetID)
def INV(b: BDD) = ST(b) && TI(b.tables) && RI(b.tables) && b.@pub && vVA(b) && vQI(b) && caches(b, b.@T) && FE(b)
modset rd: elems(b.nodes, refcou), b.@cnt, b.@mode
modset mkmods: $nodemods, $uniq, b.nodes, b.freenum, b.freepos, b.@T, b.history, elems(b.history), b.setfinalizers, b.calledfinalizers, b.@rk, b.@ri, @P, b.produced, b.@marking, b.error, b.failed, b.applycache.table, b.itecache.table, b.quantcache.table, b.appexcache.table, b.replacecache.table, elems(b.applycache.table), elems(b.itecache.table), elems(b.quantcache.table), elems(b.appexcache.table), elems(b.replacecache.table)
modset opmods: $mkmods, b.refstack, elems(b.refstack)

# ---- primes and hash functions
fun prime(Int) : Bool
fun nxt(Int) : Int
axiom prime_ge: forall p :: {prime(p)} prime(p) ==> p >= 2
axiom nxt_prime: forall s :: {nxt(s)} prime(nxt(s)) && nxt(s) % 2 == 1 && nxt(s) >= s && nxt(s) >= 3 && nxt(s) <= (if s >= 3 then 2 * s else 3)
  && (nxt(s) == 3 || nxt(s) % 3 != 0) && (nxt(s) == 5 || nxt(s) % 5 != 0) && (nxt(s) == 7 || nxt(s) % 7 != 0) && (nxt(s) == 11 || nxt(s) % 11 != 0) && (nxt(s) == 13 || nxt(s) % 13 != 0)
axiom nxt_min: forall s, p :: {nxt(s), prime(p)} prime(p) && p >= s && p >= 3 ==> nxt(s) <= p
axiom prime_big: prime(2147483629)
ghostfield big.Int.@val : Int
extern big.NewInt(x) r
  ensures r != nil && fresh(r) && r.@val == x
extern (*big.Int).ProbablyPrime(x, n) r
  ensures x.@val < 18446744073709551616 ==> r == prime(x.@val)

func primeGte(s) r
  requires -1152921504606846976 <= s && s <= 1152921504606846976
  loop 1
    invariant pre(src) <= src && src <= nxt(pre(src)) && src % 2 != 0
    invariant pre(src) == (if s % 2 == 0 then s + 1 else s)
    decreases nxt(pre(src)) - src
  ensures r >= 2 && r >= s && r % 2 == 1 && r <= (if s >= 2 then 2 * s + 2 else 3)
  ensures s <= 2147483629 ==> r <= 2147483629

func _PAIR(a, b, len) r
  pure
  requires len >= 1
  ensures 0 <= r && r < len

# ---- operation caches
func (*applycache).matchapply(bc, left, right) r
  reveal CA
  requires len(bc.table) >= 1
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab :: {CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)}
    CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T) && r >= 0 && left >= 0 && 0 <= bc.op && bc.op < 10 ==>
      in(T, r) && g(T, r) == AP(bc.op, g(T, left), g(T, right))

func (*applycache).setapply(bc, left, right, res) r
  reveal CA
  requires len(bc.table) >= 1
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab :: {CA(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)}
    CA(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)
      && (left >= 0 && res >= 0 ==> 0 <= bc.op && bc.op < 10 && in(T, left) && in(T, right) && in(T, res) && g(T, res) == AP(bc.op, g(T, left), g(T, right)))
    ==> CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)

func (*applycache).matchnot(bc, n) r
  reveal CA
  requires len(bc.table) >= 1 && n >= 0
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab :: {CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)}
    CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T) && r >= 0 ==>
      in(T, r) && g(T, r) == NOT(g(T, n))

func (*applycache).setnot(bc, n, res) r
  reveal CA
  requires len(bc.table) >= 1 && n >= 0
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab :: {CA(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)}
    CA(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)
      && (res >= 0 ==> in(T, n) && in(T, res) && g(T, res) == NOT(g(T, n)))
    ==> CA(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)

func (*itecache).matchite(bc, f, g1, h) r
  reveal CI
  requires len(bc.table) >= 1
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab :: {CI(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)}
    CI(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T) && r >= 0 && f >= 0 ==>
      in(T, r) && g(T, r) == ITE(g(T, f), g(T, g1), g(T, h))

func (*itecache).setite(bc, f, g1, h, res) r
  reveal CI
  requires len(bc.table) >= 1
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab :: {CI(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)}
    CI(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)
      && (f >= 0 && res >= 0 ==> in(T, f) && in(T, g1) && in(T, h) && in(T, res) && g(T, res) == ITE(g(T, f), g(T, g1), g(T, h)))
    ==> CI(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)

func (*quantcache).matchquant(bc, n, varset) r
  reveal CQ
  requires len(bc.table) >= 1
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab :: {CQ(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)}
    CQ(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T) && r >= 0 && n >= 0 ==>
      in(T, r) && g(T, r) == EX(vs(T, varset), g(T, n))

func (*quantcache).setquant(bc, n, varset, res) r
  reveal CQ
  requires len(bc.table) >= 1
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab :: {CQ(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)}
    CQ(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)
      && (n >= 0 && res >= 0 ==> in(T, n) && in(T, varset) && in(T, res) && g(T, res) == EX(vs(T, varset), g(T, n)))
    ==> CQ(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)

func (*appexcache).matchappex(bc, left, right) r
  reveal CX
  requires len(bc.table) >= 1
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab :: {CX(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)}
    CX(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T) && r >= 0 && left >= 0 && bc.id >= 0 ==>
      in(T, r) && g(T, r) == EX(vs(T, bc.id / 4), AP(bc.id % 4, g(T, left), g(T, right)))

func (*appexcache).setappex(bc, left, right, res) r
  reveal CX
  requires len(bc.table) >= 1
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab :: {CX(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)}
    CX(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, b)), old(elems(bc.table, c)), old(elems(bc.table, res)), T)
      && (left >= 0 && res >= 0 && bc.id >= 0 ==> in(T, left) && in(T, right) && in(T, res) && in(T, bc.id / 4) && g(T, res) == EX(vs(T, bc.id / 4), AP(bc.id % 4, g(T, left), g(T, right))))
    ==> CX(len(bc.table), elems(bc.table, a), elems(bc.table, b), elems(bc.table, c), elems(bc.table, res), T)

func (*replacecache).matchreplace(bc, n) r
  reveal CR
  requires len(bc.table) >= 1 && n >= 0
  modifies bc.opHit, bc.opMiss
  ensures forall T: Tab, m: (Array Int (Array Int Int)), z :: {CR(len(bc.table), elems(bc.table, a), elems(bc.table, c), elems(bc.table, res), T, m, z)}
    CR(len(bc.table), elems(bc.table, a), elems(bc.table, c), elems(bc.table, res), T, m, z) && r >= 0 ==>
      in(T, r) && g(T, r) == SUBST(m[bc.id], g(T, n))

func (*replacecache).setreplace(bc, n, res) r
  reveal CR
  requires len(bc.table) >= 1 && n >= 0
  modifies elems(bc.table)
  ensures r == res
  ensures forall T: Tab, m: (Array Int (Array Int Int)), z :: {CR(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, c)), old(elems(bc.table, res)), T, m, z)}
    CR(len(bc.table), old(elems(bc.table, a)), old(elems(bc.table, c)), old(elems(bc.table, res)), T, m, z)
      && (res >= 0 ==> bc.id < z && in(T, n) && in(T, res) && g(T, res) == SUBST(m[bc.id], g(T, n)))
    ==> CR(len(bc.table), elems(bc.table, a), elems(bc.table, c), elems(bc.table, res), T, m, z)

def allm(a: (Array Int Int), n) = n >= 1 && (forall i :: {a[i]} 0 <= i && i < n ==> a[i] == -1)
func (*data4ncache).reset(bc)
  modifies elems(bc.table, a)
  loop 1
    invariant forall i :: {bc.table[i].a} 0 <= i && i < $i ==> bc.table[i].a == -1
  ensures len(bc.table) >= 1 ==> allm(elems(bc.table, a), len(bc.table))
func (*data3ncache).reset(bc)
  modifies elems(bc.table, a)
  loop 1
    invariant forall i :: {bc.table[i].a} 0 <= i && i < $i ==> bc.table[i].a == -1
  ensures len(bc.table) >= 1 ==> allm(elems(bc.table, a), len(bc.table))
func (*data4ncache).init(bc, size, ratio)
  requires -4294967296 <= size && size <= 4294967296
  modifies bc.table, bc.ratio
  ensures allm(elems(bc.table, a), len(bc.table))
  ensures fresh(arr(bc.table)) && bc.ratio == ratio && len(bc.table) >= size
func (*data3ncache).init(bc, size, ratio)
  requires -4294967296 <= size && size <= 4294967296
  modifies bc.table, bc.ratio
  ensures allm(elems(bc.table, a), len(bc.table))
  ensures fresh(arr(bc.table)) && bc.ratio == ratio && len(bc.table) >= size
func (*data4ncache).resize(bc, size)
  requires 0 <= size && size <= 2147483648 && bc.ratio <= 1000000 && len(bc.table) >= 1
  modifies bc.table, elems(bc.table)
  ensures allm(elems(bc.table, a), len(bc.table))
  ensures bc.table == old(bc.table) || fresh(arr(bc.table))
func (*data3ncache).resize(bc, size)
  requires 0 <= size && size <= 2147483648 && bc.ratio <= 1000000 && len(bc.table) >= 1
  modifies bc.table, elems(bc.table)
  ensures allm(elems(bc.table, a), len(bc.table))
  ensures bc.table == old(bc.table) || fresh(arr(bc.table))

modset ctabs: elems(b.applycache.table), elems(b.itecache.table), elems(b.quantcache.table), elems(b.appexcache.table), elems(b.replacecache.table)
modset cfields: b.applycache.table, b.itecache.table, b.quantcache.table, b.appexcache.table, b.replacecache.table
def cl1(b: BDD) = len(b.applycache.table) >= 1 && len(b.itecache.table) >= 1 && len(b.quantcache.table) >= 1 && len(b.appexcache.table) >= 1 && len(b.replacecache.table) >= 1

func (*BDD).cachereset(b)
  reveal CA CI CQ CX CR
  requires ST(b) && cl1(b)
  modifies $ctabs
  ensures caches(b, b.@T)

func (*BDD).cacheresize(b, nodesize)
  reveal CA CI CQ CX CR
  requires ST(b) && 0 <= nodesize && nodesize <= 2147483648
  requires len(b.applycache.table) >= 1 && len(b.itecache.table) >= 1 && len(b.quantcache.table) >= 1 && len(b.appexcache.table) >= 1 && len(b.replacecache.table) >= 1
  modifies $ctabs, $cfields
  ensures ST(b)
  ensures caches(b, b.@T)
  ensures arr(b.applycache.table) == old(arr(b.applycache.table)) || fresh(arr(b.applycache.table))
  ensures arr(b.itecache.table) == old(arr(b.itecache.table)) || fresh(arr(b.itecache.table))
  ensures arr(b.quantcache.table) == old(arr(b.quantcache.table)) || fresh(arr(b.quantcache.table))
  ensures arr(b.appexcache.table) == old(arr(b.appexcache.table)) || fresh(arr(b.appexcache.table))
  ensures arr(b.replacecache.table) == old(arr(b.replacecache.table)) || fresh(arr(b.replacecache.table))
