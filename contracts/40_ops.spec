# The operations.

func (*BDD).seterror(b, format, a) r
  modifies b.error
  ensures r == nil && b.error != nil

func (*BDD).Errored(b) r
  ensures [C14] r <==> b.error != nil

func (*BDD).Makenode(b, level, low, high) r
  requires INV(b)
  requires !b.failed && low >= 0 && high >= 0 ==> 0 <= level && level < b.varnum && K(b.@T, b.@L, SK(b), low) && K(b.@T, b.@L, SK(b), high) && stkok(b.@T, SK(b))
     && ib(g(b.@T, low), level + 1) && ib(g(b.@T, high), level + 1)
  modifies $mkmods
  ensures INV(b)
  ensures pres(old(b.@T), b.@L, SK(b), b.@T)
  ensures r >= 0 ==> !b.failed && in(b.@T, r) && g(b.@T, r) == mk(level, g(old(b.@T), low), g(old(b.@T), high))
  ensures r < 0 ==> r == -1 && (b.failed || low < 0 || high < 0)
  ensures old(b.failed) ==> b.failed

# ---- the stack of the running operation
func (*BDD).Initref(b)
  groups stack
  requires len(b.refstack) >= 0
  modifies b.refstack, b.failed, b.@clash
  ghost exit b.@clash := false
  ensures SK(b) == emp && !b.failed && !b.@clash
  ensures arr(b.refstack) == old(arr(b.refstack))

func (*BDD).Pushref(b, n) r
  groups stack
  modifies b.refstack, elems(b.refstack)
  ensures r == n && SK(b) == push(old(SK(b)), n)
  ensures arr(b.refstack) == old(arr(b.refstack)) || fresh(arr(b.refstack))

func (*BDD).Popref(b, a)
  groups stack
  requires [C21] 0 <= a && a <= depth(SK(b))
  modifies b.refstack
  ensures SK(b) == dropn(old(SK(b)), a)
  ensures arr(b.refstack) == old(arr(b.refstack))

# ---- not
func (*BDD).not(b, n) r
  requires INV(b)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), n) && stkok(b.@T, SK(b))
  modifies $opmods
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures r >= 0 ==> !b.failed && in(b.@T, r) && g(b.@T, r) == NOT(g(old(b.@T), n))
  ensures r < 0 ==> r == -1 && b.failed
  ensures old(b.failed) ==> b.failed
  decreases if b.failed then 0 else 1 + lev(b.@T, 0) - lev(b.@T, n)

# ---- apply
func (*BDD).apply(b, left, right) r
  requires INV(b)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), left) && K(b.@T, b.@L, SK(b), right) && stkok(b.@T, SK(b))
  modifies $opmods
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures r >= 0 ==> !b.failed && 0 <= b.applycache.op && b.applycache.op < 10 && in(b.@T, r) && g(b.@T, r) == AP(b.applycache.op, g(old(b.@T), left), g(old(b.@T), right))
  ensures r < 0 ==> r == -1 && (b.failed || b.error != nil && !(0 <= b.applycache.op && b.applycache.op < 10))
  ensures old(b.failed) ==> b.failed
  decreases if b.failed then 0 else 1 + 2 * lev(b.@T, 0) - lev(b.@T, left) - lev(b.@T, right)

# ---- ite
func min3(p, q, r) m
  ensures m == min(p, min(q, r))
func (*BDD).iteLow(b, p, q, r, n) m
  requires TI(b.tables) && RI(b.tables)
  requires [C21] 0 <= n && n < tsize(b.@T)
  modifies $rd
  ensures RI(b.tables) && b.@mode == 0
  ensures m == (if p > q || p > r then n else lo(b.@T, n))
func (*BDD).iteHigh(b, p, q, r, n) m
  requires TI(b.tables) && RI(b.tables)
  requires [C21] 0 <= n && n < tsize(b.@T)
  modifies $rd
  ensures RI(b.tables) && b.@mode == 0
  ensures m == (if p > q || p > r then n else hi(b.@T, n))

func (*BDD).ite(b, f, h, k) r
  requires INV(b)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), f) && K(b.@T, b.@L, SK(b), h) && K(b.@T, b.@L, SK(b), k) && stkok(b.@T, SK(b))
  modifies $opmods
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures r >= 0 ==> !b.failed && in(b.@T, r) && g(b.@T, r) == ITE(g(old(b.@T), f), g(old(b.@T), h), g(old(b.@T), k))
  ensures r < 0 ==> r == -1 && b.failed
  ensures old(b.failed) ==> b.failed
  decreases if b.failed then 0 else 1 + 3 * lev(b.@T, 0) - lev(b.@T, f) - lev(b.@T, h) - lev(b.@T, k)

# ---- quantification
# the variables to quantify are marked
def QS(b: BDD, v) = (forall k :: {b.quantset[k]} {vs(b.@T, v)[k]} 0 <= k && k < b.varnum ==> (b.quantset[k] == b.quantsetID <==> vs(b.@T, v)[k]))
  && (forall k :: {vs(b.@T, v)[k]} vs(b.@T, v)[k] ==> k <= b.quantlast)

func (*BDD).quantset2cache(b, n) r
  reveal QI
  requires INV(b) && (n >= 2 ==> in(b.@T, n))
  modifies $rd, b.quantsetID, b.quantset, elems(b.quantset), b.quantlast, b.error
  loop 1
    invariant INV(b) && in(b.@T, i)
    invariant forall k :: {vs(b.@T, i)[k]} {vs(b.@T, n)[k]} vs(b.@T, i)[k] ==> vs(b.@T, n)[k]
    invariant forall k :: {vs(b.@T, n)[k]} {b.quantset[k]} vs(b.@T, n)[k] ==> vs(b.@T, i)[k] || b.quantset[k] == b.quantsetID
    invariant forall k :: {b.quantset[k]} 0 <= k && k < b.varnum && b.quantset[k] == b.quantsetID ==> vs(b.@T, n)[k]
    invariant i != n ==> b.quantlast < lev(b.@T, i)
    invariant forall k :: {vs(b.@T, n)[k]} vs(b.@T, n)[k] && !vs(b.@T, i)[k] ==> i != n && k <= b.quantlast
    decreases lev(b.@T, 0) - lev(b.@T, i)
  ensures INV(b)
  ensures r == nil <==> n >= 2
  ensures r == nil ==> QS(b, n)
  ensures r != nil ==> b.error != nil

func (*BDD).quant(b, n, varset) r
  requires INV(b)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), n) && K(b.@T, b.@L, SK(b), varset) && stkok(b.@T, SK(b)) && b.applycache.op == 2 && QS(b, varset)
  modifies $opmods
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures r >= 0 ==> !b.failed && in(b.@T, r) && g(b.@T, r) == EX(vs(old(b.@T), varset), g(old(b.@T), n))
  ensures r < 0 ==> r == -1 && b.failed
  ensures old(b.failed) ==> b.failed
  decreases if b.failed then 0 else 1 + lev(b.@T, 0) - lev(b.@T, n)

func (*BDD).appquant(b, left, right, varset) r
  requires INV(b)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), left) && K(b.@T, b.@L, SK(b), right) && K(b.@T, b.@L, SK(b), varset) && stkok(b.@T, SK(b)) && b.applycache.op == 2 && QS(b, varset)
    && b.appexcache.op <= 3 && (0 <= b.appexcache.op ==> b.appexcache.id == 4 * varset + b.appexcache.op && b.appexcache.id / 4 == varset && b.appexcache.id % 4 == b.appexcache.op)
  modifies $opmods, b.applycache.op
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures b.applycache.op == old(b.applycache.op)
  ensures r >= 0 ==> !b.failed && 0 <= b.appexcache.op && in(b.@T, r)
    && g(b.@T, r) == EX(vs(old(b.@T), varset), AP(b.appexcache.op, g(old(b.@T), left), g(old(b.@T), right)))
  ensures r < 0 ==> r == -1 && (b.failed || b.error != nil && b.appexcache.op < 0)
  ensures old(b.failed) ==> b.failed
  decreases if b.failed then 0 else 1 + 2 * lev(b.@T, 0) - lev(b.@T, left) - lev(b.@T, right)

# ---- replacement
# r is a Replacer made for b: @img[r.id] is its substitution
def RP(b: BDD, r: replacer) = r != nil && len(r.image) == b.varnum && 0 <= r.last && r.last < b.varnum && 0 <= r.id && r.id < 4 * _REPLACEID
  && (forall k :: {r.image[k]} {@img[r.id][k]} 0 <= k && k < b.varnum ==> r.image[k] == @img[r.id][k] && 0 <= r.image[k] && r.image[k] < b.varnum)
  && (forall k :: {@img[r.id][k]} r.last < k ==> @img[r.id][k] == k)
def rid(r: replacer): Int = r.id

func (*BDD).correctify(b, level, low, high) r
  requires INV(b)
  requires 0 <= level && level < b.varnum
  requires !b.failed ==> K(b.@T, b.@L, SK(b), low) && K(b.@T, b.@L, SK(b), high) && stkok(b.@T, SK(b))
  modifies $opmods, b.@clash
  ghost exit b.@clash := true when b.failed && !old(b.failed) && (level == lev(old(b.@T), low) || level == lev(old(b.@T), high))
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures r >= 0 ==> !b.failed && in(b.@T, r) && g(b.@T, r) == COR(level, g(old(b.@T), low), g(old(b.@T), high))
  ensures r < 0 ==> r == -1 && b.failed
  ensures old(b.failed) ==> b.failed && b.@clash == old(b.@clash)
  ensures b.@clash ==> old(b.@clash) || dep(g(old(b.@T), low), level) || dep(g(old(b.@T), high), level)
  decreases if b.failed then 0 else 1 + 2 * lev(b.@T, 0) - lev(b.@T, low) - lev(b.@T, high)

func (*BDD).replace(b, n, r) res
  requires INV(b) && RP(b, r) && b.replacecache.id == rid(r)
  requires !b.failed ==> K(b.@T, b.@L, SK(b), n) && stkok(b.@T, SK(b))
  modifies $opmods, b.@clash
  ensures INV(b)
  ensures SK(b) == old(SK(b))
  ensures pres(old(b.@T), b.@L, old(SK(b)), b.@T)
  ensures res >= 0 ==> !b.failed && in(b.@T, res) && g(b.@T, res) == SUBST(@img[rid(r)], g(old(b.@T), n))
  ensures res < 0 ==> res == -1 && b.failed
  ensures old(b.failed) ==> b.failed && b.@clash == old(b.@clash)
  ensures b.@clash ==> old(b.@clash) || !injS(@img[rid(r)], g(old(b.@T), n))
  decreases if b.failed then 0 else 1 + lev(b.@T, 0) - lev(b.@T, n)
