# Creating a BDD.

# The values that the options passed to New leave in the configuration.
ghostfield glob.@onod : Int
ghostfield glob.@omax : Int
ghostfield glob.@oinc : Int
ghostfield glob.@omin : Int
ghostfield glob.@ocs : Int
ghostfield glob.@ocr : Int

# What an option may do to a configuration. Options come from the functions below, which are checked
# against these clauses. Values beyond these bounds (a table of more than 2^31 nodes, a cache of more than
# 2^29 entries, a ratio of more than a million percent) are not considered.
def [hudd] fits(n) = n <= 2147483648
def [buddy] fits(n) = n <= 2147483629
def OPT(c: configs) = 1 <= c.varnum && c.varnum <= 2097151 && 2 * c.varnum + 2 <= c.nodesize && fits(c.nodesize)
  && -536870912 <= c.cachesize && c.cachesize <= 536870912 && c.cacheratio <= 1000000
modset options: c.nodesize, c.cachesize, c.cacheratio, c.maxnodesize, c.maxnodeincrease, c.minfreenodes

func makeconfigs(varnum) c
  requires 1 <= varnum && varnum <= 2097151
  ensures c != nil && fresh(c) && OPT(c) && c.varnum == varnum
  ensures c.nodesize == 2 * varnum + 2 && c.cachesize == 0 && c.cacheratio == 0 && c.maxnodesize == 0 && c.maxnodeincrease == 1048576 && c.minfreenodes == 20

clauses option
  requires c != nil && OPT(c)
  modifies $options
  ensures OPT(c)

func Nodesize$1(c)
  requires fits(size)
  use option
  ensures c.nodesize == (if size >= 2 * c.varnum + 2 then size else old(c.nodesize))
  ensures c.cachesize == old(c.cachesize) && c.cacheratio == old(c.cacheratio) && c.maxnodesize == old(c.maxnodesize) && c.maxnodeincrease == old(c.maxnodeincrease) && c.minfreenodes == old(c.minfreenodes)
func Maxnodesize$1(c)
  use option
  ensures c.maxnodesize == size
  ensures c.nodesize == old(c.nodesize) && c.cachesize == old(c.cachesize) && c.cacheratio == old(c.cacheratio) && c.maxnodeincrease == old(c.maxnodeincrease) && c.minfreenodes == old(c.minfreenodes)
func Maxnodeincrease$1(c)
  use option
  ensures c.maxnodeincrease == size
  ensures c.nodesize == old(c.nodesize) && c.cachesize == old(c.cachesize) && c.cacheratio == old(c.cacheratio) && c.maxnodesize == old(c.maxnodesize) && c.minfreenodes == old(c.minfreenodes)
func Minfreenodes$1(c)
  use option
  ensures c.minfreenodes == ratio
  ensures c.nodesize == old(c.nodesize) && c.cachesize == old(c.cachesize) && c.cacheratio == old(c.cacheratio) && c.maxnodesize == old(c.maxnodesize) && c.maxnodeincrease == old(c.maxnodeincrease)
func Cachesize$1(c)
  requires -536870912 <= size && size <= 536870912
  use option
  ensures c.cachesize == size
  ensures c.nodesize == old(c.nodesize) && c.cacheratio == old(c.cacheratio) && c.maxnodesize == old(c.maxnodesize) && c.maxnodeincrease == old(c.maxnodeincrease) && c.minfreenodes == old(c.minfreenodes)
func Cacheratio$1(c)
  requires ratio <= 1000000
  use option
  ensures c.cacheratio == ratio
  ensures c.nodesize == old(c.nodesize) && c.cachesize == old(c.cachesize) && c.maxnodesize == old(c.maxnodesize) && c.maxnodeincrease == old(c.maxnodeincrease) && c.minfreenodes == old(c.minfreenodes)

modset bcaches: b.applycache, b.itecache, b.quantcache, b.appexcache, b.replacecache
func (*BDD).cacheinit(b, c)
  reveal CA CI CQ CX CR QI
  requires b.tables != nil && c != nil && OPT(c) && 1 <= b.varnum && b.varnum <= 2097151
  modifies $bcaches
  ensures ST(b) && caches(b, b.@T) && vQI(b)
  ensures fresh(b.applycache) && fresh(b.itecache) && fresh(b.quantcache) && fresh(b.appexcache) && fresh(b.replacecache)
  ensures [C17] c.cachesize != 0 ==> len(b.applycache.table) >= c.cachesize && len(b.itecache.table) >= c.cachesize && len(b.quantcache.table) >= c.cachesize && len(b.appexcache.table) >= c.cachesize && len(b.replacecache.table) >= c.cachesize
  ensures [C17] b.applycache.ratio == c.cacheratio && b.itecache.ratio == c.cacheratio && b.quantcache.ratio == c.cacheratio && b.appexcache.ratio == c.cacheratio && b.replacecache.ratio == c.cacheratio

# @vi: the variable of a node of the initial table
ghostfield glob.@vi : (Array Int Int)
func [hudd] New(varnum, options) r, err
  reveal TS FL RI wf VA QI
  groups tabs stack
  requires forall i :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
  modifies @onod, @omax, @oinc, @omin, @ocs, @ocr, @vi, @r0, @c0, @P
  ghost entry @onod := 2 * varnum + 2
  ghost entry @omax := 0
  ghost entry @oinc := 1048576
  ghost entry @omin := 20
  ghost entry @ocs := 0
  ghost entry @ocr := 0
  loop 1
    invariant OPT(config) && config.varnum == varnum && @onod == config.nodesize && @omax == config.maxnodesize && @oinc == config.maxnodeincrease && @omin == config.minfreenodes && @ocs == config.cachesize && @ocr == config.cacheratio
    invariant b.error == nil && !b.failed && b.tables == nil
  loop 2
    invariant forall i :: {impl.nodes[i].level} 0 <= i && i < $i ==> impl.nodes[i].level == 0
    invariant forall i :: {impl.nodes[i].low} 0 <= i && i < $i ==> impl.nodes[i].low == -1
    invariant forall i :: {impl.nodes[i].high} 0 <= i && i < $i ==> impl.nodes[i].high == i + 1
    invariant forall i :: {impl.nodes[i].refcou} 0 <= i && i < $i ==> impl.nodes[i].refcou == 0
  loop 3
    ghost entry impl.@T := mkTab(len(impl.nodes), elems(impl.nodes, level), elems(impl.nodes, low), elems(impl.nodes, high))
    ghost entry impl.@init := len(impl.nodes)
    ghost entry impl.@rk := lambda i :: len(impl.nodes) - i
    ghost entry impl.@ri := lambda i :: len(impl.nodes) - i
    ghost entry impl.@L := lambda i :: false
    ghost loop impl.@L := store(store(impl.@L, b.varset[k - 1][0], true), b.varset[k - 1][1], true)
    ghost loop @vi := store(store(@vi, b.varset[k - 1][0], k - 1), b.varset[k - 1][1], k - 1)
    invariant TI(impl) && RI(impl) && !impl.@pub && !b.failed && b.error == nil && len(b.refstack) == 0 && len(b.varset) == varnum
    invariant lev(impl.@T, 0) == varnum && config.varnum == varnum && len(impl.nodes) == impl.@init && impl.nodes == pre(impl.nodes) && (arr(impl.history) == 0 || fresh(arr(impl.history)))
    invariant fresh(arr(b.refstack)) && fresh(arr(b.varset))
    decreases varnum - k
    invariant 0 <= k && k <= varnum && impl.freenum >= 2 * (varnum - k)
    invariant forall i :: {b.varset[i][0]} 0 <= i && i < k ==> in(impl.@T, b.varset[i][0]) && impl.@L[b.varset[i][0]] && g(impl.@T, b.varset[i][0]) == VAR(i)
    invariant forall i :: {b.varset[i][1]} 0 <= i && i < k ==> in(impl.@T, b.varset[i][1]) && impl.@L[b.varset[i][1]] && g(impl.@T, b.varset[i][1]) == NVAR(i)
    invariant forall i :: {in(impl.@T, i)} in(impl.@T, i) && 2 <= i ==> impl.@L[i] && impl.nodes[i].refcou == 1023
    invariant forall i :: {impl.@L[i]} impl.@L[i] ==> 0 <= @vi[i] && @vi[i] < k && (i == b.varset[@vi[i]][0] || i == b.varset[@vi[i]][1])
  ghost exit r.@pub := true when r != nil
  ensures [C17] r == nil <==> varnum < 1 || varnum > 2097151
  ensures [C17] r == nil <==> err != nil
  ensures r != nil ==> INV(r) && fresh(r) && fresh(r.tables)
  ensures [C17] r != nil ==> r.varnum == varnum && r.error == nil
  ensures [C17] r != nil ==> len(r.nodes) >= @onod && r.maxnodesize == @omax && r.maxnodeincrease == @oinc && r.minfreenodes == @omin && r.@init == len(r.nodes)
  ensures [C17] r != nil ==> r.applycache.ratio == @ocr && r.itecache.ratio == @ocr && r.quantcache.ratio == @ocr && r.appexcache.ratio == @ocr && r.replacecache.ratio == @ocr
  ensures [C17] r != nil && @ocs != 0 ==> len(r.applycache.table) >= @ocs && len(r.itecache.table) >= @ocs && len(r.quantcache.table) >= @ocs && len(r.appexcache.table) >= @ocs && len(r.replacecache.table) >= @ocs
  ensures [C17] r != nil ==> (forall i :: {in(r.@T, i)} in(r.@T, i) && 2 <= i ==> 0 <= @vi[i] && @vi[i] < varnum && (i == r.varset[@vi[i]][0] || i == r.varset[@vi[i]][1]))
  ensures [C17] r != nil ==> (forall i :: {in(r.@T, i)} in(r.@T, i) ==> r.nodes[i].refcou == 1023)
  callback options(c)
    requires c != nil && OPT(c)
    modifies $options
    ensures OPT(c)
    ghost cbexit @onod := c.nodesize
    ghost cbexit @omax := c.maxnodesize
    ghost cbexit @oinc := c.maxnodeincrease
    ghost cbexit @omin := c.minfreenodes
    ghost cbexit @ocs := c.cachesize
    ghost cbexit @ocr := c.cacheratio

func [buddy] New(varnum, options) r, err
  reveal TS FL RI wf VA QI HC
  groups tabs stack
  requires forall i :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
  modifies @onod, @omax, @oinc, @omin, @ocs, @ocr, @vi, @r0, @c0, @P
  ghost entry @onod := 2 * varnum + 2
  ghost entry @omax := 0
  ghost entry @oinc := 1048576
  ghost entry @omin := 20
  ghost entry @ocs := 0
  ghost entry @ocr := 0
  loop 1
    invariant OPT(config) && config.varnum == varnum && @onod == config.nodesize && @omax == config.maxnodesize && @oinc == config.maxnodeincrease && @omin == config.minfreenodes && @ocs == config.cachesize && @ocr == config.cacheratio
    invariant b.error == nil && !b.failed && b.tables == nil
  loop 2
    invariant forall i :: {impl.nodes[i].level} 0 <= i && i < $i ==> impl.nodes[i].level == 0
    invariant forall i :: {impl.nodes[i].low} 0 <= i && i < $i ==> impl.nodes[i].low == -1
    invariant forall i :: {impl.nodes[i].high} 0 <= i && i < $i ==> impl.nodes[i].high == 0
    invariant forall i :: {impl.nodes[i].next} 0 <= i && i < $i ==> impl.nodes[i].next == i + 1
    invariant forall i :: {impl.nodes[i].hash} 0 <= i && i < $i ==> impl.nodes[i].hash == 0
    invariant forall i :: {impl.nodes[i].refcou} 0 <= i && i < $i ==> impl.nodes[i].refcou == 0
  loop 3
    ghost entry impl.@T := mkTab(len(impl.nodes), elems(impl.nodes, level), elems(impl.nodes, low), elems(impl.nodes, high))
    ghost entry impl.@init := len(impl.nodes)
    ghost entry impl.@rk := lambda i :: len(impl.nodes) - i
    ghost entry impl.@ri := lambda i :: len(impl.nodes) - i
    ghost entry impl.@L := lambda i :: false
    ghost loop impl.@L := store(store(impl.@L, b.varset[k - 1][0], true), b.varset[k - 1][1], true)
    ghost loop @vi := store(store(@vi, b.varset[k - 1][0], k - 1), b.varset[k - 1][1], k - 1)
    invariant TI(impl) && RI(impl) && !impl.@pub && !b.failed && b.error == nil && len(b.refstack) == 0 && len(b.varset) == varnum
    invariant lev(impl.@T, 0) == varnum && config.varnum == varnum && len(impl.nodes) == impl.@init && impl.nodes == pre(impl.nodes) && (arr(impl.history) == 0 || fresh(arr(impl.history)))
    invariant fresh(arr(b.refstack)) && fresh(arr(b.varset))
    decreases varnum - k
    invariant 0 <= k && k <= varnum && impl.freenum >= 2 * (varnum - k)
    invariant forall i :: {b.varset[i][0]} 0 <= i && i < k ==> in(impl.@T, b.varset[i][0]) && impl.@L[b.varset[i][0]] && g(impl.@T, b.varset[i][0]) == VAR(i)
    invariant forall i :: {b.varset[i][1]} 0 <= i && i < k ==> in(impl.@T, b.varset[i][1]) && impl.@L[b.varset[i][1]] && g(impl.@T, b.varset[i][1]) == NVAR(i)
    invariant forall i :: {in(impl.@T, i)} in(impl.@T, i) && 2 <= i ==> impl.@L[i] && impl.nodes[i].refcou == 1023
    invariant forall i :: {impl.@L[i]} impl.@L[i] ==> 0 <= @vi[i] && @vi[i] < k && (i == b.varset[@vi[i]][0] || i == b.varset[@vi[i]][1])
  ghost exit r.@pub := true when r != nil
  ensures [C17] r == nil <==> varnum < 1 || varnum > 2097151
  ensures [C17] r == nil <==> err != nil
  ensures r != nil ==> INV(r) && fresh(r) && fresh(r.tables)
  ensures [C17] r != nil ==> r.varnum == varnum && r.error == nil
  ensures [C17] r != nil ==> len(r.nodes) >= @onod && r.maxnodesize == @omax && r.maxnodeincrease == @oinc && r.minfreenodes == @omin && r.@init == len(r.nodes)
  ensures [C17] r != nil ==> r.applycache.ratio == @ocr && r.itecache.ratio == @ocr && r.quantcache.ratio == @ocr && r.appexcache.ratio == @ocr && r.replacecache.ratio == @ocr
  ensures [C17] r != nil && @ocs != 0 ==> len(r.applycache.table) >= @ocs && len(r.itecache.table) >= @ocs && len(r.quantcache.table) >= @ocs && len(r.appexcache.table) >= @ocs && len(r.replacecache.table) >= @ocs
  ensures [C17] r != nil ==> (forall i :: {in(r.@T, i)} in(r.@T, i) && 2 <= i ==> 0 <= @vi[i] && @vi[i] < varnum && (i == r.varset[@vi[i]][0] || i == r.varset[@vi[i]][1]))
  ensures [C17] r != nil ==> (forall i :: {in(r.@T, i)} in(r.@T, i) ==> r.nodes[i].refcou == 1023)
  callback options(c)
    requires c != nil && OPT(c)
    modifies $options
    ensures OPT(c)
    ghost cbexit @onod := c.nodesize
    ghost cbexit @omax := c.maxnodesize
    ghost cbexit @oinc := c.maxnodeincrease
    ghost cbexit @omin := c.minfreenodes
    ghost cbexit @ocs := c.cachesize
    ghost cbexit @ocr := c.cacheratio

# the finalizer of a node
func [hudd] New$1(n)
  finalizer
  reveal RI RELY
  requires b != nil && impl != nil && b.tables == impl && n != nil && *n == @fn
  modifies elems(impl.nodes, refcou), impl.@cnt, impl.@mode, @r0, @c0
  ghost unlock impl.@cnt := store(impl.@cnt, @fn, impl.@cnt[@fn] - 1)
  ensures impl.@cnt == store(@c0, @fn, @c0[@fn] - 1)
  ensures impl.@mode == 0

func [buddy] New$1(n)
  finalizer
  reveal RI RELY
  requires impl != nil && n != nil && *n == @fn
  modifies elems(impl.nodes, refcou), impl.@cnt, impl.@mode, @r0, @c0
  ghost unlock impl.@cnt := store(impl.@cnt, @fn, impl.@cnt[@fn] - 1)
  ensures impl.@cnt == store(@c0, @fn, @c0[@fn] - 1)
  ensures impl.@mode == 0
