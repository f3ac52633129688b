counters produced opHit opMiss uniqueAccess uniqueHit uniqueMiss uniqueChain
# Ghost state and invariants of the node table.

# @T: the table as a diagram. @L: nodes the program holds. @cnt: registered finalizers that have not
# run, per node. @pub: the table is visible to finalizers. @mode: what the verified thread holds of the
# lock (0 nothing, 1 read, 2 write). @marking: a traversal is using the mark bits. @rk, @ri: position of
# each free slot in the list of free slots and its inverse. @init: initial size.
ghostfield tables.@T : Tab
ghostfield tables.@L : (Array Int Bool)
ghostfield tables.@cnt : (Array Int Int)
ghostfield tables.@pub : Bool
ghostfield tables.@mode : Int
ghostfield tables.@marking : Bool
ghostfield tables.@rk : (Array Int Int)
ghostfield tables.@ri : (Array Int Int)
ghostfield tables.@init : Int
# the node whose finalizer runs (finalizers only)
ghostfield glob.@fn : Int
ghostfield glob.@r0 : (Array Int Int)
ghostfield glob.@c0 : (Array Int Int)

ghostfield glob.@P : (Array Int Bool)

# the hash key of a node
opaque [hudd] enc(l, a, b): Key = mkkey20(l % 256, (l / 256) % 256, (l / 65536) % 256, (l / 16777216) % 256,
  a % 256, (a / 256) % 256, (a / 65536) % 256, (a / 16777216) % 256, (a / 4294967296) % 256, (a / 1099511627776) % 256, (a / 281474976710656) % 256, (a / 72057594037927936) % 256,
  b % 256, (b / 256) % 256, (b / 65536) % 256, (b / 16777216) % 256, (b / 4294967296) % 256, (b / 1099511627776) % 256, (b / 281474976710656) % 256, (b / 72057594037927936) % 256)

def lowc(x): Int = if x >= 2097152 then x - 2097152 else x

# contents of the arrays of the node table
opaque [hudd] TS(t: tables) =
  len(t.nodes) == tsize(t.@T) && 2 <= len(t.nodes) && len(t.nodes) <= 2147483648
  && (forall i :: {lev(t.@T, i)} {t.nodes[i].level} 0 <= i && i < len(t.nodes) ==> t.nodes[i].level == lev(t.@T, i))
  && (forall i :: {lo(t.@T, i)} {t.nodes[i].low} 0 <= i && i < len(t.nodes) ==> t.nodes[i].low == lo(t.@T, i))
  && (forall i :: {hi(t.@T, i)} {t.nodes[i].high} 0 <= i && i < len(t.nodes) ==> t.nodes[i].high == hi(t.@T, i))
  && (forall i :: {lev(t.@T, i)} 0 <= i && i < len(t.nodes) ==> 0 <= lev(t.@T, i) && lev(t.@T, i) < 2147483648)
  && (forall i :: {lo(t.@T, i)} 0 <= i && i < len(t.nodes) ==> -1 <= lo(t.@T, i) && lo(t.@T, i) < 2147483648)
  && (forall i :: {hi(t.@T, i)} 0 <= i && i < len(t.nodes) ==> 0 <= hi(t.@T, i) && hi(t.@T, i) < 2147483648)
  && t.unique != nil
  && (forall i :: {in(t.@T, i)} in(t.@T, i) && 2 <= i ==> dom(t.unique)[enc(lev(t.@T, i), lo(t.@T, i), hi(t.@T, i))] && vals(t.unique)[enc(lev(t.@T, i), lo(t.@T, i), hi(t.@T, i))] == i)
  && (forall k: Key :: {dom(t.unique)[k]} dom(t.unique)[k] ==> in(t.@T, vals(t.unique)[k]) && 2 <= vals(t.unique)[k]
        && k == enc(lev(t.@T, vals(t.unique)[k]), lo(t.@T, vals(t.unique)[k]), hi(t.@T, vals(t.unique)[k])))

# every slot is in use or in the list of free slots, exactly once
opaque [hudd] FL(t: tables) =
  0 <= t.freenum && t.freenum <= tsize(t.@T) && t.freepos == (if t.freenum == 0 then 0 else t.@ri[t.freenum])
  && (forall i :: {in(t.@T, i)} {t.@rk[i]} 2 <= i && i < tsize(t.@T) && !in(t.@T, i) ==> 1 <= t.@rk[i] && t.@rk[i] <= t.freenum && t.@ri[t.@rk[i]] == i
        && hi(t.@T, i) == (if t.@rk[i] == 1 then 0 else t.@ri[t.@rk[i] - 1]))
  && (forall k :: {t.@ri[k]} 1 <= k && k <= t.freenum ==> 2 <= t.@ri[k] && t.@ri[k] < tsize(t.@T) && !in(t.@T, t.@ri[k]) && t.@rk[t.@ri[k]] == k)

# reference counts agree with the registered finalizers, and protect what the program holds
opaque [hudd] RI(t: tables) =
  let rc := elems(t.nodes, refcou);
  (forall k :: {rc[k]} {t.@cnt[k]} {t.@L[k]} 0 <= k && k < len(t.nodes) ==>
     (0 <= rc[k] && rc[k] <= 1023 || 2097152 <= rc[k] && rc[k] <= 2098175 && t.@marking && 2 <= k && in(t.@T, k))
     && (lowc(rc[k]) == 1023 || lowc(rc[k]) == t.@cnt[k])
     && (lowc(rc[k]) > 0 ==> in(t.@T, k)) && (t.@cnt[k] > 0 ==> lowc(rc[k]) > 0)
     && (t.@L[k] ==> lowc(rc[k]) > 0))
  && (forall k :: {t.@cnt[k]} t.@cnt[k] >= 0 && (k < 2 || len(t.nodes) <= k ==> t.@cnt[k] == 0))
  && (forall k :: {t.@L[k]} k < 0 || len(t.nodes) <= k ==> !t.@L[k])
  && rc[0] == 1023 && rc[1] == 1023

# what finalizers may do to the reference counts between two looks at them
opaque RELY(n, r0: (Array Int Int), c0: (Array Int Int), r1: (Array Int Int), c1: (Array Int Int)) =
  (forall k :: {r1[k]} 0 <= k && k < n ==> (r1[k] >= 2097152 <==> r0[k] >= 2097152) && r1[k] <= r0[k] && (lowc(r0[k]) == 1023 ==> r1[k] == r0[k]))
  && (forall k :: {c1[k]} c1[k] <= c0[k])

def SZ(t: tables) = t.maxnodesize > 0 ==> len(t.nodes) <= max(t.maxnodesize, t.@init)

def [hudd] TIm(t: tables) = TS(t) && FL(t) && wf(t.@T) && SZ(t) && t.@mode == 0
def [hudd] TI(t: tables) = TIm(t) && !t.@marking

# room can be refused
def [hudd] limited(t: tables) = t.maxnodesize > 0 || t.minfreenodes < 0 || len(t.nodes) >= 2147483646

# ---- locks
extern (*sync.RWMutex).RLock(m)
  requires [C20] t.@mode == 0
  requires [C20,C12] RI(t)
  modifies t.@mode, elems(t.nodes, refcou), t.@cnt
  ensures t.@mode == 1
  ensures !t.@pub ==> elems(t.nodes, refcou) == old(elems(t.nodes, refcou)) && t.@cnt == old(t.@cnt)
  ensures RI(t) && RELY(len(t.nodes), old(elems(t.nodes, refcou)), old(t.@cnt), elems(t.nodes, refcou), t.@cnt)

extern (*sync.RWMutex).RUnlock(m)
  requires [C20] t.@mode == 1
  requires [C20,C12] RI(t)
  modifies t.@mode
  ensures t.@mode == 0

extern (*sync.RWMutex).Lock(m)
  requires [C20] !fin ==> t.@mode == 0
  requires [C20,C12] !fin ==> RI(t)
  modifies t.@mode, elems(t.nodes, refcou), t.@cnt, @r0, @c0
  ensures t.@mode == 2
  ensures @r0 == elems(t.nodes, refcou) && @c0 == t.@cnt
  ensures !fin && !t.@pub ==> elems(t.nodes, refcou) == old(elems(t.nodes, refcou)) && t.@cnt == old(t.@cnt)
  ensures RI(t)
  ensures !fin ==> RELY(len(t.nodes), old(elems(t.nodes, refcou)), old(t.@cnt), elems(t.nodes, refcou), t.@cnt)
  ensures fin ==> t.@cnt[@fn] >= 1 && (t.@L[@fn] && lowc(t.nodes[@fn].refcou) != 1023 ==> t.@cnt[@fn] >= 2)

extern (*sync.RWMutex).Unlock(m)
  requires [C20,C12] fin ==> RELY(len(t.nodes), @r0, @c0, elems(t.nodes, refcou), t.@cnt)
  requires [C20] t.@mode == 2
  requires [C20,C12] RI(t)
  modifies t.@mode
  ensures t.@mode == 0

# The locking discipline: finalizers take the write lock, and touch nothing but the reference counter of
# their node (which has a registered finalizer) and the header of the table. So the running operation
# may touch a counter with the read or the write lock, or if no finalizer can concern it, and may replace
# the table with the write lock only.
guard [hudd] huddnode.refcou: if fin then t.@mode == 2 else t.@mode >= 1 || !t.@pub || t.@cnt[i] == 0
guard [hudd] huddnode.level: !fin
guard [hudd] huddnode.low: !fin
guard [hudd] huddnode.high: !fin
guard tables.nodes: if w then t.@mode == 2 || !t.@pub && !fin else !fin || t.@mode == 2

modset [hudd] uniq: b.hbuff, mapof(b.unique)

modset [hudd] nodemods: elems(b.nodes, refcou), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high), b.@cnt, b.@mode, @r0, @c0

# ---- accessors
func (*tables).level(b, n) r
  reveal TS
  requires TI(b)
  requires RI(b)
  requires [C21] 0 <= n && n < tsize(b.@T)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  ensures RI(b)
  ensures r == lev(b.@T, n)
  ensures b.@mode == 0

# ---- marking
opaque LOWM(n, A: (Array Int Int), B: (Array Int Int)) = forall k :: {A[k]} 0 <= k && k < n ==> lowc(A[k]) <= lowc(B[k])
def mk2(x) = x >= 2097152
# the marks A come from the marks B by marking what can be reached from n
opaque MK(T: Tab, A: (Array Int Int), n, B: (Array Int Int)) =
  (forall k :: {A[k]} {B[k]} 0 <= k && k < tsize(T) && mk2(B[k]) ==> mk2(A[k]))
  && (forall k :: {A[k]} 0 <= k && k < tsize(T) && mk2(A[k]) && !mk2(B[k]) ==> in(T, k) && 2 <= k && reach(T, n, k))
  && (forall k :: {A[k], lo(T, k)} 0 <= k && k < tsize(T) && mk2(A[k]) && !mk2(B[k]) ==> lo(T, k) < 2 || mk2(A[lo(T, k)]))
  && (forall k :: {A[k], hi(T, k)} 0 <= k && k < tsize(T) && mk2(A[k]) && !mk2(B[k]) ==> hi(T, k) < 2 || mk2(A[hi(T, k)]))
  && (in(T, n) && 2 <= n ==> mk2(A[n]))

func [hudd] (*tables).markrec(b, n)
  reveal TS RI RELY MK LOWM
  requires TIm(b)
  requires b.@marking
  requires RI(b)
  requires [C21] n < tsize(b.@T)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  ensures RI(b)
  ensures MK(b.@T, elems(b.nodes, refcou), n, old(elems(b.nodes, refcou)))
  ensures LOWM(len(b.nodes), elems(b.nodes, refcou), old(elems(b.nodes, refcou)))
  ensures b.@mode == 0
  decreases if n < 2 || !in(b.@T, n) then 0 else lev(b.@T, 0) - lev(b.@T, n)

# the stack of the running operation
def SS(r: (Array Int Int), n): Stk = stk(r, 0, n)

func [hudd] (*tables).huddhash(b, level, low, high)
  reveal enc
  requires -1 <= low
  modifies b.hbuff
  ensures key(b.hbuff) == enc(level, low, high)

opaque [hudd] dd(a) = a == 256 * (a / 256) + a % 256 && a / 256 == 256 * (a / 65536) + (a / 256) % 256 && a / 65536 == 256 * (a / 16777216) + (a / 65536) % 256 && a / 16777216 == 256 * (a / 4294967296) + (a / 16777216) % 256 && a / 4294967296 == 256 * (a / 1099511627776) + (a / 4294967296) % 256 && a / 1099511627776 == 256 * (a / 281474976710656) + (a / 1099511627776) % 256 && a / 281474976710656 == 256 * (a / 72057594037927936) + (a / 281474976710656) % 256
lemma [hudd, enc] (reveal dd) dd_all: forall a :: {dd(a)} dd(a)
lemma [hudd, enc] (reveal enc dd) enc_inj: forall l, a, b, l2, a2, b2 :: {enc(l, a, b), enc(l2, a2, b2)}
  dd(l) && dd(l2) && dd(a) && dd(a2) && dd(b) && dd(b2) && 0 <= l && l < 2147483648 && 0 <= l2 && l2 < 2147483648
  && -1 <= a && a < 4611686018427387904 && -1 <= a2 && a2 < 4611686018427387904
  && 0 <= b && b < 4611686018427387904 && 0 <= b2 && b2 < 4611686018427387904 && enc(l, a, b) == enc(l2, a2, b2) ==> l == l2 && a == a2 && b == b2

# ---- creating a node
func [hudd] (*tables).setnode(b, level, low, high, count) res
  reveal TS FL RI RELY wf
  groups tabs enc
  requires TI(b)
  requires RI(b)
  requires b.freenum > 0 && count == 0
  requires 0 <= level && level < lev(b.@T, 0) && in(b.@T, low) && in(b.@T, high) && low != high
  requires level < lev(b.@T, low) && level < lev(b.@T, high)
  requires !dom(b.unique)[enc(level, low, high)]
  modifies $nodemods, b.hbuff, mapof(b.unique), b.freenum, b.freepos, b.@T
  ghost unlock b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high))
  assert TS(b)
  assert wf(b.@T)
  assert ext(old(b.@T), b.@T)
  ensures TI(b)
  ensures RI(b)
  ensures ext(old(b.@T), b.@T)
  ensures in(b.@T, res) && 2 <= res && lev(b.@T, res) == level && lo(b.@T, res) == low && hi(b.@T, res) == high
  ensures len(b.nodes) == old(len(b.nodes)) && b.nodes == old(b.nodes)
  ensures [C18] b.freenum == old(b.freenum) - 1
  ensures [C17] forall i :: {in(b.@T, i)} in(b.@T, i) ==> in(old(b.@T), i) || i == res
  ensures [C17] !b.@pub ==> (forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) && in(old(b.@T), i) ==> b.nodes[i].refcou == old(elems(b.nodes, refcou))[i])


func [hudd] (*tables).gbc(b, refstack)
  reveal TS FL RI RELY MK LOWM wf CM SWEEP SWEEPU SWEEPF
  groups tabs enc gc stack
  requires TI(b)
  requires RI(b)
  requires stkok(b.@T, SS(elems(refstack), len(refstack)))
  modifies $nodemods, b.hbuff, mapof(b.unique), b.freenum, b.freepos, b.@T, b.@marking, b.history, elems(b.history), b.setfinalizers, b.calledfinalizers, b.@rk, b.@ri, @P
  ghost entry b.@marking := true
  ghost entry @P := lambda k :: b.nodes[k].refcou > 0
  loop 1
    invariant TIm(b) && RI(b) && b.@marking
    invariant LOWM(len(b.nodes), elems(b.nodes, refcou), old(elems(b.nodes, refcou)))
    invariant CM(b.@T, elems(b.nodes, refcou), @P, SS(elems(refstack), len(refstack)))
    invariant forall i :: {refstack[i]} 0 <= i && i < $i && 2 <= refstack[i] ==> b.nodes[refstack[i]].refcou >= 2097152
  loop 2
    invariant TIm(b) && RI(b) && b.@marking
    invariant LOWM(len(b.nodes), elems(b.nodes, refcou), old(elems(b.nodes, refcou)))
    invariant CM(b.@T, elems(b.nodes, refcou), @P, SS(elems(refstack), len(refstack)))
    invariant forall i :: {refstack[i]} 0 <= i && i < len(refstack) && 2 <= refstack[i] ==> b.nodes[refstack[i]].refcou >= 2097152
    invariant forall i :: {b.nodes[i].refcou} 2 <= i && i < $i && b.nodes[i].refcou > 0 ==> b.nodes[i].refcou >= 2097152
  loop 3
    ghost entry b.@rk := b.@rk
    ghost loop b.@ri := store(b.@ri, b.freenum, b.freepos) when b.freenum > 0
    ghost loop b.@rk := store(b.@rk, b.freepos, b.freenum) when b.freenum > 0
    invariant marked(b.@T, b.@L, SS(elems(refstack), len(refstack)), pre(elems(b.nodes, refcou)))
    invariant RI(b) && b.@mode == 0 && b.@marking
    invariant 1 <= n && n < len(b.nodes)
    invariant SWEEP(b, n, pre(elems(b.nodes, refcou)))
    invariant SWEEPU(b, n, pre(elems(b.nodes, refcou)), pre(dom(b.unique)))
    invariant SWEEPF(b, n, pre(elems(b.nodes, refcou)))
  ghost exit b.@marking := false
  ghost exit b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high))
  assert TS(b)
  assert forall k :: {in(b.@T, k)} in(b.@T, k) ==> old(in(b.@T, k)) && lev(b.@T, k) == old(lev(b.@T, k)) && lo(b.@T, k) == old(lo(b.@T, k)) && hi(b.@T, k) == old(hi(b.@T, k))
  assert forall k :: {in(b.@T, k)} in(b.@T, k) && 2 <= k ==> in(b.@T, lo(b.@T, k)) && in(b.@T, hi(b.@T, k))
  assert wf(b.@T)
  assert FL(b)
  ensures TI(b)
  ensures RI(b)
  ensures pres(old(b.@T), b.@L, SS(old(elems(refstack)), len(refstack)), b.@T)
  ensures forall k: Key :: {dom(b.unique)[k]} dom(b.unique)[k] ==> old(dom(b.unique)[k])
  ensures [C12] forall n :: {in(b.@T, n)} in(b.@T, n) && 2 <= n ==> K(old(b.@T), @P, SS(old(elems(refstack)), len(refstack)), n)

# the marks are closed and only on nodes reachable from the roots
opaque CM(T: Tab, A: (Array Int Int), P: (Array Int Bool), S: Stk) =
  (forall k :: {A[k]} 0 <= k && k < tsize(T) && mk2(A[k]) ==> in(T, k) && 2 <= k && K(T, P, S, k))
  && (forall k :: {A[k], lo(T, k)} 0 <= k && k < tsize(T) && mk2(A[k]) ==> lo(T, k) < 2 || mk2(A[lo(T, k)]))
  && (forall k :: {A[k], hi(T, k)} 0 <= k && k < tsize(T) && mk2(A[k]) ==> hi(T, k) < 2 || mk2(A[hi(T, k)]))

# the sweep of a collection has treated the slots above n; A: the marks when it started
opaque [hudd] SWEEP(t: tables, n, A: (Array Int Int)) =
  (forall i :: {t.nodes[i].refcou} 2 <= i && i < len(t.nodes) ==> (mk2(t.nodes[i].refcou) <==> i <= n && mk2(A[i])) && (!mk2(A[i]) ==> t.nodes[i].refcou == 0))
  && (forall i :: {t.nodes[i].low} {lo(t.@T, i)} 0 <= i && i < len(t.nodes) ==> t.nodes[i].low == (if i <= n || mk2(A[i]) then lo(t.@T, i) else -1))
  && (forall i :: {t.nodes[i].high} {hi(t.@T, i)} 0 <= i && i < len(t.nodes) && (i <= n || mk2(A[i])) ==> t.nodes[i].high == hi(t.@T, i))
opaque [hudd] SWEEPU(t: tables, n, A: (Array Int Int), d: (Array Key Bool)) =
  (forall i :: {in(t.@T, i)} in(t.@T, i) && 2 <= i && (i <= n || mk2(A[i])) ==> dom(t.unique)[enc(lev(t.@T, i), lo(t.@T, i), hi(t.@T, i))])
  && (forall k: Key :: {dom(t.unique)[k]} dom(t.unique)[k] ==> d[k] && (vals(t.unique)[k] <= n || mk2(A[vals(t.unique)[k]])))
opaque [hudd] SWEEPF(t: tables, n, A: (Array Int Int)) =
  0 <= t.freenum && t.freenum < len(t.nodes) - n && t.freepos == (if t.freenum == 0 then 0 else t.@ri[t.freenum])
  && (forall i :: {A[i]} {t.@rk[i]} n < i && i < len(t.nodes) && !mk2(A[i]) ==> 1 <= t.@rk[i] && t.@rk[i] <= t.freenum && t.@ri[t.@rk[i]] == i
        && t.nodes[i].high == (if t.@rk[i] == 1 then 0 else t.@ri[t.@rk[i] - 1]))
  && (forall k :: {t.@ri[k]} 1 <= k && k <= t.freenum ==> n < t.@ri[k] && t.@ri[k] < len(t.nodes) && !mk2(A[t.@ri[k]]) && t.@rk[t.@ri[k]] == k)

# ---- growth
func [hudd] (*tables).noderesize(b) r
  reveal TS FL RI RELY wf
  groups tabs
  requires TI(b)
  requires RI(b)
  modifies $nodemods, b.nodes, b.freenum, b.freepos, b.@T, b.@rk, b.@ri
  loop 1
    invariant RI(b) && b.@mode == 0 && len(b.nodes) == nodesize
    invariant forall i :: {b.nodes[i].level} 0 <= i && i < oldsize ==> b.nodes[i].level == lev(b.@T, i)
    invariant forall i :: {b.nodes[i].low} 0 <= i && i < oldsize ==> b.nodes[i].low == lo(b.@T, i)
    invariant forall i :: {b.nodes[i].high} 0 <= i && i < oldsize ==> b.nodes[i].high == hi(b.@T, i)
    invariant forall i :: {b.nodes[i].level} oldsize <= i && i < n ==> b.nodes[i].level == 0
    invariant forall i :: {b.nodes[i].low} oldsize <= i && i < n ==> b.nodes[i].low == -1
    invariant forall i :: {b.nodes[i].high} oldsize <= i && i < n ==> b.nodes[i].high == i + 1
  ghost exit b.@rk := lambda i :: if r == errResize && i >= old(len(b.nodes)) then old(b.freenum) + len(b.nodes) - i else old(b.@rk)[i]
  ghost exit b.@ri := lambda i :: if r == errResize && i > old(b.freenum) then old(b.freenum) + len(b.nodes) - i else old(b.@ri)[i]
  ghost exit b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high)) when r == errResize
  assert TS(b)
  assert FL(b)
  assert wf(b.@T)
  ensures TI(b)
  ensures RI(b)
  ensures ext(old(b.@T), b.@T)
  ensures r == errMemory || r == errResize
  ensures arr(b.nodes) == old(arr(b.nodes)) || fresh(arr(b.nodes))
  ensures r == errResize ==> b.freenum > 0
  ensures r == errMemory ==> b.@T == old(b.@T) && b.nodes == old(b.nodes) && b.freenum == old(b.freenum)
  ensures r == errMemory ==> limited(b)
  ensures [C15] r == errResize && b.maxnodeincrease > 0 ==> len(b.nodes) <= old(len(b.nodes)) + b.maxnodeincrease

func [hudd] (*tables).makenode(b, level, low, high, refstack) res, err
  groups stack enc
  requires TI(b)
  requires RI(b)
  requires 0 <= level && level < lev(b.@T, 0)
  requires K(b.@T, b.@L, SS(elems(refstack), len(refstack)), low) && K(b.@T, b.@L, SS(elems(refstack), len(refstack)), high)
  requires stkok(b.@T, SS(elems(refstack), len(refstack)))
  requires ib(g(b.@T, low), level + 1) && ib(g(b.@T, high), level + 1)
  modifies $nodemods, b.hbuff, mapof(b.unique), b.nodes, b.freenum, b.freepos, b.@T, b.history, elems(b.history), b.setfinalizers, b.calledfinalizers, b.@rk, b.@ri, @P, b.produced, b.@marking
  reveal TS FL
  ensures TI(b)
  ensures RI(b)
  ensures pres(old(b.@T), b.@L, SS(old(elems(refstack)), len(refstack)), b.@T)
  ensures err == nil ==> ext(old(b.@T), b.@T)
  ensures err == nil || err == errMemory || err == errReset || err == errResize
  ensures err != errMemory ==> in(b.@T, res) && g(b.@T, res) == mk(level, g(old(b.@T), low), g(old(b.@T), high))
  ensures err == errMemory ==> res == -1 && limited(b)
  ensures arr(b.nodes) == old(arr(b.nodes)) || fresh(arr(b.nodes))
  ensures [C18] old(b.freenum) > 0 ==> err == nil && b.freenum >= old(b.freenum) - 1
  ensures [C17] old(b.freenum) > 0 ==> b.nodes == old(b.nodes) && (forall i :: {in(b.@T, i)} in(b.@T, i) ==> in(old(b.@T), i) || i == res)
  ensures [C17] old(b.freenum) > 0 && !b.@pub ==> (forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) && in(old(b.@T), i) ==> b.nodes[i].refcou == old(elems(b.nodes, refcou))[i])
  ensures [C15] b.maxnodeincrease > 0 ==> len(b.nodes) <= old(len(b.nodes)) + b.maxnodeincrease

func (*tables).low(b, n) r
  reveal TS
  requires TI(b)
  requires RI(b)
  requires [C21] 0 <= n && n < tsize(b.@T)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  ensures RI(b)
  ensures r == lo(b.@T, n)
  ensures b.@mode == 0

func (*tables).high(b, n) r
  reveal TS
  requires TI(b)
  requires RI(b)
  requires [C21] 0 <= n && n < tsize(b.@T)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  ensures RI(b)
  ensures r == hi(b.@T, n)
  ensures b.@mode == 0

func (*tables).size(b) r
  reveal TS
  requires TI(b)
  requires RI(b)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode
  ensures RI(b)
  ensures r == tsize(b.@T) && r == len(b.nodes) && r <= 2147483648
  ensures b.@mode == 0

# ---- handing out a node
extern runtime.SetFinalizer(x, f)
  requires [C12] f == t.nodefinalizer && t.@mode == 2
  modifies t.@cnt
  ensures t.@cnt == store(old(t.@cnt), box(x), old(t.@cnt)[box(x)] + 1)

func (*tables).Retnode(b, n) r
  reveal TS RI RELY
  requires TI(b)
  requires RI(b)
  requires b.@pub
  requires 0 <= n && n < tsize(b.@T) ==> in(b.@T, n)
  modifies elems(b.nodes, refcou), b.@cnt, b.@mode, @r0, @c0, b.@L
  ghost unlock b.@L := store(b.@L, n, true)
  ensures TI(b)
  ensures RI(b)
  ensures r == nil <==> !(0 <= n && n < tsize(b.@T))
  ensures r != nil ==> *r == n
  ensures forall k :: {b.@L[k]} b.@L[k] <==> old(b.@L)[k] || (k == n && 2 <= k && k < tsize(b.@T))
