# The node table of the buddy build: hash chains through the nodes, and mark bits in their levels.

ghostfield tables.@cd : (Array Int Int)
ghostfield tables.@ci : (Array Int (Array Int Int))
# the table just before a node is added
ghostfield tables.@t1 : Tab
modset [buddy] uniq: b.@cd, b.@ci, b.@t1, elems(b.nodes, hash), elems(b.nodes, next)
modset [buddy] nodemods: elems(b.nodes, refcou), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high), b.@cnt, b.@mode, @r0, @c0

guard [buddy] buddynode.refcou: if fin then t.@mode == 2 else t.@mode >= 1 || !t.@pub || t.@cnt[i] == 0
guard [buddy] buddynode.level: !fin
guard [buddy] buddynode.low: !fin
guard [buddy] buddynode.high: !fin
guard [buddy] buddynode.hash: !fin
guard [buddy] buddynode.next: !fin

# contents of the arrays of the node table
opaque [buddy] TS(t: tables) =
  len(t.nodes) == tsize(t.@T) && 2 <= len(t.nodes) && len(t.nodes) <= 2147483648
  && (forall i :: {lev(t.@T, i)} {t.nodes[i].level} 0 <= i && i < len(t.nodes) ==> t.nodes[i].level == lev(t.@T, i) || t.@marking && 2 <= i && in(t.@T, i) && t.nodes[i].level == lev(t.@T, i) + 2097152)
  && (forall i :: {lo(t.@T, i)} {t.nodes[i].low} 0 <= i && i < len(t.nodes) ==> t.nodes[i].low == lo(t.@T, i))
  && (forall i :: {hi(t.@T, i)} {t.nodes[i].high} 0 <= i && i < len(t.nodes) ==> t.nodes[i].high == hi(t.@T, i))
  && (forall i :: {lev(t.@T, i)} 0 <= i && i < len(t.nodes) ==> 0 <= lev(t.@T, i) && lev(t.@T, i) < 2097152)
  && (forall i :: {lo(t.@T, i)} 0 <= i && i < len(t.nodes) ==> -1 <= lo(t.@T, i) && lo(t.@T, i) < 2147483648)
  && (forall i :: {hi(t.@T, i)} 0 <= i && i < len(t.nodes) ==> 0 <= hi(t.@T, i) && hi(t.@T, i) < 2147483648)

# every slot is in use or in the list of free slots, exactly once
opaque [buddy] FL(t: tables) =
  0 <= t.freenum && t.freenum <= tsize(t.@T) && t.freepos == (if t.freenum == 0 then 0 else t.@ri[t.freenum])
  && (forall i :: {in(t.@T, i)} {t.@rk[i]} 2 <= i && i < tsize(t.@T) && !in(t.@T, i) ==> 1 <= t.@rk[i] && t.@rk[i] <= t.freenum && t.@ri[t.@rk[i]] == i
        && t.nodes[i].next == (if t.@rk[i] == 1 then 0 else t.@ri[t.@rk[i] - 1]))
  && (forall k :: {t.@ri[k]} 1 <= k && k <= t.freenum ==> 2 <= t.@ri[k] && t.@ri[k] < tsize(t.@T) && !in(t.@T, t.@ri[k]) && t.@rk[t.@ri[k]] == k)

# the bucket of a node
def [buddy] BK(T: Tab, x, m): Int = _PAIR(hi(T, x), _PAIR(lev(T, x), lo(T, x), m), m)
# The hash chains of a table of m slots contain exactly the nodes above n. d[x]: the number of nodes after
# x in its chain; ci[h][d]: the node of chain h with d nodes after it
opaque [buddy] HC(m, n, T: Tab, hs: (Array Int Int), nx: (Array Int Int), lw: (Array Int Int), cd: (Array Int Int), ci: (Array Int (Array Int Int))) =
  (forall x :: {nx[x]} {lw[x]} {lo(T, x)} n < x && x < m && lw[x] != -1 ==> 0 <= cd[x] && (cd[x] == 0 <==> nx[x] == 0))
  && (forall x :: {nx[x]} {lw[x]} {lo(T, x)} n < x && x < m && lw[x] != -1 && nx[x] != 0 ==> n < nx[x] && nx[x] < m && lw[nx[x]] != -1)
  && (forall x :: {nx[x]} {lw[x]} {lo(T, x)} n < x && x < m && lw[x] != -1 && nx[x] != 0 ==> BK(T, nx[x], m) == BK(T, x, m) && cd[nx[x]] == cd[x] - 1)
  && (forall x :: {nx[x]} {lw[x]} {lo(T, x)} n < x && x < m && lw[x] != -1 ==> hs[BK(T, x, m)] != 0 && cd[x] <= cd[hs[BK(T, x, m)]])
  && (forall x :: {nx[x]} {lw[x]} {lo(T, x)} n < x && x < m && lw[x] != -1 ==> ci[BK(T, x, m)][cd[x]] == x)
  && (forall h :: {hs[h]} 0 <= h && h < m && hs[h] != 0 ==> n < hs[h] && hs[h] < m && lw[hs[h]] != -1 && BK(T, hs[h], m) == h)
def [buddy] vHC(t: tables, n) = HC(len(t.nodes), n, t.@T, elems(t.nodes, hash), elems(t.nodes, next), elems(t.nodes, low), t.@cd, t.@ci)

# reference counts agree with the registered finalizers, and protect what the program holds
opaque [buddy] RI(t: tables) =
  let rc := elems(t.nodes, refcou);
  (forall k :: {rc[k]} {t.@cnt[k]} {t.@L[k]} 0 <= k && k < len(t.nodes) ==>
     0 <= rc[k] && rc[k] <= 1023
     && (rc[k] == 1023 || rc[k] == t.@cnt[k])
     && (rc[k] > 0 ==> in(t.@T, k)) && (t.@cnt[k] > 0 ==> rc[k] > 0)
     && (t.@L[k] ==> rc[k] > 0))
  && (forall k :: {t.@cnt[k]} t.@cnt[k] >= 0 && (k < 2 || len(t.nodes) <= k ==> t.@cnt[k] == 0))
  && (forall k :: {t.@L[k]} k < 0 || len(t.nodes) <= k ==> !t.@L[k])
  && rc[0] == 1023 && rc[1] == 1023

def [buddy] TIm(t: tables) = TS(t) && FL(t) && wf(t.@T) && SZ(t) && t.@mode == 0
def [buddy] TI(t: tables) = TIm(t) && vHC(t, 1) && !t.@marking

# room can be refused; the size of a table is a prime, and there may be none within the limits
def [buddy] limited(t: tables) = t.maxnodesize > 0 || t.minfreenodes < 0 || len(t.nodes) >= 2147483629 || t.maxnodeincrease > 0 && nxt(len(t.nodes) + 1) > len(t.nodes) + t.maxnodeincrease

func [buddy] (*tables).markrec(b, n)
  reveal TS MK
  requires TIm(b)
  requires b.@marking
  requires RI(b)
  requires [C21] n < tsize(b.@T)
  modifies elems(b.nodes, level)
  ensures TIm(b)
  ensures MK(b.@T, elems(b.nodes, level), n, old(elems(b.nodes, level)))
  decreases if n < 2 || !in(b.@T, n) then 0 else lev(b.@T, 0) - lev(b.@T, n)

func [buddy] (*tables).gbc(b, refstack)
  reveal TS FL RI RELY MK wf CM SWEEP SWEEPF HC
  groups tabs gc stack
  requires TI(b)
  requires RI(b)
  requires stkok(b.@T, SS(elems(refstack), len(refstack)))
  modifies $nodemods, $uniq, b.freenum, b.freepos, b.@T, b.@marking, b.history, elems(b.history), b.setfinalizers, b.calledfinalizers, b.@rk, b.@ri, @P
  ghost entry b.@marking := true
  ghost entry @P := lambda k :: b.nodes[k].refcou > 0
  loop 1
    invariant TIm(b) && RI(b) && b.@marking
    invariant CM(b.@T, elems(b.nodes, level), @P, SS(elems(refstack), len(refstack)))
    invariant forall i :: {refstack[i]} 0 <= i && i < $i && 2 <= refstack[i] ==> b.nodes[refstack[i]].level >= 2097152
  loop 2
    invariant TIm(b) && RI(b) && b.@marking
    invariant CM(b.@T, elems(b.nodes, level), @P, SS(elems(refstack), len(refstack)))
    invariant forall i :: {refstack[i]} 0 <= i && i < len(refstack) && 2 <= refstack[i] ==> b.nodes[refstack[i]].level >= 2097152
    invariant forall i :: {b.nodes[i].refcou} 2 <= i && i < $i && b.nodes[i].refcou > 0 ==> b.nodes[i].level >= 2097152
    invariant forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) ==> b.nodes[i].refcou <= old(elems(b.nodes, refcou))[i]
    invariant forall i :: {b.nodes[i].hash} 0 <= i && i < $i ==> b.nodes[i].hash == 0
  loop 3
    ghost loop b.@ri := store(b.@ri, b.freenum, b.freepos) when b.freenum > 0
    ghost loop b.@rk := store(b.@rk, b.freepos, b.freenum) when b.freenum > 0
    ghost loop b.@cd := store(b.@cd, n + 1, if b.nodes[n + 1].next == 0 then 0 else b.@cd[b.nodes[n + 1].next] + 1) when b.nodes[n + 1].low != -1
    ghost loop b.@ci := store(b.@ci, BK(b.@T, n + 1, len(b.nodes)), store(b.@ci[BK(b.@T, n + 1, len(b.nodes))], b.@cd[n + 1], n + 1)) when b.nodes[n + 1].low != -1
    invariant marked(b.@T, b.@L, SS(elems(refstack), len(refstack)), pre(elems(b.nodes, level)))
    invariant RI(b) && b.@mode == 0 && b.@marking
    invariant 1 <= n && n < len(b.nodes)
    invariant SWEEP(b, n, pre(elems(b.nodes, level)))
    invariant SWEEPF(b, n, pre(elems(b.nodes, level)))
    invariant vHC(b, n)
  ghost exit b.@marking := false
  ghost exit b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high))
  assert TS(b)
  assert forall k :: {in(b.@T, k)} in(b.@T, k) ==> old(in(b.@T, k)) && lev(b.@T, k) == old(lev(b.@T, k)) && lo(b.@T, k) == old(lo(b.@T, k)) && hi(b.@T, k) == old(hi(b.@T, k))
  assert forall k :: {in(b.@T, k)} in(b.@T, k) && 2 <= k ==> in(b.@T, lo(b.@T, k)) && in(b.@T, hi(b.@T, k))
  assert wf(b.@T)
  assert FL(b)
  assert vHC(b, 1)
  ensures TI(b)
  ensures RI(b)
  ensures pres(old(b.@T), b.@L, SS(old(elems(refstack)), len(refstack)), b.@T)
  ensures forall k :: {in(b.@T, k)} in(b.@T, k) ==> old(in(b.@T, k)) && lev(b.@T, k) == old(lev(b.@T, k)) && lo(b.@T, k) == old(lo(b.@T, k)) && hi(b.@T, k) == old(hi(b.@T, k))
  ensures [C12] forall n :: {in(b.@T, n)} in(b.@T, n) && 2 <= n ==> K(old(b.@T), @P, SS(old(elems(refstack)), len(refstack)), n)

# the sweep of a collection has treated the slots above n; A: the levels, with the marks, when it started
opaque [buddy] SWEEP(t: tables, n, A: (Array Int Int)) =
  (forall i :: {t.nodes[i].level} {A[i]} 0 <= i && i < len(t.nodes) ==> A[i] >= 0 && (mk2(A[i]) ==> 2 <= i && in(t.@T, i)) && t.nodes[i].level == (if i <= n then A[i] else lev(t.@T, i)) && A[i] == lev(t.@T, i) + (if mk2(A[i]) then 2097152 else 0))
  && (forall i :: {t.nodes[i].refcou} {A[i]} 2 <= i && i < len(t.nodes) && !mk2(A[i]) ==> t.nodes[i].refcou == 0)
  && (forall i :: {t.nodes[i].low} {lo(t.@T, i)} 0 <= i && i < len(t.nodes) ==> t.nodes[i].low == (if i <= n || mk2(A[i]) then lo(t.@T, i) else -1))
opaque [buddy] SWEEPF(t: tables, n, A: (Array Int Int)) =
  0 <= t.freenum && t.freenum < len(t.nodes) - n && t.freepos == (if t.freenum == 0 then 0 else t.@ri[t.freenum])
  && (forall i :: {A[i]} {t.@rk[i]} n < i && i < len(t.nodes) && !mk2(A[i]) ==> 1 <= t.@rk[i] && t.@rk[i] <= t.freenum && t.@ri[t.@rk[i]] == i
        && t.nodes[i].next == (if t.@rk[i] == 1 then 0 else t.@ri[t.@rk[i] - 1]))
  && (forall k :: {t.@ri[k]} 1 <= k && k <= t.freenum ==> n < t.@ri[k] && t.@ri[k] < len(t.nodes) && !mk2(A[t.@ri[k]]) && t.@rk[t.@ri[k]] == k)

# ---- growth
fun prv(Int) : Int
axiom prv_prime: forall s :: {prv(s)} s >= 3 ==> prime(prv(s)) && prv(s) % 2 == 1 && 3 <= prv(s) && prv(s) <= s && s < 2 * prv(s)
  && (prv(s) == 3 || prv(s) % 3 != 0) && (prv(s) == 5 || prv(s) % 5 != 0) && (prv(s) == 7 || prv(s) % 7 != 0) && (prv(s) == 11 || prv(s) % 11 != 0) && (prv(s) == 13 || prv(s) % 13 != 0)
axiom prv_max: forall s, p :: {prv(s), prime(p)} s >= 3 && prime(p) && p <= s ==> p <= prv(s)
func primeLte(s) r
  requires 3 <= s && s <= 1152921504606846976
  loop 1
    invariant prv(pre(src)) <= src && src <= pre(src) && src % 2 != 0
    invariant pre(src) == (if s % 2 == 0 then s - 1 else s)
    decreases src
  ensures r == prv(s)

func [buddy] (*tables).noderesize(b) r
  reveal TS FL RI RELY wf HC RESZF
  groups tabs
  requires TI(b)
  requires RI(b)
  modifies $nodemods, $uniq, b.nodes, b.freenum, b.freepos, b.@T, b.@rk, b.@ri
  loop 1
    invariant forall i :: {b.nodes[i].hash} 0 <= i && i < n ==> b.nodes[i].hash == 0
  loop 2
    invariant forall i :: {b.nodes[i].hash} 0 <= i && i < n ==> b.nodes[i].hash == 0
    invariant forall i :: {b.nodes[i].refcou} oldsize <= i && i < n ==> b.nodes[i].refcou == 0
    invariant forall i :: {b.nodes[i].refcou} 0 <= i && i < oldsize ==> b.nodes[i].refcou == pre(elems(b.nodes, refcou))[i]
    invariant forall i :: {b.nodes[i].level} 0 <= i && i < oldsize ==> b.nodes[i].level == lev(b.@T, i)
    invariant forall i :: {b.nodes[i].low} 0 <= i && i < oldsize ==> b.nodes[i].low == lo(b.@T, i)
    invariant forall i :: {b.nodes[i].high} 0 <= i && i < oldsize ==> b.nodes[i].high == hi(b.@T, i)
    invariant forall i :: {b.nodes[i].level} oldsize <= i && i < n ==> b.nodes[i].level == 0
    invariant forall i :: {b.nodes[i].low} oldsize <= i && i < n ==> b.nodes[i].low == -1
  loop 3
    ghost loop b.@ri := store(b.@ri, b.freenum, b.freepos) when b.freenum > 0
    ghost loop b.@rk := store(b.@rk, b.freepos, b.freenum) when b.freenum > 0
    ghost loop b.@cd := store(b.@cd, n + 1, if b.nodes[n + 1].next == 0 then 0 else b.@cd[b.nodes[n + 1].next] + 1) when b.nodes[n + 1].low != -1
    ghost loop b.@ci := store(b.@ci, BK(b.@T, n + 1, len(b.nodes)), store(b.@ci[BK(b.@T, n + 1, len(b.nodes))], b.@cd[n + 1], n + 1)) when b.nodes[n + 1].low != -1
    invariant 1 <= n && n < len(b.nodes)
    invariant RESZF(b, n)
    invariant vHC(b, n)
  ghost exit b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high)) when r == errResize
  assert TS(b)
  assert FL(b)
  assert wf(b.@T)
  ensures TI(b)
  ensures RI(b)
  ensures ext(old(b.@T), b.@T)
  ensures forall k :: {in(b.@T, k)} in(b.@T, k) ==> old(in(b.@T, k))
  ensures r == errMemory || r == errResize
  ensures arr(b.nodes) == old(arr(b.nodes)) || fresh(arr(b.nodes))
  ensures r == errResize ==> b.freenum > 0
  ensures r == errMemory ==> b.@T == old(b.@T) && b.nodes == old(b.nodes) && b.freenum == old(b.freenum)
  ensures r == errMemory ==> limited(b)
  ensures [C15] r == errResize && b.maxnodeincrease > 0 ==> len(b.nodes) <= old(len(b.nodes)) + b.maxnodeincrease

opaque [buddy] RESZF(t: tables, n) =
  0 <= t.freenum && t.freenum < len(t.nodes) - n && t.freepos == (if t.freenum == 0 then 0 else t.@ri[t.freenum])
  && (forall i :: {t.nodes[i].low} {t.@rk[i]} n < i && i < len(t.nodes) && t.nodes[i].low == -1 ==> 1 <= t.@rk[i] && t.@rk[i] <= t.freenum && t.@ri[t.@rk[i]] == i
        && t.nodes[i].next == (if t.@rk[i] == 1 then 0 else t.@ri[t.@rk[i] - 1]))
  && (forall k :: {t.@ri[k]} 1 <= k && k <= t.freenum ==> n < t.@ri[k] && t.@ri[k] < len(t.nodes) && t.nodes[t.@ri[k]].low == -1 && t.@rk[t.@ri[k]] == k)

func [buddy] (*tables).makenode(b, level, low, high, refstack) res, err
  groups stack tabs
  requires TI(b)
  requires RI(b)
  requires 0 <= level && level < lev(b.@T, 0)
  requires K(b.@T, b.@L, SS(elems(refstack), len(refstack)), low) && K(b.@T, b.@L, SS(elems(refstack), len(refstack)), high)
  requires stkok(b.@T, SS(elems(refstack), len(refstack)))
  requires ib(g(b.@T, low), level + 1) && ib(g(b.@T, high), level + 1)
  modifies $nodemods, $uniq, b.nodes, b.freenum, b.freepos, b.@T, b.history, elems(b.history), b.setfinalizers, b.calledfinalizers, b.@rk, b.@ri, @P, b.produced, b.@marking
  reveal TS FL HC RI wf
  loop 1
    invariant res == 0 || 2 <= res && in(b.@T, res) && BK(b.@T, res, len(b.nodes)) == hash && b.@ci[hash][b.@cd[res]] == res && 0 <= b.@cd[res]
    invariant forall x :: {lo(b.@T, x)} in(b.@T, x) && 2 <= x && lev(b.@T, x) == level && lo(b.@T, x) == low && hi(b.@T, x) == high ==> b.@ci[hash][b.@cd[x]] == x && 0 <= b.@cd[x]
    invariant forall x :: {lo(b.@T, x)} in(b.@T, x) && 2 <= x && lev(b.@T, x) == level && lo(b.@T, x) == low && hi(b.@T, x) == high ==> res != 0
    invariant forall x :: {lo(b.@T, x)} in(b.@T, x) && 2 <= x && lev(b.@T, x) == level && lo(b.@T, x) == low && hi(b.@T, x) == high ==> b.@cd[x] <= b.@cd[res]
    decreases if res == 0 then 0 else b.@cd[res] + 1
  ghost exit b.@t1 := b.@T
  ghost exit b.@cd := store(b.@cd, res, if b.nodes[res].next == 0 then 0 else b.@cd[b.nodes[res].next] + 1) when err != errMemory && !in(b.@T, res)
  ghost exit b.@ci := store(b.@ci, _PAIR(high, _PAIR(level, low, len(b.nodes)), len(b.nodes)), store(b.@ci[_PAIR(high, _PAIR(level, low, len(b.nodes)), len(b.nodes))], b.@cd[res], res)) when err != errMemory && !in(b.@T, res)
  ghost exit b.@T := mkTab(len(b.nodes), elems(b.nodes, level), elems(b.nodes, low), elems(b.nodes, high)) when err != errMemory && !in(b.@T, res)
  assert wf(b.@t1) && pres(old(b.@T), b.@L, SS(old(elems(refstack)), len(refstack)), b.@t1)
  assert in(b.@t1, low) && in(b.@t1, high) && low < 2147483648 && high < 2147483648 && (low != high ==> level < lev(b.@t1, low) && level < lev(b.@t1, high))
  assert tsize(b.@t1) == len(b.nodes) && tsize(b.@T) == len(b.nodes)
  assert forall i :: {lev(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> 0 <= lev(b.@t1, i) && lev(b.@t1, i) < 2097152
  assert forall i :: {lev(b.@T, i)} {lev(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> lev(b.@T, i) == (if i == res && err != errMemory && !in(b.@t1, res) then level else lev(b.@t1, i))
  assert forall i :: {lo(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> -1 <= lo(b.@t1, i) && lo(b.@t1, i) < 2147483648
  assert forall i :: {lo(b.@T, i)} {lo(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> lo(b.@T, i) == (if i == res && err != errMemory && !in(b.@t1, res) then low else lo(b.@t1, i))
  assert forall i :: {hi(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> 0 <= hi(b.@t1, i) && hi(b.@t1, i) < 2147483648
  assert forall i :: {hi(b.@T, i)} {hi(b.@t1, i)} 0 <= i && i < len(b.nodes) ==> hi(b.@T, i) == (if i == res && err != errMemory && !in(b.@t1, res) then high else hi(b.@t1, i))
  assert TS(b)
  assert ext(b.@t1, b.@T)
  assert wf(b.@T)
  assert FL(b)
  assert forall x :: {lo(b.@T, x)} {b.nodes[x].next} {b.nodes[x].low} 2 <= x && x < len(b.nodes) && (x != res || err == errMemory || in(b.@t1, res)) ==> BK(b.@T, x, len(b.nodes)) == BK(b.@t1, x, len(b.nodes))
  assert err != errMemory && !in(b.@t1, res) ==> BK(b.@T, res, len(b.nodes)) == _PAIR(high, _PAIR(level, low, len(b.nodes)), len(b.nodes)) && b.nodes[BK(b.@T, res, len(b.nodes))].hash == res
  assert vHC(b, 1)
  ensures TI(b)
  ensures RI(b)
  ensures pres(old(b.@T), b.@L, SS(old(elems(refstack)), len(refstack)), b.@T)
  ensures err == nil ==> ext(old(b.@T), b.@T)
  ensures err == nil || err == errMemory || err == errReset || err == errResize
  ensures err != errMemory ==> in(b.@T, res) && g(b.@T, res) == mk(level, g(old(b.@T), low), g(old(b.@T), high))
  ensures err == errMemory ==> res == -1 && limited(b)
  ensures arr(b.nodes) == old(arr(b.nodes)) || fresh(arr(b.nodes))
  ensures [C18] old(b.freenum) > 0 ==> err == nil && b.freenum >= old(b.freenum) - 1
  ensures [C17] old(b.freenum) > 0 ==> b.nodes == old(b.nodes) && (forall i :: {in(b.@T, i)} in(b.@T, i) ==> in(old(b.@T), i) || i == res)
  ensures [C17] old(b.freenum) > 0 && !b.@pub ==> (forall i :: {b.nodes[i].refcou} 0 <= i && i < len(b.nodes) && in(old(b.@T), i) ==> b.nodes[i].refcou == old(elems(b.nodes, refcou))[i])
  ensures [C15] b.maxnodeincrease > 0 ==> len(b.nodes) <= old(len(b.nodes)) + b.maxnodeincrease
