#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
K = ["hudd.go", "hkernel.go", "buddy.go", "bkernel.go"]
p("C01", "Canonical form: node equality is function equality",
  "In a BDD, every internal node tests a variable strictly before the variables tested in its two branches, its two branches are different nodes, and no two nodes share variable and branches. Consequently two nodes of the same BDD are Equal exactly when they denote the same Boolean function. This holds after every operation that is given valid nodes and (for Makecube) increasing variables, also when that operation reclaims nodes or grows the table.",
  ["inputs", "histories", "configurations"],
  "for every sequence of operations on a BDD, every pair of nodes it contains afterwards, and both implementations",
  "the tests compare a handful of results with Equal; uniqueness and ordering are invariants of the node table over every history of insertions, collections, resizes and rehashes",
  K + ["bdd.go"], [("makenode/nodehash/setnode/delnode", "hudd.go, hkernel.go"), ("makenode hash chains, gbc and noderesize rehash", "bkernel.go"), ("Equal", "bdd.go")],
  [("nodes", "table of (level, low, high)", "hudd.go/buddy.go tables"), ("unique / hash,next", "unicity table", "hudd.go/buddy.go")], ["Equal", "Allnodes", "Low", "High", "Label"])
p("C02", "Not, Apply and the derived connectives compute the truth tables",
  "For all nodes f, g of a BDD and each of the ten binary operators, Apply returns a node whose value under every assignment is the documented truth table applied to the values of f and g under that assignment; Not returns the complement. And and Or of any number of nodes (True and False when there is none), Imp and Equiv return the corresponding combination. The operands still denote what they denoted before.",
  ["inputs", "histories", "configurations"], "for every pair of Boolean functions over any number of variables, every operator, any state of caches and node table",
  "tests exercise and/or/diff on a few small functions; there are 2^2^n operands, terminal shortcuts for each operator and cache states to cover",
  ["operations.go", "operator.go", "bdd.go", "cache.go"], [("apply, not: Shannon recursion with terminal cases", "operations.go"), ("opres truth table", "operator.go"), ("And/Or/Imp/Equiv", "bdd.go")], observe=["Apply", "Not", "And", "Or", "Imp", "Equiv"])
p("C03", "Ite computes if-then-else",
  "For all nodes f, g, h of a BDD, Ite(f,g,h) returns a node whose value under every assignment is the value of g when f is true under it and the value of h otherwise.",
  ["inputs", "histories", "configurations"], "for every triple of functions and any cache/table state",
  "one test evaluates one identity on two cubes", ["operations.go", "cache.go"], [("ite, iteLow, iteHigh, min3", "operations.go"), ("matchite/setite", "cache.go")], observe=["Ite"])
p("C04", "Exist computes existential quantification",
  "For a node n and a varset node (a conjunction of positive variables, as built by Makeset, possibly empty), Exist(n, varset) returns a node that is true under an assignment exactly when n is true under some assignment that differs from it only on variables of varset. Quantifying over the empty set returns the function n itself and is not an error.",
  ["inputs", "histories", "configurations"], "for every function, every set of variables and any history of earlier quantifications on the same BDD",
  "tests use Exist only inside one model-checking example whose answer is compared by cardinality; the variable-set marking and the shared quantification cache depend on every earlier call",
  ["operations.go", "cache.go"], [("Exist, quant", "operations.go"), ("quantset2cache, quantsetID, quantlast, matchquant/setquant", "cache.go")], observe=["Exist"])
p("C05", "AppEx and AndExist compute quantified combinations",
  "For nodes f, g, an operator among and, xor, or, nand, and a varset node built as by Makeset (possibly empty), AppEx returns a node that is true under an assignment exactly when f op g is true under some assignment that differs from it only on variables of varset; AndExist is the case of and. Any other operator on a non-empty varset yields nil and an error.",
  ["inputs", "histories", "configurations"], "for every pair of functions, operator and variable set, and any history of earlier operations",
  "tests use only the conjunctive case on one family of relations; caches are shared between operators and variable sets",
  ["operations.go", "cache.go", "bdd.go"], [("AppEx, appquant", "operations.go"), ("matchappex/setappex, id", "cache.go")], observe=["AppEx", "AndExist"])
p("C06", "Replace computes the simultaneous variable substitution",
  "For a node n and a replacer built by NewReplacer for the same BDD, whenever Replace returns a node, its value under any assignment a is the value of n under the assignment obtained by giving each old variable the value a has on its new variable. If n depends on none of the (really new) new variables Replace succeeds; if it would have to merge two variables it returns nil and records an error, and never panics.",
  ["inputs", "histories", "configurations"], "for every function, every valid replacer (any permutation of the order between old and new variables) and any sequence of earlier replacements",
  "tests replace primed by unprimed neighbours only, never a pair that changes the variable order or clashes",
  ["operations.go", "replace.go", "cache.go"], [("Replace, replace, correctify", "operations.go"), ("replacer.Replace/Id", "replace.go"), ("matchreplace/setreplace", "cache.go")], observe=["Replace"])
p("C07", "NewReplacer accepts exactly the valid renamings",
  "NewReplacer returns an error exactly when the slices differ in length, an index is outside [0..Varnum), an index occurs twice in either slice, or a new variable is also an old variable that is sent elsewhere; it never panics and does not change the BDD. Otherwise the replacer maps each old variable to its new variable and leaves every other variable alone, and its identifier is different from that of every replacer created before.",
  ["inputs", "histories"], "for every pair of integer slices and every number of replacers created before (up to the documented limit)",
  "tests build two replacers from valid inputs and never pass an invalid one",
  ["replace.go"], [("NewReplacer", "replace.go"), ("_REPLACEID", "replace.go")], observe=["NewReplacer", "Replacer.Replace", "Replacer.Id"])
p("C08", "Satcount is the exact number of satisfying assignments",
  "For every valid node n, Satcount(n) equals the number of assignments of the BDD's Varnum variables under which n is true, computed without overflow for any number of variables.",
  ["inputs", "configurations"], "for every function over any number of variables (beyond 64 included)",
  "tests compare totals on three families of formulas; a wrong weight for a skipped level or a shared subgraph shows only on other shapes",
  ["operations.go"], [("Satcount, satcount memo", "operations.go")], observe=["Satcount"])
p("C09", "Allsat enumerates exactly the satisfying assignments",
  "Allsat calls its function on partial assignments (length Varnum, entries 0, 1 or -1 for don't care) such that every satisfying assignment of the node matches exactly one of them and no other assignment matches any, also when the function creates new nodes in the same BDD. If the function returns an error, it is not called again and Allsat returns that error; otherwise Allsat returns nil.",
  ["inputs", "histories"], "for every function, every callback behaviour and error position",
  "the check function in the tests discards its own result, no callback there ever fails, and only 4-variable functions are enumerated",
  ["operations.go"], [("Allsat, allsat, don't-care reset loops", "operations.go")], observe=["Allsat"])
p("C10", "Allnodes visits each reachable node exactly once",
  "Given one or more valid nodes, Allnodes calls its function exactly once for each internal node reachable from them, with the node's id, variable and branches; given none, exactly once for each node stored in the BDD including the two constants. It stops at the first error returned by the function and returns it, and in every case leaves the BDD as it found it.",
  ["inputs", "histories"], "for every set of roots, table content and error position",
  "tests count the visited nodes of one small BDD and never return an error from the callback, so leftover marks or duplicates elsewhere are not seen",
  ["operations.go"] + K, [("allnodes, allnodesfrom, markrec, unmarkall", "hudd.go, hkernel.go, buddy.go, bkernel.go")], observe=["Allnodes"])
p("C11", "Memory management never changes a live node",
  "Reclaiming unused nodes and growing the node table never reclaim, renumber or change the variable, branches or function of a node that is a variable or constant, that the user still references, that an operation in progress still uses, or that is reachable from such a node. New nodes are only ever placed in slots that hold no such node.",
  ["inputs", "histories", "configurations"], "for every operation at every point where a collection or a resize can happen, for all table sizes and growth parameters",
  "a collection at a particular recursive call needs a particular table size; tests hit a few such points by luck and check only final cardinalities",
  K + ["bdd.go", "operations.go"], [("gbc, markrec, noderesize", "hkernel.go, bkernel.go"), ("Initref/Pushref/Popref around recursive calls", "bdd.go, operations.go"), ("refcou, Retnode", "hkernel.go, bkernel.go")],
  [("refstack", "nodes used by the operation in progress", "bdd.go"), ("refcou", "number of external references", "hudd.go/buddy.go")])
p("C12", "External references are counted exactly",
  "A node stays protected from reclamation as long as the program holds at least one reference to it, however many references to it were created and dropped before; dropping a reference never affects another node. When no reference, protected node or running operation reaches a node any more, the next reclamation frees its slot.",
  ["inputs", "histories"], "for every sequence of reference creations and releases, including more simultaneous references than the counter can represent",
  "the counter saturates at 1023 and finalizers run at unpredictable times; no test holds more than a few references to a node",
  K, [("Retnode, nodefinalizer, _MAXREFCOUNT", "hkernel.go, bkernel.go, hudd.go, buddy.go"), ("gbc", "hkernel.go, bkernel.go")])
p("C13", "Operation caches are transparent",
  "A result found in an operation cache is the one recomputation would give: for every history of operations, operators, variable sets and replacers, cache size and cache ratio, reclamation and growth of the node table, a cache answers only for the very operands, operator, variable set or replacer it is asked about, and only with nodes still in the table. Every cache size and ratio that New accepts gives usable caches.",
  ["inputs", "histories", "configurations"], "for every sequence of operations on one BDD and every cache configuration",
  "a stale or confused entry needs a collision between particular node numbers after a particular history; the tests do not control either",
  ["cache.go", "bdd.go", "operations.go", "primes.go"], [("match*/set*", "cache.go"), ("cachereset/cacheresize called by Makenode", "bdd.go"), ("cacheinit, primeGte", "cache.go, primes.go")])
p("C14", "Invalid operands yield nil and an error, never a panic",
  "Given a nil node, a node number outside the table or a reclaimed node, every operation returns nil (or -1, zero or an error, according to its result type), leaves all other nodes unchanged and does not panic; likewise an unknown variable in Ithvar, NIthvar, Makecube or Makeset (which returns False, as documented), an operator Apply does not support, or slices of different lengths in Makecube. Except where the result itself is an error value, it also puts the BDD in an error state, which Errored and Error report from then on.",
  ["inputs"], "for every operation and every combination of invalid operands (release builds)",
  "no test passes an invalid operand",
  ["bdd.go", "operations.go", "errors.go"], [("checkptr, seterror", "bdd.go, errors.go")], observe=["Errored", "Error"])
p("C15", "Node table limits are honoured",
  "With Maxnodesize m > 0 the node table never grows beyond the larger of m and its initial size, and it never grows by more than Maxnodeincrease (when positive) at once. An operation for which there is no room returns nil, records an error, and leaves every existing node and later operation correct; without such limits operations on valid nodes do not fail.",
  ["inputs", "histories", "configurations"], "for every limit setting and every operation that runs into it at any point of its recursion",
  "no test sets a limit",
  K + ["config.go", "bdd.go"], [("noderesize", "hkernel.go, bkernel.go"), ("Maxnodesize, Maxnodeincrease, Minfreenodes", "config.go"), ("Makenode error cases", "bdd.go")])
p("C16", "Variables, cubes and decomposition",
  "Ithvar(i) and NIthvar(i) denote variable i and its negation, True, False and From the constants. Makeset denotes the conjunction of its variables (in any order, repeated or not) and Scanset returns those variables in increasing order; Makecube, given increasing variables, denotes the conjunction of the literals selected by the polarities. For an internal node n, Label, Low and High decompose it: n equals 'if variable Label(n) then High(n) else Low(n)'.",
  ["inputs", "configurations"], "for every variable, list of variables and polarity, and every node",
  "tests build a few sorted sets",
  ["bdd.go", "operations.go"], [("Ithvar, NIthvar, Label, Low, High, From", "bdd.go"), ("Makeset, Makecube, Scanset", "operations.go")])
p("C17", "New builds a correct BDD for every accepted configuration",
  "New fails with an error and a nil BDD exactly when the number of variables is not in [1..2097151]. Otherwise, for every combination of options, it returns a BDD that satisfies all the invariants other operations rely on, in which exactly the constants, each variable and its negation exist and are never reclaimed, and in which the options are in effect.",
  ["inputs", "configurations"], "for every number of variables and option values (that fit in memory)",
  "tests use a dozen configurations", ["hudd.go", "buddy.go", "config.go", "cache.go"], [("New, cacheinit, makeconfigs", "hudd.go, buddy.go, cache.go, config.go")])
p("C18", "Every table slot is either free or in use, and counted right",
  "At every moment between operations each slot of the node table is either an existing node or in the list of free slots, exactly once and never both, and the number of free and used slots reported by Stats is the true one. A table with a free slot never fails to create a node.",
  ["histories", "configurations"], "for every sequence of creations, reclamations and resizes",
  "a lost or doubly listed slot shows only after a particular later allocation; tests never compare the reported numbers",
  K, [("freepos, freenum, free list threaded through nodes", "hudd.go, hkernel.go, buddy.go, bkernel.go"), ("stats", "hudd.go, buddy.go")], observe=["Stats"])
p("C19", "Print and Dot show exactly the selected nodes",
  "Dot writes one vertex for each internal node that Allnodes would visit, with its variable and id, and one edge, dotted to the low branch and plain to the high branch, for each branch other than False, and nothing else besides the frame and the constant 1. Print writes one row (id, variable, low, high) for each such node in increasing order of id, or just True or False for a constant.",
  ["inputs"], "for every set of roots and table content",
  "no test reads the output",
  ["stdio.go"], [("Print, printSet, Dot", "stdio.go")])
p("C20", "References released by the Go runtime at any time do no harm",
  "The Go garbage collector may release references to nodes from its own goroutine at any moment, also in the middle of an operation: the accesses it makes to the node table are never concurrent with a conflicting access by the running operation, and neither side can deadlock.",
  ["schedules"], "for every interleaving of the finalizer goroutine with one goroutine that uses the BDD",
  "finalizers rarely run during the short tests and the race is a few instructions wide",
  K, [("tables lock, nodefinalizer, Retnode", "hudd.go, hkernel.go, buddy.go, bkernel.go")])
p("C21", "Operations on valid nodes terminate without panicking",
  "For every BDD and valid arguments, every operation terminates and neither indexes outside its tables nor dereferences nil nor panics, whatever collections, resizes, cache contents or limits it meets.",
  ["inputs", "histories", "configurations"], "for every operation, arguments, table and cache state (release builds)",
  "a test run shows termination and absence of panics for its own inputs only",
  ["operations.go", "bdd.go", "cache.go"] + K, [("recursion on strictly increasing variables", "operations.go"), ("bounds established by the table invariant", "hudd.go, buddy.go")])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
