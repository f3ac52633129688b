From 6ca0d0774e702d7e9061a78a9a77689fef3c333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 01/14] fix: False minus a function is False in Apply with
 OPdiff

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 033a2ec55bae5b6ac0cb501ea41cfe9dfbd55f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 02/14] fix: Exist over an empty set of variables is not an
 error

---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..315c4a9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From 29dec74d5c9e820cfadd84045121363c4aa0fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 03/14] fix: Allsat stops and returns the error of its callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 315c4a9..89a6dd9 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 5aa5f19775b9e898fa0a89736756f39a50652d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 04/14] fix: no truncation of the index in Ithvar and NIthvar

---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From bd8a20c3df86b68fa06c47478dd9f910e1ebe6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 05/14] fix: nil operands are reported as errors instead of
 dereferenced in error messages

---
 operations.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/operations.go b/operations.go
index 89a6dd9..cced67b 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand n1 in call to Apply %s", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand n2 in call to Apply %s", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand f in call to Ite")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand g in call to Ite")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand h in call to Ite")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -445,19 +445,19 @@ func (b *BDD) quant(n, varset int) int {
 func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 	// FIXME: should check that op is a binary operation
 	if int(op) > 3 {
-		return b.seterror("operator %s not supported in call to AppEx")
+		return b.seterror("operator %s not supported in call to AppEx", op)
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand left in call to AppEx %s", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand right in call to AppEx %s", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -698,7 +698,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat; %s", b.error)
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From c539989440c180bc0123f9f94472a57ad90dbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 06/14] fix: NewReplacer rejects duplicate and out of range
 variables without panicking

---
 replace.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..de4b44b 100644
--- a/replace.go
+++ b/replace.go
@@ -74,14 +74,14 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 		res.image[k] = int32(k)
 	}
 	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
 		}
 		support[v] = true
 		res.image[v] = int32(newvars[k])
@@ -89,7 +89,12 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 			res.last = int32(v)
 		}
 	}
+	target := make([]bool, varnum)
 	for _, v := range newvars {
+		if target[v] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", v)
+		}
+		target[v] = true
 		if int(res.image[v]) != v {
 			return nil, fmt.Errorf("variable in newvars (%d) also occur in oldvars", v)
 		}
-- 
2.43.0


From c1ccff66f3f243c0a6c9b6c2ef71627084663083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 07/14] fix: Makeset and Makecube reject unknown variables,
 Makeset accepts variables in any order

---
 operations.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index cced67b..5736299 100644
--- a/operations.go
+++ b/operations.go
@@ -44,10 +44,15 @@ func (b *BDD) Makeset(varset []int) Node {
 	// }
 	// return res
 	res := 1
+	b.applycache.op = int(OPand)
 	b.Initref()
 	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
-		b.Pushref(res)
+		if varset[k] < 0 || varset[k] >= int(b.varnum) {
+			b.seterror("Unknown variable used (%d) in call to Makeset", varset[k])
+			return bddzero
+		}
+		// variables may come in any order, and more than once
+		res = b.Pushref(b.apply(b.varset[varset[k]][0], res))
 	}
 	b.Popref(len(varset))
 	return b.Retnode(res)
@@ -85,6 +90,9 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
+		if varset[k] < 0 || varset[k] >= int(b.varnum) {
+			return b.seterror("Unknown variable used (%d) in call to Makecube", varset[k])
+		}
 		if polarity[k] {
 			res = b.Makenode(int32(varset[k]), 0, res)
 		} else {
-- 
2.43.0


From 65985a87928ccce917e1ec9850b454ce85bc22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 08/14] fix: a saturated reference count is never decremented

---
 buddy.go | 5 ++++-
 hudd.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..435a144 100644
--- a/buddy.go
+++ b/buddy.go
@@ -126,7 +126,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a saturated count sticks: we no longer know how many references exist
+		if impl.nodes[*n].refcou != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index bd817d1..0098143 100644
--- a/hudd.go
+++ b/hudd.go
@@ -150,7 +150,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a saturated count sticks: we no longer know how many references exist
+		if impl.nodes[*n].refcou&_MAXREFCOUNT != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From 4e289a2b2063163c4a556a0e6a982a64f6608696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 09/14] fix: Retnode rejects the index just after the node
 table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..8495cd4 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 554c344..5643741 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 63fcd6bd87ef9e2c0378e1da420bbe6d5f28bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 10/14] fix: no overflow in noderesize with a huge
 Maxnodeincrease

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 8495cd4..a5d9ebe 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -122,7 +122,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
diff --git a/hkernel.go b/hkernel.go
index 5643741..06c17b6 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -165,7 +165,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
-- 
2.43.0


From a1f0b3ded79056ee2181ba785f456331fa1c2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 11/14] fix: honour Maxnodesize, and stop cleanly when there is
 no room for a node

---
 bdd.go        | 11 ++++++++++-
 bkernel.go    |  7 +++----
 buddy.go      |  1 +
 hkernel.go    |  5 ++---
 hudd.go       |  1 +
 operations.go | 22 ++++++++++++++++++++++
 6 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/bdd.go b/bdd.go
index 4b24291..646c4a4 100644
--- a/bdd.go
+++ b/bdd.go
@@ -152,6 +152,7 @@ type BDD struct {
 	varnum   int32    // Number of BDD variables.
 	varset   [][2]int // Set of variables used for Ithvar and NIthvar: we have a pair for each variable for its positive and negative occurrence
 	refstack []int    // Internal node reference stack, used to avoid collecting nodes while they are being processed.
+	failed   bool     // Set when the current operation cannot be completed; the remaining computation is cut short.
 	error             // Error status: we use nil Nodes to signal a problem and store the error in this field. This help chain operations together.
 	caches            // Set of caches used for the operations in the BDD
 	*tables           // Underlying struct that encapsulates the list of nodes
@@ -167,6 +168,9 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if b.failed || low < 0 || high < 0 {
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
@@ -183,7 +187,11 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
-	return res
+	// we could not find room for the node, but we may have reclaimed others
+	b.cachereset()
+	b.failed = true
+	b.seterror("%s", err)
+	return -1
 }
 
 // caches is a collection of caches used for operations
@@ -202,6 +210,7 @@ type caches struct {
 // Initref in a function that creates new nodes.
 func (b *BDD) Initref() {
 	b.refstack = b.refstack[:0]
+	b.failed = false
 }
 
 // Pushref is a kernel function of the BDD package. Use it at your own risk.
diff --git a/bkernel.go b/bkernel.go
index a5d9ebe..b216d0e 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -78,11 +78,10 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
 		// Panic if we still have no free positions after all this
 		if b.freepos == 0 {
diff --git a/buddy.go b/buddy.go
index 435a144..aec533a 100644
--- a/buddy.go
+++ b/buddy.go
@@ -95,6 +95,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
 	for k := range impl.nodes {
diff --git a/hkernel.go b/hkernel.go
index 06c17b6..1c2c32b 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -70,9 +70,8 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
diff --git a/hudd.go b/hudd.go
index 0098143..6f63191 100644
--- a/hudd.go
+++ b/hudd.go
@@ -95,6 +95,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	// initializing the list of nodes
 	nodesize := config.nodesize
 	impl.nodes = make([]huddnode, nodesize)
diff --git a/operations.go b/operations.go
index 5736299..2395b6d 100644
--- a/operations.go
+++ b/operations.go
@@ -119,6 +119,9 @@ func (b *BDD) Not(n Node) Node {
 }
 
 func (b *BDD) not(n int) int {
+	if b.failed {
+		return -1
+	}
 	if n == 0 {
 		return 1
 	}
@@ -168,6 +171,9 @@ func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 }
 
 func (b *BDD) apply(left int, right int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.applycache.op) {
 	case OPand:
 		if left == right {
@@ -363,6 +369,9 @@ func min3(p, q, r int32) int32 {
 }
 
 func (b *BDD) ite(f, g, h int) int {
+	if b.failed {
+		return -1
+	}
 	switch {
 	case f == 1:
 		return g
@@ -424,6 +433,9 @@ func (b *BDD) Exist(n, varset Node) Node {
 }
 
 func (b *BDD) quant(n, varset int) int {
+	if b.failed {
+		return -1
+	}
 	if (n < 2) || (b.level(n) > b.quantlast) {
 		return n
 	}
@@ -485,6 +497,9 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 }
 
 func (b *BDD) appquant(left, right, varset int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.appexcache.op) {
 	case OPand:
 		if left == 0 || right == 0 {
@@ -611,6 +626,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 }
 
 func (b *BDD) replace(n int, r Replacer) int {
+	if b.failed {
+		return -1
+	}
 	image, ok := r.Replace(b.level(n))
 	if !ok {
 		return n
@@ -626,12 +644,16 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
+	if b.failed {
+		return -1
+	}
 	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
 	}
 
 	if (level == b.level(low)) || (level == b.level(high)) {
+		b.failed = true
 		b.seterror("error in replace level (%d) == low (%d:%d) or high (%d:%d)", level, low, b.level(low), high, b.level(high))
 		return -1
 	}
-- 
2.43.0


From 7a5baf8e72b0c696f61849bfc5af1855cabf6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 12/14] fix: reference counters are only accessed under the
 lock shared with finalizers

---
 bkernel.go | 13 ++++++++++---
 buddy.go   | 10 +++++++---
 hkernel.go | 18 ++++++++++++++----
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index b216d0e..acd8f63 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -133,9 +135,11 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.Lock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
@@ -217,7 +221,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.RLock()
+		refcou := b.nodes[k].refcou
+		b.RUnlock()
+		if refcou > 0 {
 			b.markrec(k)
 		}
 		b.nodes[k].hash = 0
@@ -257,8 +264,8 @@ func (b *tables) markrec(n int) {
 }
 
 func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
+	for k := range b.nodes {
+		if k < 2 || !b.ismarked(k) || (b.nodes[k].low == -1) {
 			continue
 		}
 		b.unmarknode(k)
diff --git a/buddy.go b/buddy.go
index aec533a..11ec880 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	sync.RWMutex              // Protects the reference counters (refcou), that are also updated by finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -121,6 +123,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.Lock()
+		defer impl.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
@@ -201,9 +205,9 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	for k, v := range b.nodes {
-		if v.low != -1 {
-			if err := f(k, int(v.level), v.low, v.high); err != nil {
+	for k := range b.nodes {
+		if b.nodes[k].low != -1 {
+			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
 				return err
 			}
 		}
diff --git a/hkernel.go b/hkernel.go
index 1c2c32b..a05d11f 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -118,7 +120,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.RLock()
+		refcou := b.nodes[k].refcou
+		b.RUnlock()
+		if refcou > 0 {
 			b.markrec(k)
 		}
 	}
@@ -131,7 +136,10 @@ func (b *tables) gbc(refstack []int) {
 		if b.ismarked(n) && (b.nodes[n].low != -1) {
 			b.unmarknode(n)
 		} else {
-			b.delnode(b.nodes[n])
+			b.RLock()
+			hn := b.nodes[n]
+			b.RUnlock()
+			b.delnode(hn)
 			b.nodes[n].low = -1
 			b.nodes[n].high = b.freepos
 			b.freepos = n
@@ -175,9 +183,11 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.Lock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
@@ -208,8 +218,8 @@ func (b *tables) markrec(n int) {
 }
 
 func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
+	for k := range b.nodes {
+		if k < 2 || !b.ismarked(k) || (b.nodes[k].low == -1) {
 			continue
 		}
 		b.unmarknode(k)
-- 
2.43.0


From 28ca09f7d0f1484141237bf4c363efd59e311ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 13/14] fix: Allsat keeps its node alive while it calls a
 function that may create nodes

---
 operations.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 2395b6d..e140322 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -736,7 +737,10 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	}
 	// the function does not create new nodes, so we do not need to take care of
 	// possible resizing
-	return b.allsat(*n, prof, f)
+	err := b.allsat(*n, prof, f)
+	// f may create nodes, and therefore trigger a garbage collection
+	runtime.KeepAlive(n)
+	return err
 }
 
 func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
-- 
2.43.0


From 6337911105b419599bb40e2c1d37c9a667b6b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 14/14] fix: And and Or report an invalid node when it is the
 only operand

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index 646c4a4..b9840e3 100644
--- a/bdd.go
+++ b/bdd.go
@@ -326,6 +326,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -338,6 +341,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0

