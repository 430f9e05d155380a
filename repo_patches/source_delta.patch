From b5858eb69a49a5c4767858eb7aa1cbd138658863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:04 +0000
Subject: [PATCH 01/15] =?UTF-8?q?fix:=20ZDD=20intersect=20with=20the=20bas?=
 =?UTF-8?q?e=20family=20{=E2=88=85}=20keeps=20only=20the=20empty=20set?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

intersect({∅}, G) returned G (and intersect(F, {∅}) returned F), so e.g.
{∅} ∩ {{x}} was {{x}} instead of the empty family.
---
 bddcore/src/zdd_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..7677626 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,16 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            // {∅} ∩ g keeps ∅ only if g contains it, i.e. follow the 0-edges.
+            (Node::One, Node::One) => self.one(),
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From bad9d010825d3563d31ed5fa7812ef68c14648d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:04 +0000
Subject: [PATCH 02/15] fix: ZDD divide computes the weak-division quotient
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

{∅}/G returned G, elements of F above G's top were dropped from the quotient,
and a divisor element that F never mentions gave undet instead of the empty
family; e.g. {{x,y}}/{{x}} (y above x) was empty instead of {{y}}.
---
 bddcore/src/zdd_ops.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 7677626..cec0dc8 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -235,17 +235,23 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            // g has a non-empty member, which no subset of {∅} can contain.
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                // f's top element is free in g: it may or may not be in the quotient.
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                // Some member of g has an element no member of f has.
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From bf88fd89ae4e36e031a17a385cdd6330056b0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 03/15] fix: undet_boolean returns the undetermined terminal of
 the boolean forest

It tagged the value forest's undet id (0) as boolean, which is boolean Zero,
so undet_boolean() was False and is_undet() on it was false.
---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From dc1dca1884efcf50b28f31d9f3b58650293a6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 04/15] fix: MTMDD2 lte is 'less than or equal', not 'less
 than'

Unless f and g were equal everywhere, lte(f, g) returned lt(f, g): for a
variable x with states 0..2, x <= 1 was false at x = 1.
---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..0e85dd4 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resulteq, resultlt))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From e734d3b741b0bcf22dd665527fdcac91f02093d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 05/15] fix: boolean mdd_count memoizes per (node, level)

The memo table was keyed on the node only, so a node reached at different
levels (an edge skipping variables) reused the count of another level and the
result was wrong, e.g. the terminals shared by all levels.
---
 mss/src/mdd_count.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..7f77b41 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,8 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    // The same node is counted at several levels when edges skip variables.
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From e9ef8ae61a08d01f770de371a4a4a9e553bc206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 06/15] fix: mdd_count of a constant honours the requested
 values

For a terminal root mdd_count returned 1 whatever `ss` was, so
mdd_extract(ss).len() said 1 while the iterator yielded nothing.
---
 mss/src/mdd_count.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 7f77b41..a6f4f44 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,8 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                // Terminal root: one (empty) assignment iff its value is in `ss`.
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +130,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From 2b838ecb74fb7d8fff2046d2f149c8b9b1f36da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 07/15] fix: rpn reports too few operands as Err instead of
 panicking

The documented contract is Err when the expression does not reduce to exactly
one node; an operator short of operands (e.g. "x &" or "x +") panicked on the
empty stack instead.
---
 bss/src/bdd.rs | 20 ++++++++--------
 mss/src/mdd.rs | 64 +++++++++++++++++++++++++-------------------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..880d17b 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -276,32 +276,32 @@ impl BddMgr {
                 }
                 "&" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.and(left, right));
                 }
                 "|" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.or(left, right));
                 }
                 "^" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.xor(left, right));
                 }
                 "~" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let node = stack.pop().unwrap();
+                    let node = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.not(node));
                 }
                 "?" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let else_ = stack.pop().unwrap();
-                    let then = stack.pop().unwrap();
-                    let cond = stack.pop().unwrap();
+                    let else_ = stack.pop().ok_or("Invalid expression")?;
+                    let then = stack.pop().ok_or("Invalid expression")?;
+                    let cond = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.ite(cond, then, else_));
                 }
                 _ if token.starts_with("save(") && token.ends_with(")") => {
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..92a26f4 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -301,113 +301,113 @@ where
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.add(a, b);
                     stack.push(tmp);
                 }
                 "-" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.sub(a, b);
                     stack.push(tmp);
                 }
                 "*" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.mul(a, b);
                     stack.push(tmp);
                 }
                 "/" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.div(a, b);
                     stack.push(tmp);
                 }
                 "min" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.min(a, b);
                     stack.push(tmp);
                 }
                 "max" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.max(a, b);
                     stack.push(tmp);
                 }
                 "==" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.eq(a, b);
                     stack.push(tmp);
                 }
                 "!=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.neq(a, b);
                     stack.push(tmp);
                 }
                 "<" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lt(a, b);
                     stack.push(tmp);
                 }
                 "<=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lte(a, b);
                     stack.push(tmp);
                 }
                 ">" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gt(a, b);
                     stack.push(tmp);
                 }
                 ">=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gte(a, b);
                     stack.push(tmp);
                 }
                 "&&" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.and(a, b);
                     stack.push(tmp);
                 }
                 "||" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.or(a, b);
                     stack.push(tmp);
                 }
                 "!" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let a = stack.pop().unwrap();
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.not(a);
                     stack.push(tmp);
                 }
                 "?" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let c = stack.pop().unwrap();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let c = stack.pop().ok_or("Invalid expression")?;
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.ite(a, b, c);
                     stack.push(tmp);
                 }
-- 
2.43.0


From ffb9ea84d6e5d40e3dadcb45e07c8bd5f1fc9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 08/15] fix: minpath/mincut reuse the ZDD headers of earlier
 calls

Every minpath/mincut call created new headers in the destination ZDD, so two
equal families got different nodes (ZddNode::eq false) and headers piled up
with every call.
---
 bss/src/zdd_convert.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..9b24366 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,14 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    // Reuse the header an earlier conversion made for this variable:
+                    // a fresh one would give equal families different nodes.
+                    let h = (0..dst.size().0)
+                        .find(|h| {
+                            let d = dst.get_header(h).unwrap();
+                            d.level() == header.level() && d.label() == header.label()
+                        })
+                        .unwrap_or_else(|| dst.create_header(header.level(), header.label()));
                     zh.insert(shid, h);
                     h
                 }
-- 
2.43.0


From b85f5cb0dc71fad1f33845b3039fda74f16848b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 09/15] fix: MSS minpath/mincut reuse the ZMDD headers of
 earlier calls

Every minpath/mincut call created new headers in the destination ZMDD, so two
equal families got different nodes and headers piled up with every call.
---
 mss/src/zmdd_convert.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..4580c79 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,14 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // Reuse the header an earlier conversion made for this variable: a fresh
+            // one would give equal families different nodes.
+            let h = (0..dst.size().0)
+                .find(|h| {
+                    let d = dst.get_header(h).unwrap();
+                    d.level() == level && d.label() == label && d.edge_num() == edge_num
+                })
+                .unwrap_or_else(|| dst.create_header(level, label, edge_num));
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0


From a754a1c0a919f53a17a35babf1ec7f12b8a40502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:17 +0000
Subject: [PATCH 10/15] sim hooks: guarded (--cfg relib_sim) seam for
 memo-table faults

Off by default; no behaviour change without the flag.
---
 bddcore/src/lib.rs          |  3 +++
 bddcore/src/zdd.rs          |  8 +++++++
 common/src/compute_cache.rs | 16 ++++++++++++++
 common/src/lib.rs           |  5 +++++
 common/src/sim.rs           | 43 +++++++++++++++++++++++++++++++++++++
 5 files changed, 75 insertions(+)
 create mode 100644 common/src/sim.rs

diff --git a/bddcore/src/lib.rs b/bddcore/src/lib.rs
index c83e4f9..fc6f1d0 100644
--- a/bddcore/src/lib.rs
+++ b/bddcore/src/lib.rs
@@ -24,6 +24,9 @@
 //! Part of the Rust engine behind the
 //! [`relibmss`](https://github.com/MssReliab/relibmss) Python package.
 
+// `relib_sim` is a plain --cfg flag, unknown to cargo's check-cfg.
+#![allow(unexpected_cfgs)]
+
 pub mod nodes;
 
 pub mod bdd;
diff --git a/bddcore/src/zdd.rs b/bddcore/src/zdd.rs
index c806b1c..e8bac46 100644
--- a/bddcore/src/zdd.rs
+++ b/bddcore/src/zdd.rs
@@ -225,12 +225,20 @@ impl ZddManager {
     /// Look up a memoized result. Casts the u32-stored value back to NodeId.
     #[inline]
     pub(crate) fn cache_get(&self, key: &(ZddOperation, u32, u32)) -> Option<NodeId> {
+        #[cfg(relib_sim)]
+        if common::sim::forget() {
+            return None;
+        }
         self.cache.get(key).map(|&v| v as NodeId)
     }
 
     /// Memoize a result, storing it narrowed to u32.
     #[inline]
     pub(crate) fn cache_put(&mut self, key: (ZddOperation, u32, u32), val: NodeId) {
+        #[cfg(relib_sim)]
+        if common::sim::lose() {
+            return;
+        }
         self.cache.insert(key, val as u32);
     }
 
diff --git a/common/src/compute_cache.rs b/common/src/compute_cache.rs
index 1c9801d..12d35dc 100644
--- a/common/src/compute_cache.rs
+++ b/common/src/compute_cache.rs
@@ -41,6 +41,10 @@ impl Default for ComputeCache {
 
 impl ComputeCache {
     pub fn new() -> Self {
+        #[cfg(relib_sim)]
+        if let Some(bits) = crate::sim::hooks().init_bits {
+            return Self::with_bits(bits);
+        }
         Self::with_bits(INIT_BITS)
     }
 
@@ -61,6 +65,10 @@ impl ComputeCache {
 
     #[inline]
     pub fn get(&self, k0: u32, k1: u32, k2: u32) -> Option<u32> {
+        #[cfg(relib_sim)]
+        if crate::sim::forget() {
+            return None;
+        }
         let s = &self.slots[self.index(k0, k1, k2)];
         if s[3] != EMPTY && s[0] == k0 && s[1] == k1 && s[2] == k2 {
             Some(s[3])
@@ -71,6 +79,10 @@ impl ComputeCache {
 
     #[inline]
     pub fn put(&mut self, k0: u32, k1: u32, k2: u32, val: u32) {
+        #[cfg(relib_sim)]
+        if crate::sim::lose() {
+            return;
+        }
         // Keep the load factor under 3/4 so collisions (= lost memo entries)
         // stay rare, by doubling (and rehashing) up to the cap.
         if self.len * 4 >= self.slots.len() * 3 {
@@ -91,6 +103,10 @@ impl ComputeCache {
 
     fn grow(&mut self) {
         let bits = self.slots.len().trailing_zeros() + 1;
+        #[cfg(relib_sim)]
+        if crate::sim::hooks().max_bits.is_some_and(|m| bits > m) {
+            return;
+        }
         if bits > MAX_BITS {
             return; // at the ceiling: stay this size, tolerate more collisions
         }
diff --git a/common/src/lib.rs b/common/src/lib.rs
index 258e472..8bd3ad9 100644
--- a/common/src/lib.rs
+++ b/common/src/lib.rs
@@ -26,10 +26,15 @@
 //! Part of the Rust engine behind the
 //! [`relibmss`](https://github.com/MssReliab/relibmss) Python package.
 
+// `relib_sim` is a plain --cfg flag, unknown to cargo's check-cfg.
+#![allow(unexpected_cfgs)]
+
 pub mod common;
 pub mod compute_cache;
 pub mod dot;
 pub mod nodes;
+#[cfg(relib_sim)]
+pub mod sim;
 
 pub mod prelude {
     pub use std::ops::Index;
diff --git a/common/src/sim.rs b/common/src/sim.rs
new file mode 100644
index 0000000..d0a83bd
--- /dev/null
+++ b/common/src/sim.rs
@@ -0,0 +1,43 @@
+//! Simulation seam, compiled only with `--cfg relib_sim` (off by default).
+//!
+//! The memo tables behind `apply` are a hint that may forget anything at any
+//! time. Under the simulator these hooks decide, deterministically, when an
+//! entry is forgotten (`cache_get`), when a store is lost (`cache_put`) and how
+//! large the tables are. A hook may also panic, which models an operation that
+//! is cut short. Without installed hooks everything behaves as in a normal build.
+
+use std::cell::Cell;
+
+#[derive(Clone, Copy, Default)]
+pub struct Hooks {
+    /// Called on every memo lookup; `true` forces a miss.
+    pub cache_get: Option<fn() -> bool>,
+    /// Called on every memo store; `true` loses the store.
+    pub cache_put: Option<fn() -> bool>,
+    /// Overrides the initial size (log2) of direct-mapped tables.
+    pub init_bits: Option<u32>,
+    /// Overrides the growth ceiling (log2) of direct-mapped tables.
+    pub max_bits: Option<u32>,
+}
+
+thread_local! {
+    static HOOKS: Cell<Hooks> = const {
+        Cell::new(Hooks { cache_get: None, cache_put: None, init_bits: None, max_bits: None })
+    };
+}
+
+pub fn install(hooks: Hooks) {
+    HOOKS.with(|h| h.set(hooks));
+}
+
+pub fn hooks() -> Hooks {
+    HOOKS.with(|h| h.get())
+}
+
+pub fn forget() -> bool {
+    hooks().cache_get.is_some_and(|f| f())
+}
+
+pub fn lose() -> bool {
+    hooks().cache_put.is_some_and(|f| f())
+}
-- 
2.43.0


From 74e4a7155a0b0d9f6ea985267fe8d0663c5241c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 11/15] fix: grow the computed table under eviction pressure

A recursion that keeps overwriting its own memo entries recomputes and re-inserts
them without raising the occupancy, so the table never grew and an apply on two
diagrams of under 1000 nodes each (8-state variables, 30 levels) did not finish.
---
 common/src/compute_cache.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/src/compute_cache.rs b/common/src/compute_cache.rs
index 12d35dc..acf70e6 100644
--- a/common/src/compute_cache.rs
+++ b/common/src/compute_cache.rs
@@ -31,6 +31,8 @@ pub struct ComputeCache {
     slots: Vec<[u32; 4]>,
     mask: usize,
     len: usize,
+    /// Entries overwritten by another key since the last resize, clear or collection.
+    evicted: usize,
 }
 
 impl Default for ComputeCache {
@@ -50,7 +52,7 @@ impl ComputeCache {
 
     fn with_bits(bits: u32) -> Self {
         let n = 1usize << bits;
-        Self { slots: vec![[0, 0, 0, EMPTY]; n], mask: n - 1, len: 0 }
+        Self { slots: vec![[0, 0, 0, EMPTY]; n], mask: n - 1, len: 0, evicted: 0 }
     }
 
     #[inline]
@@ -84,8 +86,10 @@ impl ComputeCache {
             return;
         }
         // Keep the load factor under 3/4 so collisions (= lost memo entries)
-        // stay rare, by doubling (and rehashing) up to the cap.
-        if self.len * 4 >= self.slots.len() * 3 {
+        // stay rare, by doubling (and rehashing) up to the cap. Overwritten entries
+        // count too: a recursion that keeps losing its memo entries recomputes
+        // (and re-inserts) them without ever raising the occupancy.
+        if (self.len + self.evicted) * 4 >= self.slots.len() * 3 {
             self.grow();
         }
         self.put_nogrow(k0, k1, k2, val);
@@ -97,6 +101,8 @@ impl ComputeCache {
         let s = &mut self.slots[i];
         if s[3] == EMPTY {
             self.len += 1;
+        } else if s[..3] != [k0, k1, k2] {
+            self.evicted += 1;
         }
         *s = [k0, k1, k2, val];
     }
@@ -124,6 +130,7 @@ impl ComputeCache {
     /// must be invalidated. `k1`/`k2` are operand ids (`k2 == 0` for unary ops,
     /// the always-live zero terminal); `val` is the result id.
     pub fn retain_live(&mut self, live: &[bool]) {
+        self.evicted = 0;
         for s in &mut self.slots {
             if s[3] != EMPTY {
                 let (f, g, v) = (s[1] as usize, s[2] as usize, s[3] as usize);
@@ -139,6 +146,7 @@ impl ComputeCache {
     /// also a node id (e.g. a ternary `ite(f,g,h)` cache keyed `(f,g,h)`), not an
     /// operation code. All three key words and the result are liveness-checked.
     pub fn retain_live3(&mut self, live: &[bool]) {
+        self.evicted = 0;
         for s in &mut self.slots {
             if s[3] != EMPTY {
                 let (f, g, h, v) = (s[0] as usize, s[1] as usize, s[2] as usize, s[3] as usize);
@@ -155,6 +163,7 @@ impl ComputeCache {
             s[3] = EMPTY;
         }
         self.len = 0;
+        self.evicted = 0;
     }
 
     #[inline]
-- 
2.43.0


From 74eac95410b03d7f62a9c9f609d26a6a98affd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 12/15] fix: satisfying-assignment counts overflowed on skipped
 levels although the count fits

---
 bss/src/bdd_count.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/bss/src/bdd_count.rs b/bss/src/bdd_count.rs
index de01ee9..d24b325 100644
--- a/bss/src/bdd_count.rs
+++ b/bss/src/bdd_count.rs
@@ -1,15 +1,13 @@
 use std::ops::{Add, Mul};
 use bddcore::prelude::*;
 
-fn power<T>(x: T, n: usize) -> T
+// Multiplies `count` by 2 for each skipped level. Starting from the count (not from
+// 2^levels) stays in range whenever the result does: a zero count remains zero.
+fn scale<T>(count: T, levels: usize) -> T
 where
-    T: Mul<Output = T> + From<u32> + Clone,
+    T: Mul<Output = T> + From<u32>,
 {
-    let mut result = T::from(1);
-    for _ in 0..n {
-        result = result * x.clone();
-    }
-    result
+    (0..levels).fold(count, |x, _| x * T::from(2))
 }
 
 pub fn node_count<T>(
@@ -69,21 +67,12 @@ where
         Node::NonTerminal(fnode) => {
             let mut result = T::from(0);
             let current_level = dd.level(&node).unwrap();
-            if let Some(next_level) = dd.level(&fnode.edge(0)) {
-                result = result
-                    + power(T::from(2), current_level - next_level - 1)
-                        * bdd_count(dd, ss, fnode.edge(0), cache);
-            } else {
-                result =
-                    result + power(T::from(2), current_level) * bdd_count(dd, ss, fnode.edge(0), cache);
-            }
-            if let Some(next_level) = dd.level(&fnode.edge(1)) {
-                result = result
-                    + power(T::from(2), current_level - next_level - 1)
-                        * bdd_count(dd, ss, fnode.edge(1), cache);
-            } else {
-                result =
-                    result + power(T::from(2), current_level) * bdd_count(dd, ss, fnode.edge(1), cache);
+            for edge in [fnode.edge(0), fnode.edge(1)] {
+                let skipped = match dd.level(&edge) {
+                    Some(next_level) => current_level - next_level - 1,
+                    None => current_level,
+                };
+                result = result + scale(bdd_count(dd, ss, edge, cache), skipped);
             }
             result
         }
-- 
2.43.0


From 4c46cbcfe036101c2da6e67e5cb740c3e933d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 13/15] fix: path enumerations expanded subdiagrams that yield
 nothing (exponential work between items)

---
 bss/src/bdd_path.rs | 26 ++++++++++++++++++++
 mss/src/mdd_path.rs | 59 +++++++++++++++++++++++++++++++++++++++++++++
 mss/src/zmdd.rs     | 30 +++++++++++++++++++++++
 3 files changed, 115 insertions(+)

diff --git a/bss/src/bdd_path.rs b/bss/src/bdd_path.rs
index ba3de26..de6c6e3 100644
--- a/bss/src/bdd_path.rs
+++ b/bss/src/bdd_path.rs
@@ -13,6 +13,27 @@ pub struct BddPath {
     node: BddNode,
     labels: Vec<String>,
     ss: Vec<bool>,
+    productive: BddHashMap<NodeId, bool>,
+}
+
+/// Records for every node below `node` whether an outcome in `ss` can be reached from it,
+/// so that the enumeration does not expand subdiagrams that yield nothing.
+fn mark(dd: &BddManager, node: NodeId, ss: &[bool], productive: &mut BddHashMap<NodeId, bool>) -> bool {
+    if let Some(&x) = productive.get(&node) {
+        return x;
+    }
+    let result = match dd.get_node(&node).unwrap() {
+        Node::Zero => ss.contains(&false),
+        Node::One => ss.contains(&true),
+        Node::Undet => false,
+        Node::NonTerminal(fnode) => {
+            let low = mark(dd, fnode.edge(0), ss, productive);
+            let high = mark(dd, fnode.edge(1), ss, productive);
+            low || high
+        }
+    };
+    productive.insert(node, result);
+    result
 }
 
 impl BddPath {
@@ -31,12 +52,16 @@ impl BddPath {
             labels[i] = value;
         }
 
+        let mut productive = BddHashMap::default();
+        mark(&dd.borrow(), node.get_id(), &ss, &mut productive);
+
         BddPath {
             next_stack,
             path: Vec::new(),
             node,
             labels,
             ss,
+            productive,
         }
     }
 
@@ -52,6 +77,7 @@ impl Iterator for BddPath {
         let dd = self.node.get_mgr();
         while let Some(stackvalue) = self.next_stack.pop() {
             match stackvalue {
+                BddStackValue::Node(_, nodeid) if !self.productive[&nodeid] => (),
                 BddStackValue::Node(level, nodeid) => {
                     let current_level = dd.borrow().level(&nodeid);
                     match dd.borrow().get_node(&nodeid).unwrap() {
diff --git a/mss/src/mdd_path.rs b/mss/src/mdd_path.rs
index c43c1fa..cf78f4e 100644
--- a/mss/src/mdd_path.rs
+++ b/mss/src/mdd_path.rs
@@ -15,6 +15,57 @@ pub struct MddPath<V> {
     labels: Vec<String>,
     edges: Vec<usize>,
     ss: HashSet<V>,
+    productive: BddHashMap<NodeId, bool>,
+}
+
+/// Records for every node below `node` whether an outcome in `ss` can be reached from it,
+/// so that the enumeration does not expand subdiagrams that yield nothing.
+fn vmark<V>(
+    dd: &mtmdd::MtMddManager<V>,
+    node: NodeId,
+    ss: &HashSet<V>,
+    productive: &mut BddHashMap<NodeId, bool>,
+) -> bool
+where
+    V: MddValue,
+{
+    if let Some(&x) = productive.get(&node) {
+        return x;
+    }
+    let result = match dd.get_node(&node).unwrap() {
+        mtmdd::Node::NonTerminal(fnode) => fnode
+            .iter()
+            .fold(false, |found, x| vmark(dd, x, ss, productive) || found),
+        mtmdd::Node::Terminal(fnode) => ss.contains(&fnode.value()),
+        mtmdd::Node::Undet => false,
+    };
+    productive.insert(node, result);
+    result
+}
+
+/// [`vmark`] for the boolean forest.
+fn bmark<V>(
+    dd: &mdd::MddManager,
+    node: NodeId,
+    ss: &HashSet<V>,
+    productive: &mut BddHashMap<NodeId, bool>,
+) -> bool
+where
+    V: MddValue,
+{
+    if let Some(&x) = productive.get(&node) {
+        return x;
+    }
+    let result = match dd.get_node(&node).unwrap() {
+        mdd::Node::NonTerminal(fnode) => fnode
+            .iter()
+            .fold(false, |found, x| bmark(dd, x, ss, productive) || found),
+        mdd::Node::Zero => ss.contains(&V::from(0)),
+        mdd::Node::One => ss.contains(&V::from(1)),
+        mdd::Node::Undet => false,
+    };
+    productive.insert(node, result);
+    result
 }
 
 impl<V> MddPath<V>
@@ -49,6 +100,11 @@ where
                 }        
             }
         }
+        let mut productive = BddHashMap::default();
+        match node.get_node() {
+            Node::Value(fnode) => vmark(dd.borrow().mtmdd(), fnode, ss, &mut productive),
+            Node::Bool(fnode) => bmark(dd.borrow().mdd(), fnode, ss, &mut productive),
+        };
         MddPath {
             next_stack,
             path: HashMap::new(),
@@ -56,6 +112,7 @@ where
             labels,
             edges,
             ss: ss.clone(),
+            productive,
         }
     }
 
@@ -90,6 +147,7 @@ where
         let dd = self.node.get_mgr();
         while let Some(stackvalue) = self.next_stack.pop() {
             match stackvalue {
+                MddStackValue::Node(_, nodeid) if !self.productive[&nodeid] => (),
                 MddStackValue::Node(level, nodeid) => {
                     let current_level = dd.borrow().mtmdd().level(&nodeid);
                     match dd.borrow().mtmdd().get_node(&nodeid).unwrap() {
@@ -138,6 +196,7 @@ where
         let dd = self.node.get_mgr();
         while let Some(stackvalue) = self.next_stack.pop() {
             match stackvalue {
+                MddStackValue::Node(_, nodeid) if !self.productive[&nodeid] => (),
                 MddStackValue::Node(level, nodeid) => {
                     let current_level = dd.borrow().mdd().level(&nodeid);
                     match dd.borrow().mdd().get_node(&nodeid).unwrap() {
diff --git a/mss/src/zmdd.rs b/mss/src/zmdd.rs
index 94ef1db..626e414 100644
--- a/mss/src/zmdd.rs
+++ b/mss/src/zmdd.rs
@@ -380,6 +380,32 @@ pub struct ZmddPath<V> {
     node: ZmddNode<V>,
     ss: HashSet<V>,
     reverse: bool,
+    productive: BddHashMap<NodeId, bool>,
+}
+
+/// Records for every node below `node` whether a label in `ss` can be reached from it, so
+/// that the enumeration does not expand subdiagrams that yield nothing.
+fn mark<V>(
+    dd: &ZmddManager<V>,
+    node: NodeId,
+    ss: &HashSet<V>,
+    productive: &mut BddHashMap<NodeId, bool>,
+) -> bool
+where
+    V: MddValue,
+{
+    if let Some(&x) = productive.get(&node) {
+        return x;
+    }
+    let result = match dd.get_node(&node).unwrap() {
+        ZNode::NonTerminal(f) => f
+            .iter()
+            .fold(false, |found, x| mark(dd, x, ss, productive) || found),
+        ZNode::Terminal(t) => ss.contains(&t.value()),
+        ZNode::Undet => false,
+    };
+    productive.insert(node, result);
+    result
 }
 
 impl<V> ZmddPath<V>
@@ -395,6 +421,8 @@ where
             .iter()
             .map(|(n, states)| (n.clone(), if reverse { states - 1 } else { 0 }))
             .collect();
+        let mut productive = BddHashMap::default();
+        mark(&node.get_mgr().borrow(), node.get_id(), ss, &mut productive);
         ZmddPath {
             stack,
             path: baseline.clone(),
@@ -402,6 +430,7 @@ where
             node,
             ss: ss.clone(),
             reverse,
+            productive,
         }
     }
 }
@@ -416,6 +445,7 @@ where
         let dd = self.node.get_mgr();
         while let Some(sv) = self.stack.pop() {
             match sv {
+                SV::Node(id) if !self.productive[&id] => (),
                 SV::Node(id) => match dd.borrow().get_node(&id).unwrap() {
                     ZNode::Undet => (),
                     ZNode::Terminal(t) => {
-- 
2.43.0


From 894421f721b5f8722e6b13045f500e8c6a790fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:33 +0000
Subject: [PATCH 14/15] fix: k-of-n with k far beyond the operand count
 overflowed sizing its table

---
 bss/src/bdd_kofn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bss/src/bdd_kofn.rs b/bss/src/bdd_kofn.rs
index 712f965..eb077f0 100644
--- a/bss/src/bdd_kofn.rs
+++ b/bss/src/bdd_kofn.rs
@@ -34,6 +34,9 @@ pub fn kofn(
     node: &[NodeId]
 ) -> NodeId {
     let n = node.len();
+    if k > n {
+        return dd.zero(); // before sizing the table by an arbitrary `k`
+    }
     // Flat (k+1) x (n+1) memo table, valid only within this call.
     let mut memo: Vec<Option<NodeId>> = vec![None; (k + 1) * (n + 1)];
     kofn_rec(dd, node, k, 0, n, &mut memo)
-- 
2.43.0


From 56197c883f2002d0aec4767cd8c96693e31b83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 15/15] fix: enumerating a set family for outcomes it does not
 hold expanded every path

---
 bss/src/zdd_path.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bss/src/zdd_path.rs b/bss/src/zdd_path.rs
index 4ecdb9e..246d1ec 100644
--- a/bss/src/zdd_path.rs
+++ b/bss/src/zdd_path.rs
@@ -18,6 +18,27 @@ pub struct ZddPath {
     path: Vec<String>,
     node: ZddNode,
     ss: Vec<bool>,
+    productive: BddHashMap<NodeId, bool>,
+}
+
+/// Records for every node below `node` whether an outcome in `ss` can be reached from it,
+/// so that the enumeration does not expand subdiagrams that yield nothing.
+fn mark(dd: &ZddManager, node: NodeId, ss: &[bool], productive: &mut BddHashMap<NodeId, bool>) -> bool {
+    if let Some(&x) = productive.get(&node) {
+        return x;
+    }
+    let result = match dd.get_node(&node).unwrap() {
+        Node::Zero => ss.contains(&false),
+        Node::One => ss.contains(&true),
+        Node::Undet => false,
+        Node::NonTerminal(fnode) => {
+            let low = mark(dd, fnode.edge(0), ss, productive);
+            let high = mark(dd, fnode.edge(1), ss, productive);
+            low || high
+        }
+    };
+    productive.insert(node, result);
+    result
 }
 
 impl ZddPath {
@@ -25,11 +46,14 @@ impl ZddPath {
         let ss = ss.to_vec();
         let mut next_stack = Vec::new();
         next_stack.push(ZddStackValue::Node(node.get_id()));
+        let mut productive = BddHashMap::default();
+        mark(&node.get_mgr().borrow(), node.get_id(), &ss, &mut productive);
         ZddPath {
             next_stack,
             path: Vec::new(),
             node,
             ss,
+            productive,
         }
     }
 
@@ -45,6 +69,7 @@ impl Iterator for ZddPath {
         let dd = self.node.get_mgr();
         while let Some(stackvalue) = self.next_stack.pop() {
             match stackvalue {
+                ZddStackValue::Node(node) if !self.productive[&node] => (),
                 ZddStackValue::Node(node) => match dd.borrow().get_node(&node).unwrap() {
                     Node::Zero => {
                         if self.ss.contains(&false) {
-- 
2.43.0

