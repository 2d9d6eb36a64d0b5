From e49ddbde8fe21eb016270d32793cb14e090002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:33 +0000
Subject: [PATCH 01/25] fix: keep all entries when removing a missing key from
 an AVL tree

Removing an absent key rebalanced the nodes on the search path but the
tree kept its old root, so everything rotated above that root was lost.
---
 tree/avl/avltree.go     | 2 +-
 tree/avl/imm_avltree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..db25ef6 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -258,7 +258,7 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 		self.right, value, err = self.right.Remove(key)
 	}
 	if err != nil {
-		return self.balance(), value, err
+		return self, nil, err
 	}
 	return self, value, err
 }
diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..4c77230 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -267,7 +267,7 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	}
 	self.height = max(self.left.Height(), self.right.Height()) + 1
 	if err != nil {
-		return self.balance(), value, err
+		return self, nil, err
 	}
 	return self, value, err
 }
-- 
2.43.0


From 88eac90d5a6e1446d2e71d7870504dec63fe13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:20 +0000
Subject: [PATCH 02/25] fix: keep AVL trees height balanced

Put counted every insertion below a node as one more level and Remove did
not maintain heights at all, so trees degenerated (depth around 2*sqrt(n)
for ascending keys). Track real heights, rotate when the subtrees differ
by more than one level, and rebalance on removal.
---
 tree/avl/avltree.go     | 78 ++++++++++++++++++-----------------------
 tree/avl/imm_avltree.go | 78 +++++++++++++++++++----------------------
 2 files changed, 70 insertions(+), 86 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index db25ef6..39bf044 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -137,27 +137,7 @@ func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
 		self.right = self.right.pop_node(node)
 	}
 
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
-}
-
-func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node now be a leaf")
-	}
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *AvlNode) rotate_right() *AvlNode {
@@ -167,13 +147,12 @@ func (self *AvlNode) rotate_right() *AvlNode {
 	if self.left == nil {
 		return self
 	}
-	new_root := self.left.rmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.left
+	self.left = new_root.right
+	new_root.right = self
+	self.fix_height()
+	new_root.fix_height()
+	return new_root
 }
 
 func (self *AvlNode) rotate_left() *AvlNode {
@@ -183,23 +162,33 @@ func (self *AvlNode) rotate_left() *AvlNode {
 	if self.right == nil {
 		return self
 	}
-	new_root := self.right.lmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	new_root := self.right
+	self.right = new_root.left
+	new_root.left = self
+	self.fix_height()
+	new_root.fix_height()
+	return new_root
+}
+
+func (self *AvlNode) fix_height() {
+	self.height = max(self.left.Height(), self.right.Height()) + 1
 }
 
 func (self *AvlNode) balance() *AvlNode {
 	if self == nil {
 		return self
 	}
-	for abs(self.left.Height()-self.right.Height()) > 2 {
+	self.fix_height()
+	if abs(self.left.Height()-self.right.Height()) > 1 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
@@ -222,7 +211,6 @@ func (self *AvlNode) Put(key types.Hashable, value interface{}) (_ *AvlNode, upd
 		self.right, updated = self.right.Put(key, value)
 	}
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -235,15 +223,17 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
+			var new_root *AvlNode
 			if self.left.Size() < self.right.Size() {
-				lmd := self.right.lmd()
-				lmd.left = self.left
-				return self.right, self.value, nil
+				new_root = self.right.lmd()
+				self.right = self.right.pop_node(new_root)
 			} else {
-				rmd := self.left.rmd()
-				rmd.right = self.right
-				return self.left, self.value, nil
+				new_root = self.left.rmd()
+				self.left = self.left.pop_node(new_root)
 			}
+			new_root.left = self.left
+			new_root.right = self.right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -260,7 +250,7 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 	if err != nil {
 		return self, nil, err
 	}
-	return self, value, err
+	return self.balance(), value, err
 }
 
 func (self *AvlNode) Height() int {
diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 4c77230..4dbe457 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -139,29 +139,7 @@ func (self *ImmutableAvlNode) pop_node(node *ImmutableAvlNode) (new_self, new_no
 		self.right, node = self.right.pop_node(node)
 	}
 
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self, node
-}
-
-func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node must now be a leaf")
-	}
-
-	self = self.Copy()
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance(), node
 }
 
 func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
@@ -171,7 +149,13 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	if self.left == nil {
 		return self
 	}
-	return self.rotate(self.left.rmd)
+	self = self.Copy()
+	new_root := self.left.Copy()
+	self.left = new_root.right
+	new_root.right = self
+	self.fix_height()
+	new_root.fix_height()
+	return new_root
 }
 
 func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
@@ -181,26 +165,36 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 	if self.right == nil {
 		return self
 	}
-	return self.rotate(self.right.lmd)
+	self = self.Copy()
+	new_root := self.right.Copy()
+	self.right = new_root.left
+	new_root.left = self
+	self.fix_height()
+	new_root.fix_height()
+	return new_root
 }
 
-func (self *ImmutableAvlNode) rotate(get_new_root func() *ImmutableAvlNode) *ImmutableAvlNode {
-	self, new_root := self.pop_node(get_new_root())
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+// only call on a node no one else has seen yet
+func (self *ImmutableAvlNode) fix_height() {
+	self.height = max(self.left.Height(), self.right.Height()) + 1
 }
 
+// only call on a node no one else has seen yet
 func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
 	if self == nil {
 		return self
 	}
-	for abs(self.left.Height()-self.right.Height()) > 2 {
+	self.fix_height()
+	if abs(self.left.Height()-self.right.Height()) > 1 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
@@ -224,10 +218,8 @@ func (self *ImmutableAvlNode) Put(key types.Hashable, value interface{}) (_ *Imm
 	} else {
 		self.right, updated = self.right.Put(key, value)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
 
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -241,14 +233,17 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
 			var new_root *ImmutableAvlNode
+			left, right := self.left, self.right
 			if self.left.Size() < self.right.Size() {
-				self, new_root = self.pop_node(self.right.lmd())
+				new_root = self.right.lmd()
+				right, new_root = self.right.pop_node(new_root)
 			} else {
-				self, new_root = self.pop_node(self.left.rmd())
+				new_root = self.left.rmd()
+				left, new_root = self.left.pop_node(new_root)
 			}
-			new_root.left = self.left
-			new_root.right = self.right
-			return new_root, self.value, nil
+			new_root.left = left
+			new_root.right = right
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -265,11 +260,10 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
 	if err != nil {
 		return self, nil, err
 	}
-	return self, value, err
+	return self.balance(), value, err
 }
 
 func (self *ImmutableAvlNode) Height() int {
-- 
2.43.0


From 989a40ae337890148f869bcf688ec1dd82ce8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:06 +0000
Subject: [PATCH 03/25] fix: make the hash table accept every hash value and
 initial size

The absolute value of the smallest int is negative, which gave a negative
bucket index, and an initial size of zero divided by zero.
---
 hashtable/hashtable.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..2acdefd 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
@@ -65,7 +68,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return int(uint(abs(key.Hash())) % uint(len(self.table)))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 4054e4210d5e681962b7c405a72312d106661b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:12 +0000
Subject: [PATCH 04/25] fix: do not write to or keep the caller's key buffer in
 the trie

append(key, END) wrote the terminator into spare capacity of the caller's
slice and stored that slice, so reusing the buffer corrupted the trie.
---
 trie/tst.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..227df4c 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -34,11 +34,19 @@ func (self *TST) ValidateKey(key []byte) error {
 	return nil
 }
 
+// copies the key so the caller's buffer is neither written to nor kept
+func terminate(key []byte) []byte {
+	symbol := make([]byte, len(key)+1)
+	copy(symbol, key)
+	symbol[len(key)] = END
+	return symbol
+}
+
 func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := terminate(key)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +70,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := terminate(key)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +98,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := ByteSlice(terminate(key))
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 4e7d9a9b5cb4ee8702e4169f759f98c4b6e1899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:19 +0000
Subject: [PATCH 05/25] fix: allow keys to be put into the trie again after
 removal

Removing a key that is a prefix of another left an internal node without
a middle child, and putting the key back dereferenced it. Removing the
last key below a head left a dead node there that rejected every later
key with the same first byte.
---
 trie/tst.go      | 2 +-
 trie/tst_node.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index 227df4c..91d5166 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -144,7 +144,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..bc72d23 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -168,7 +168,9 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			}
 			n.l = l
 		} else if ch == n.ch {
-			if d+1 == len(key) && ch == END {
+			if d+1 == len(key) && ch == END && n.m == nil {
+				n.m = NewAcceptingTSTNode(key[d], key, val)
+			} else if d+1 == len(key) && ch == END {
 				n.m = n.m.Copy()
 				n.m.value = val
 			} else {
-- 
2.43.0


From 200defad0372e89cc435115a03f6f88ee9ad17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:25 +0000
Subject: [PATCH 06/25] fix: do not panic on a prefix longer than the key it
 reaches in the trie

The candidate key was sliced to the length of the prefix. The terminator
also no longer takes part in the comparison.
---
 trie/tst.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 91d5166..ed17fa0 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -1,6 +1,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"strings"
 )
@@ -178,7 +179,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && bytes.HasPrefix(next.n.key[:len(next.n.key)-1], prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 195f3624cd555c9ae7d43b8bb5816fd4fb1d647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:32 +0000
Subject: [PATCH 07/25] fix: do not expose the terminator of trie keys through
 spare capacity

Appending to a key returned by an iterator overwrote the terminator of
the stored key.
---
 trie/tst.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index ed17fa0..6878f3c 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -202,7 +202,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
@@ -230,7 +230,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
-- 
2.43.0


From 0926a5b020ca9a24d0e4bb7d826ef97b85c49842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:39 +0000
Subject: [PATCH 08/25] fix: return an error from Get and Remove on an empty B+
 map instead of panicking

---
 tree/bptree/bpmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..5fca5ea 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -39,6 +39,9 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 }
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
+	if len(self.root.keys) == 0 {
+		return nil, errors.NotFound(key)
+	}
 	j, l := self.root.get_start(key)
 	if l.keys[j].Equals(key) {
 		return l.values[j], nil
-- 
2.43.0


From 2f7014e538f9c96eacaf0fb476acaa4057c00533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:46 +0000
Subject: [PATCH 09/25] fix: keep B+ tree range queries within their bounds

A forward range starting above every key returned the last entry, a
backward range starting at an absent key returned the entry after it, and
a backward range over an empty tree panicked. Find, Replace and
RemoveWhere inherited the first of these.
---
 tree/bptree/bptree_node.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..11cadaf 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -146,7 +146,7 @@ func (self *BpNode) get_end(key types.Hashable) (i int, leaf *BpNode) {
 	end := false
 	i, leaf = self.get_start(key)
 	pi, pleaf := i, leaf
-	for !end && leaf.keys[i].Equals(key) {
+	for !end && i < len(leaf.keys) && leaf.keys[i].Equals(key) {
 		pi, pleaf = i, leaf
 		i, leaf, end = next_location(i, leaf)
 	}
@@ -649,7 +649,7 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j--
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		j, l, end = next_location(j, l)
-		if end || to.Less(l.keys[j]) {
+		if end || to.Less(l.keys[j]) || l.keys[j].Less(from) {
 			return -1, nil, nil
 		}
 		return j, l, li
@@ -659,7 +659,11 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_end(from)
-	end := false
+	end := len(l.keys) == 0
+	if !end && from.Less(l.keys[j]) {
+		// from is not in the tree, so this is the first key after it
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From 89e197ce20fdf1639d373169f6ab34713f2f61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:08 +0000
Subject: [PATCH 10/25] fix: remove exactly the matching entries from a B+ tree

RemoveWhere skipped entries while removing from the leaf it was iterating
over, could unlink a leaf that still held entries of a duplicate run, left
half filled leaves in front of a run so later entries were stored out of
order, counted every call as one removed entry and panicked on an empty
tree.
---
 tree/bptree/bpmap.go       |   2 +-
 tree/bptree/bptree.go      |   4 +-
 tree/bptree/bptree_node.go | 105 +++++++++++++++++--------------------
 3 files changed, 52 insertions(+), 59 deletions(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index 5fca5ea..0321c39 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -55,7 +55,7 @@ func (self *BpMap) Remove(key types.Hashable) (value interface{}, err error) {
 		return nil, err
 	}
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, func(value interface{}) bool { return true })
+	new_root, _, err := self.root.remove(key, func(value interface{}) bool { return true })
 	if err != nil {
 		return nil, err
 	}
diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..7baaa19 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,7 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	new_root, removed, err := self.root.remove(key, where)
 	if err != nil {
 		return err
 	}
@@ -102,7 +102,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 11cadaf..8e7b3ce 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -461,15 +461,19 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 	return nil
 }
 
-func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+/* removes every entry for the key where the where function holds, returns the
+ * (possibly) new node, nil if it became empty, and the number of removed
+ * entries.
+ */
+func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,69 +483,69 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
-	child := self.pointers[i]
-	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
-	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
-	}
+	child, removed, err := self.pointers[i].remove(key, where)
 	if err != nil {
-		return nil, err
+		return nil, 0, err
 	}
 	if child == nil {
 		if err := self.remove_key_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 		if err := self.remove_ptr_at(i); err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 	} else {
 		self.keys[i] = child.keys[0]
 		self.pointers[i] = child
 	}
 	if len(self.keys) == 0 {
-		return nil, nil
+		return nil, removed, nil
 	}
-	return self, nil
+	return self, removed, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+/* The entries for a key are all in one leaf, or in a run of pure leaves where
+ * every leaf but the last is full. What remains of a run is moved forward so
+ * that this stays true.
+ */
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, removed int, err error) {
 	if self.Internal() {
-		return nil, errors.BpTreeError("Expected a leaf node")
+		return nil, 0, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
-			if err := l.remove_key_at(j); err != nil {
-				return nil, err
-			}
-			if err := l.remove_value_at(j); err != nil {
-				return nil, err
-			}
+	if !self.has(key) {
+		return self, 0, nil
+	}
+	run := []*BpNode{self}
+	if self.Pure() {
+		for n := self.next; n != nil && n.keys[0].Equals(key); n = n.next {
+			run = append(run, n)
 		}
-		if len(l.keys) == 0 {
-			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
+	}
+	var keys []types.Hashable
+	var values []interface{}
+	for _, l := range run {
+		for j := range l.keys {
+			if l.keys[j].Equals(key) && where(l.values[j]) {
+				removed++
 			} else {
-				a = nil
+				keys = append(keys, l.keys[j])
+				values = append(values, l.values[j])
 			}
 		}
 	}
-	return a, nil
+	for _, l := range run {
+		n := copy(l.keys[:cap(l.keys)], keys)
+		copy(l.values[:cap(l.values)], values)
+		l.keys, l.values = l.keys[:n], l.values[:n]
+		keys, values = keys[n:], values[n:]
+		if n == 0 {
+			remove_linked_list_node(l)
+		}
+	}
+	if len(self.keys) == 0 {
+		return nil, removed, nil
+	}
+	return self, removed, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
@@ -555,17 +559,6 @@ func (self *BpNode) remove_key_at(i int) error {
 	return nil
 }
 
-func (self *BpNode) remove_value_at(i int) error {
-	if i >= len(self.values) || i < 0 {
-		return errors.BpTreeError("i, %v, is out of bounds, %v.", i, len(self.values))
-	}
-	for j := i; j < len(self.values)-1; j++ {
-		self.values[j] = self.values[j+1]
-	}
-	self.values = self.values[:len(self.values)-1]
-	return nil
-}
-
 func (self *BpNode) remove_ptr_at(i int) error {
 	if i >= len(self.pointers) || i < 0 {
 		return errors.BpTreeError("i, %v, is out of bounds, %v.", i, len(self.pointers))
-- 
2.43.0


From b055c8c88a68e8920e1eb186a16e676ae077d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:14 +0000
Subject: [PATCH 11/25] fix: return nil from Pop on an empty unique priority
 queue instead of panicking

---
 heap/unique.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..9ebab1c 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,6 +48,9 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
+	if u.pq.Size() == 0 {
+		return nil
+	}
 	item := u.pq.Pop().(types.Hashable)
 	u.set.Delete(item)
 	return item
-- 
2.43.0


From e516e0f45f82329cf91fb6cc0be42b8a63897e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:21 +0000
Subject: [PATCH 12/25] fix: let MapSet.Put overwrite the value of a present
 key

---
 set/mapset.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..2fe67e6 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,6 +84,11 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
+	if m.Has(key) {
+		if err := m.Delete(key); err != nil {
+			return err
+		}
+	}
 	return m.Add(&types.MapEntry{key, value})
 }
 
-- 
2.43.0


From 148d514e80f4818fccc29a748d58041c12e25487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:28 +0000
Subject: [PATCH 13/25] fix: give empty lists of every implementation the same
 hash

An empty linked list equals an empty array list but hashed differently.
---
 list/array_list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..e5fe59d 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -249,9 +249,14 @@ func (l *List) Hash() int {
 func Hash(a types.ListIterable) int {
 	h := fnv.New32a()
 	bs := make([]byte, 4)
+	empty := true
 	for item, next := a.Items()(); next != nil; item, next = next() {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
 		h.Write(bs)
+		empty = false
+	}
+	if empty {
+		return 0
 	}
 	return int(h.Sum32())
 }
-- 
2.43.0


From 8f5cf2b2f29121d2e152dd96b1f265aa2c497103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:36 +0000
Subject: [PATCH 14/25] fix: do not panic when marshalling 8 bit integers

---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From f5ab5d5dff0543c5733588f16f5683b6a879e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:12 +0000
Subject: [PATCH 15/25] fix: marshal Int and UInt without losing the sign and
 upper bits

They are 64 bits wide but were written as 4 bytes, so negative and large
values came back as different numbers. The 4 byte form is still read.
---
 types/int.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..17d90b5 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,21 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) == 4 {
+		// written by an earlier version
+		*self = Int(binary.BigEndian.Uint32(data))
+		return nil
+	}
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +331,21 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) == 4 {
+		// written by an earlier version
+		*self = UInt(binary.BigEndian.Uint32(data))
+		return nil
+	}
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From e00f164c501fbd3818642d540f3a2ee78064e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:19 +0000
Subject: [PATCH 16/25] fix: copy the bytes when unmarshalling a ByteSlice

Decoded items shared memory with the input buffer.
---
 types/string.go | 2 +-
 types/util.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..7fe31ec 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..823ff6a 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,7 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		return append(ByteSlice{}, bytes...), nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 125877c0fe331699102af0342a21c94c2a9fd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:26 +0000
Subject: [PATCH 17/25] fix: make pre-order and post-order traversals of an
 empty tree yield nothing

They pushed the missing root on the stack and dereferenced it.
---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 86a13c12f32e59be5c72cdaf502e77c84bc970b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:34 +0000
Subject: [PATCH 18/25] fix: let IsNil accept values that can not be nil

Tree nodes that are plain structs made it, and thereby every traversal,
panic.
---
 types/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index 823ff6a..917c445 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,15 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	switch v := reflect.ValueOf(object); v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return v.IsNil()
+	default:
+		return false
+	}
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0


From 84441868a2eb4f535e8e6031993ca4ee2677b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:41 +0000
Subject: [PATCH 19/25] fix: count pool workers before they start

A worker added itself to the wait group when first scheduled, so Stop
could return before workers had run the functions already accepted.
---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From 2520e07980384cf1258b2e67285a30d5a1ce1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:48 +0000
Subject: [PATCH 20/25] fix: let every call of Stop wait for the pool to drain

A call made while another one was draining the pool returned at once.
---
 pool/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pool/pool.go b/pool/pool.go
index 0efbbf1..3f4ba0d 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -66,6 +66,7 @@ func (p *Pool) Stop() {
 	p.mu.Lock()
 	if len(p.workers) == 0 {
 		p.mu.Unlock()
+		p.wg.Wait()
 		return
 	}
 	workers := p.workers
-- 
2.43.0


From 5117d37c8240e29017ef7487b809e7fc7ccec91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:55 +0000
Subject: [PATCH 21/25] fix: do not close an old resource again when a Close
 block is rerun

The resource of the previous execution was kept, and closed again if
creating the next one failed.
---
 exc/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index 6543f4f..e7cd839 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -46,8 +46,8 @@ func Try(try func()) *Block {
 // returned. There are also ways to deal with that situation using an outer
 // Try/Finally.
 func Close(makeCloser func() io.Closer, try func(io.Closer)) *Block {
-	var c io.Closer = nil
 	return Try(func() {
+		var c io.Closer = nil
 		Try(func() {
 			c = makeCloser()
 			try(c)
-- 
2.43.0


From 98d60540039608f9cf41a90815cb486c7da424d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:02 +0000
Subject: [PATCH 22/25] fix: keep the type of a custom exception when
 rethrowing it

Chain is promoted from the embedded Exception and returns that, so a
rethrown custom exception could no longer be caught by its own type.
---
 exc/exception.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exc/exception.go b/exc/exception.go
index f06db2f..1a383a9 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -169,7 +169,12 @@ func Throw(e Throwable) {
 //    }).Unwind()
 //
 func Rethrow(e Throwable, err *Error) {
-	throw(e.Chain(err))
+	chained := e.Chain(err)
+	if chained == Throwable(e.Exc()) {
+		// e embeds an Exception, which was extended in place
+		chained = e
+	}
+	throw(chained)
 }
 
 func throw(e Throwable) {
-- 
2.43.0


From cdd5517a63c39fd83ec10719e4f93074e71ec3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 23/25] fix: treat nil pointers from Left and Right as missing
 children in order

Only the root of an in-order traversal was checked for a nil pointer
inside the interface; nodes returning one for a child made it panic.
---
 tree/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 56c6eff..bb0ad8d 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -34,11 +34,11 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 		if len(stack) > 0 || cur != nil {
 			for cur != nil {
 				stack = append(stack, cur)
-				cur = cur.(types.BinaryTreeNode).Left()
+				cur = btn_expose_nil(cur.(types.BinaryTreeNode).Left())
 			}
 			stack, cur = pop(stack)
 			tn = cur
-			cur = cur.(types.BinaryTreeNode).Right()
+			cur = btn_expose_nil(cur.(types.BinaryTreeNode).Right())
 			return tn, tn_iterator
 		} else {
 			return nil, nil
-- 
2.43.0


From 017cb7c5693c558354c18aeac0b291fa0f1934e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:49 +0000
Subject: [PATCH 24/25] fix: start backward iteration at the last leaf of the
 leaf list

When the largest key has more duplicates than fit in one leaf, the extra
leaves are linked but not pointed to by a parent, so Backward skipped them.
---
 tree/bptree/bptree_node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 8e7b3ce..e5f882d 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -98,7 +98,12 @@ func (self *BpNode) right_most_leaf() *BpNode {
 	if self.Internal() {
 		return self.pointers[len(self.pointers)-1].right_most_leaf()
 	}
-	return self
+	// a run of pure blocks continues past the block the parent points to
+	leaf := self
+	for leaf.next != nil {
+		leaf = leaf.next
+	}
+	return leaf
 }
 
 /* returns the index and leaf-block of the first key greater than or equal to
-- 
2.43.0


From f279170bd223505284365f6e5438300f9c8b87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:11 +0000
Subject: [PATCH 25/25] fix: catch exceptions which embed the caught type
 behind other fields

---
 exc/block.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/exc/block.go b/exc/block.go
index e7cd839..dae3f40 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -172,10 +172,17 @@ func isa(a, b reflect.Type) bool {
 	if !(a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr) {
 		return false
 	}
-	a = a.Elem()
-	for a.Kind() == reflect.Struct && a.NumField() > 0 {
-		a = a.Field(0).Type
-		if is(reflect.PtrTo(a), b) {
+	return embeds(a.Elem(), b)
+}
+
+// does the struct a embed a type which can be caught as b?
+func embeds(a, b reflect.Type) bool {
+	if a.Kind() != reflect.Struct {
+		return false
+	}
+	for i := 0; i < a.NumField(); i++ {
+		f := a.Field(i)
+		if f.Anonymous && (is(reflect.PtrTo(f.Type), b) || embeds(f.Type, b)) {
 			return true
 		}
 	}
-- 
2.43.0

