From 8e3760e1795a8a13cd0d3dc7c56ef670797d1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 01/18] fix: a range that only mirrors a prefix's differing
 bits is not that prefix

The shortcut in setNodeFromRange looked only at which bits differ between the
first and last address, so [x.1, x.2] was taken for the whole /30 around it.
---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..4ab61a8 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,7 +27,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..5962b48 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,7 +26,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0


From 91060e223e2c5dffc42a9b1f94603a30d5f35aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 02/18] fix: Range.Plus handles a range that ends at the last
 address

next() wraps around to zero there, so such a range was never seen to overlap
or touch the other one.
---
 ipv4/range.go | 2 +-
 ipv6/range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..3cbaa78 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,7 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		if a.last.lessThan(b.first) && a.next() != b.first {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..d6f773f 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,7 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		if a.last.lessThan(b.first) && a.next() != b.first {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From 4bd9595e78f45ab885e9ac226b3a557f756fbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 03/18] fix: walking the addresses of a prefix ends at
 255.255.255.255

The loop counter wrapped around to zero and the walk never terminated.
---
 ipv4/prefix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..d9eff22 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -215,6 +215,9 @@ func (me Prefix) walkAddresses(callback func(Address) bool) bool {
 		if !callback(Address{a}) {
 			return false
 		}
+		if a == maxUint32 {
+			break // incrementing would wrap around to zero
+		}
 	}
 	return true
 }
-- 
2.43.0


From 27488199fe2fae4a387bff9d70dcd735510288b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 04/18] fix: a prefix's host bits are not stored in the set
 made from it

---
 ipv4/setnode.go | 7 ++++++-
 ipv6/setnode.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 4ab61a8..f004654 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -15,7 +15,12 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui & ^(uint32(0xffffffff) >> p.length), // zero out host bits
+			},
+			length: p.length,
+		},
 		size:     1,
 		h:        1,
 	}
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 5962b48..fd58052 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -14,7 +14,12 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui.and(uint128{0xffffffffffffffff, 0xffffffffffffffff}.rightShift(int(p.length)).complement()), // zero out host bits
+			},
+			length: p.length,
+		},
 		size:     1,
 		h:        1,
 	}
-- 
2.43.0


From c799f76967f000be0df08dcc8086198ec1ceb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 05/18] fix: removing a prefix that is not an entry reports
 that it was not found

---
 ipv4/node.go | 3 +++
 ipv6/node.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..6a30236 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -496,6 +496,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..560d2a4 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -492,6 +492,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From b4cabb3a0c71678c43d9297212cea971f8fc2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 06/18] fix: Diff visits disjoint prefixes in order whichever
 one is longer

---
 ipv4/node.go | 5 +++--
 ipv6/node.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 6a30236..87ebc9c 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -609,9 +609,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -671,7 +672,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index 560d2a4..f91bd8d 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -605,9 +605,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -667,7 +668,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From 55fa15b827e34f1090c9b750c3e2cb95bf491b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 07/18] fix: FindAvailablePrefix treats a nil reserved set as
 empty

---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..eb145f7 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..81b7c71 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 8e925a33d3dfd6d529f45d13638b52dde876b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/18] fix: FindAvailablePrefix rejects a length longer than
 an address

---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index eb145f7..457a456 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if length > uint32(addressSize) {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
diff --git a/ipv6/set.go b/ipv6/set.go
index 81b7c71..5014a5e 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if length > uint32(addressSize) {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
-- 
2.43.0


From dfd4e4be602fdad6a93750f805813dc31c0b80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 09/18] fix: aggregating two halves keeps the more specific
 entries under them

---
 ipv4/node.go | 4 +++-
 ipv6/node.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 87ebc9c..728fd4b 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -807,7 +807,9 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// The halves are no longer needed but anything under them is.
+		children[0], _ = children[0].Delete(children[0].Prefix)
+		children[1], _ = children[1].Delete(children[1].Prefix)
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index f91bd8d..a101194 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -803,7 +803,9 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// The halves are no longer needed but anything under them is.
+		children[0], _ = children[0].Delete(children[0].Prefix)
+		children[1], _ = children[1].Delete(children[1].Prefix)
 	}
 
 	if isActive {
-- 
2.43.0


From 2412fc2677ecd791fbe0c2062bf950cc51fd47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 10/18] fix: aggregating two halves drops the result if the
 enclosing entry has the same value

---
 ipv4/node.go | 2 +-
 ipv6/node.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 728fd4b..c51b1a0 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -805,8 +805,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	}(children[0], children[1])
 
 	if childrenAggregate {
-		isActive = true
 		data = children[0].Data
+		isActive = parentUmbrella == nil || !eq(parentUmbrella.Data, data)
 		// The halves are no longer needed but anything under them is.
 		children[0], _ = children[0].Delete(children[0].Prefix)
 		children[1], _ = children[1].Delete(children[1].Prefix)
diff --git a/ipv6/node.go b/ipv6/node.go
index a101194..ebb45b3 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -801,8 +801,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	}(children[0], children[1])
 
 	if childrenAggregate {
-		isActive = true
 		data = children[0].Data
+		isActive = parentUmbrella == nil || !eq(parentUmbrella.Data, data)
 		// The halves are no longer needed but anything under them is.
 		children[0], _ = children[0].Delete(children[0].Prefix)
 		children[1], _ = children[1].Delete(children[1].Prefix)
-- 
2.43.0


From cff9eeeeac0d8443d9f4b81d1abe2e13ce4ee33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 11/18] fix: an aggregated Table keeps its comparator

---
 ipv4/table.go | 1 +
 ipv6/table.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..240de1d 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..5b232d8 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From a746aae6300cb166165fdd71a57f992f8b2ad7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 12/18] fix: comparators and mappers are only called for
 entries

---
 ipv4/node.go | 10 ++++++----
 ipv6/node.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index c51b1a0..9b1dc58 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -761,7 +761,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
@@ -836,9 +836,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if n.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index ebb45b3..e9289f0 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -757,7 +757,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
@@ -832,9 +832,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if n.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 380e3e67d817c2e143b9b52ee347950249919f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 13/18] fix: tables of values that == cannot compare no longer
 panic

---
 ipv4/node.go | 23 ++++++++++++++++++++---
 ipv6/node.go | 23 ++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 9b1dc58..7ab8ed0 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,6 +116,8 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy or the original node if nothing changed
+// apart from, possibly, Data. It must not be used to change nothing but Data.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -123,7 +125,9 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	// Data is left out because == panics for values that aren't comparable.
+	unchanged := mutated.Prefix == me.Prefix && mutated.isActive == me.isActive && mutated.children == me.children
+	if unchanged && mutated.size == me.size && mutated.h == me.h {
 		return me
 	}
 	return mutated
@@ -764,7 +768,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		doppelganger := *me
+		return doppelganger.mutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
 				if n.Data == nil || !eq(n.Data, data) {
@@ -835,16 +840,28 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
+	if me == nil {
+		return nil
+	}
+	var changed bool
+	doppelganger := *me
+	mutated := doppelganger.mutate(func(n *trieNode) {
 		if n.isActive {
 			n.Data = mapper(me.Prefix, me.Data)
 			if eq(me.Data, n.Data) {
 				n.Data = me.Data
+			} else {
+				changed = true
 			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
 		}
+		changed = changed || n.children != me.children
 	})
+	if !changed {
+		return me
+	}
+	return mutated
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index e9289f0..a1abd44 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,6 +115,8 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy or the original node if nothing changed
+// apart from, possibly, Data. It must not be used to change nothing but Data.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -122,7 +124,9 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	// Data is left out because == panics for values that aren't comparable.
+	unchanged := mutated.Prefix == me.Prefix && mutated.isActive == me.isActive && mutated.children == me.children
+	if unchanged && mutated.size == me.size && mutated.h == me.h {
 		return me
 	}
 	return mutated
@@ -760,7 +764,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		doppelganger := *me
+		return doppelganger.mutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
 				if n.Data == nil || !eq(n.Data, data) {
@@ -831,16 +836,28 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
+	if me == nil {
+		return nil
+	}
+	var changed bool
+	doppelganger := *me
+	mutated := doppelganger.mutate(func(n *trieNode) {
 		if n.isActive {
 			n.Data = mapper(me.Prefix, me.Data)
 			if eq(me.Data, n.Data) {
 				n.Data = me.Data
+			} else {
+				changed = true
 			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
 		}
+		changed = changed || n.children != me.children
 	})
+	if !changed {
+		return me
+	}
+	return mutated
 }
-- 
2.43.0


From 4f2ede58dbca2560ade0d5103ac0cbd65afbfa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 14/18] fix: a custom comparator is given nil interface values
 instead of a panic

---
 ipv4/table.go | 6 +++++-
 ipv6/table.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 240de1d..693a1b1 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// These assertions only fail if T is an interface type and the
+				// value is nil which is also the zero value
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 5b232d8..e967f54 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// These assertions only fail if T is an interface type and the
+				// value is nil which is also the zero value
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From 5bf0662e37157d1f0e766c6ef32fd7bf383e95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 15/18] fix: reading a mutable set or table while it is
 modified is not a data race

---
 ipv4/set.go           | 20 ++++++++++----------
 ipv4/tablex.go        | 23 +++++++++++++----------
 ipv4/unsafe_atomic.go |  8 ++++++++
 ipv6/set.go           | 20 ++++++++++----------
 ipv6/tablex.go        | 23 +++++++++++++----------
 ipv6/unsafe_atomic.go |  8 ++++++++
 6 files changed, 62 insertions(+), 40 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 457a456..67de2b1 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,13 +29,13 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -54,7 +54,7 @@ func (me Set_) Insert(other SetI) {
 		other = Set{}
 	}
 	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+		return true, me.Set().trie.Union(other.Set().trie)
 	})
 }
 
@@ -69,7 +69,7 @@ func (me Set_) Remove(other SetI) {
 		other = Set{}
 	}
 	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+		return true, me.Set().trie.Difference(other.Set().trie)
 	})
 }
 
@@ -83,7 +83,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -91,7 +91,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -99,7 +99,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -114,7 +114,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -125,7 +125,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -137,7 +137,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..5de70f5 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,12 +60,12 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -87,7 +87,7 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = me.Table().trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -109,7 +109,7 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = me.Table().trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -128,7 +128,7 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 		prefix = Prefix{}
 	}
 	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+		return true, me.Table().trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +140,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -156,7 +156,7 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 	var node *trieNode
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = me.Table().trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +170,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -187,7 +187,7 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = me.Table().trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +200,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..32ee7e3 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -5,6 +5,14 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(ptr))))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(ptr))))
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
diff --git a/ipv6/set.go b/ipv6/set.go
index 5014a5e..9cae9a7 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -51,7 +51,7 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -70,7 +70,7 @@ func (me Set_) Insert(other SetI) {
 		other = Set{}
 	}
 	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+		return true, me.Set().trie.Union(other.Set().trie)
 	})
 }
 
@@ -85,7 +85,7 @@ func (me Set_) Remove(other SetI) {
 		other = Set{}
 	}
 	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+		return true, me.Set().trie.Difference(other.Set().trie)
 	})
 }
 
@@ -94,7 +94,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -102,7 +102,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -110,7 +110,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -125,7 +125,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -136,7 +136,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -148,7 +148,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..68680dc 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,12 +60,12 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -87,7 +87,7 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = me.Table().trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -109,7 +109,7 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = me.Table().trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -128,7 +128,7 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 		prefix = Prefix{}
 	}
 	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+		return true, me.Table().trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +140,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -156,7 +156,7 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 	var node *trieNode
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = me.Table().trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +170,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -187,7 +187,7 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 	var err error
 	me.mutate(func() (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = me.Table().trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +200,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..8660d43 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -5,6 +5,14 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(ptr))))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(ptr))))
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
-- 
2.43.0


From b29597dfc0ac8193ac104278b3e24678b6d970d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 16/18] fix: a concurrent modification can no longer undo or
 skip an acknowledged one

---
 ipv4/set.go    | 19 ++++++++++++++-----
 ipv4/tablex.go | 31 ++++++++++++++++++++-----------
 ipv6/set.go    | 19 ++++++++++++++-----
 ipv6/tablex.go | 31 ++++++++++++++++++++-----------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 67de2b1..3b62132 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -35,8 +35,17 @@ func (me Set_) Set() Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate but passes the mutator the contents that it must
+// start from. The modification only succeeds if those are still current when it
+// is done. The mutator must not read the contents again.
+func (me Set_) mutateFrom(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +62,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.Set().trie.Union(other.Set().trie)
+	me.mutateFrom(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +77,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.Set().trie.Difference(other.Set().trie)
+	me.mutateFrom(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 5de70f5..6b25fb0 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate but passes the mutator the contents that it must
+// start from. The modification only succeeds if those are still current when it
+// is done. The mutator must not read the contents again.
+func (me tableX_) mutateFrom(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.Table().trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.Table().trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 9cae9a7..79dfb5a 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -51,8 +51,17 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate but passes the mutator the contents that it must
+// start from. The modification only succeeds if those are still current when it
+// is done. The mutator must not read the contents again.
+func (me Set_) mutateFrom(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +78,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.Set().trie.Union(other.Set().trie)
+	me.mutateFrom(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +93,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.Set().trie.Difference(other.Set().trie)
+	me.mutateFrom(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 68680dc..2ffd03e 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom is like mutate but passes the mutator the contents that it must
+// start from. The modification only succeeds if those are still current when it
+// is done. The mutator must not read the contents again.
+func (me tableX_) mutateFrom(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.Table().trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.Table().trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.Table().trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From e86efe20cabedccf69bf358f6dc1a76e94cc82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 17/18] fix: IPv4-mapped IPv6 addresses convert to IPv6 text
 and back

---
 ipv6/address.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..f42ec82 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -54,7 +55,7 @@ func AddressFromString(address string) (Address, error) {
 	}
 
 	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	if netIPv4 != nil && !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +101,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	s := me.ToNetIP().String()
+	if !strings.Contains(s, ":") {
+		// net.IP shows IPv4-mapped addresses as if they were IPv4
+		s = "::ffff:" + s
+	}
+	return s
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 448c69a0c63d96dfb68702514cda40f6c7d67563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 18/18] fix: Aggregate does not bring back host bits of removed
 entries

---
 ipv4/node.go | 2 ++
 ipv6/node.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 7ab8ed0..3d2768d 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -516,6 +516,8 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.isActive = false
 			n.Data = nil
+			// Forget any host bits, they must not turn up in an aggregate.
+			n.Prefix = n.Prefix.Network()
 		})
 		return newNode, nil
 
diff --git a/ipv6/node.go b/ipv6/node.go
index a1abd44..7d2311a 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -512,6 +512,8 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.isActive = false
 			n.Data = nil
+			// Forget any host bits, they must not turn up in an aggregate.
+			n.Prefix = n.Prefix.Network()
 		})
 		return newNode, nil
 
-- 
2.43.0

