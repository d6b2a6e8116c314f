From 3cd82cf44715a4e6a52622eb2fac19041f392f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 01/17] fix: hashring.GetNode returned the key itself when its
 hash equals a point's hash

A key whose hash coincides with a virtual node was returned instead of the
member owning that virtual node, so GetNode could return a non-member.
---
 hashring/hashring.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..3fdf87b 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -66,20 +66,16 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	if i, ok := hr.nodes.BinarySearch(node[Node]{
+	i, _ := hr.nodes.BinarySearch(node[Node]{
 		hash: hash,
 		Node: key,
-	}); ok {
-		return key
-	} else {
-		if i == hr.nodes.Len() {
-			n, _ := hr.nodes.First()
-			return n.Node
-		} else {
-			n, _ := hr.nodes.Get(i)
-			return n.Node
-		}
+	})
+	if i == hr.nodes.Len() {
+		n, _ := hr.nodes.First()
+		return n.Node
 	}
+	nd, _ := hr.nodes.Get(i)
+	return nd.Node
 }
 
 func (hr *HashRing[Node]) hashKey(key Node, index int) uint32 {
-- 
2.43.0


From fc1732f3d5b30068a104fd7775aa9d4a7e9928b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 02/17] fix: hashring ordered members with equal hashes at
 random

Points were sorted by hash only while being inserted in map iteration order,
so two rings (or two runs) with the same members could disagree on the owner of
a point shared by two members. Order equal hashes by member and search by hash.
---
 hashring/hashring.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 3fdf87b..accc432 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -1,6 +1,7 @@
 package hashring
 
 import (
+	"cmp"
 	"fmt"
 	"hash/crc32"
 
@@ -26,10 +27,13 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
+				if t1.hash == t2.hash {
+					return t1.Node < t2.Node
+				}
 				return t1.hash < t2.hash
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
-				return t1.hash == t2.hash
+				return t1.hash == t2.hash && t1.Node == t2.Node
 			})),
 	}
 	return hr
@@ -66,9 +70,8 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	i, _ := hr.nodes.BinarySearch(node[Node]{
-		hash: hash,
-		Node: key,
+	i, _ := hr.nodes.BinarySearchFunc(node[Node]{hash: hash}, func(val, target node[Node]) int {
+		return cmp.Compare(val.hash, target.hash)
 	})
 	if i == hr.nodes.Len() {
 		n, _ := hr.nodes.First()
-- 
2.43.0


From cf69334fdc84188f3f9ed70b6fb896ff0c3989ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 03/17] fix: set.IsSupperSet returned the negated result

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From 5afc632997fca1898b4c8438b750aa4f19971aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 04/17] fix: tree.IsDescendantRelation was true for unrelated
 nodes

It reported every node that is not an ancestor as a descendant.
---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..3261eca 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -164,7 +164,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From 860bbb92d78874b4fa8cc8e68764cf431a5edce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 05/17] fix: tree.SetLeft/SetRight left a re-attached node
 linked from its old parent

Attaching a node that already hangs elsewhere made it the child of two parents
(or both children of one).
---
 tree/tree.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3261eca..49be3a3 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -62,15 +62,31 @@ func (n *Node[T]) DrawTree() string {
 	return builder.String()
 }
 
+// detach unlinks n from its parent, if it has one.
+func (n *Node[T]) detach() {
+	p := n.Parent
+	if p == nil {
+		return
+	}
+	if p.Left == n {
+		p.Left = nil
+	}
+	if p.Right == n {
+		p.Right = nil
+	}
+	n.Parent = nil
+}
+
 func (n *Node[T]) SetLeft(left *Node[T]) (old *Node[T]) {
 	old = n.Left
 	if n.Left != nil {
 		n.Left.Parent = nil
 	}
-	n.Left = left
 	if left != nil {
+		left.detach()
 		left.Parent = n
 	}
+	n.Left = left
 	return old
 }
 
@@ -79,10 +95,11 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	if n.Right != nil {
 		n.Right.Parent = nil
 	}
-	n.Right = right
 	if right != nil {
+		right.detach()
 		right.Parent = n
 	}
+	n.Right = right
 	return old
 }
 
-- 
2.43.0


From 7e50c568a94fbfc9d266ce6126bd202ddb05f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 06/17] fix: vec.Cut returned elements overwritten by the cut
 itself

The returned slice aliased the vector's storage, into which the remaining
elements had already been moved.
---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..eb9eaa7 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,9 +258,9 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	e = slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
-	return val
+	return e
 }
 
 // SplitOff splits the vector into two at the given index.
-- 
2.43.0


From 2e87b9caf915376718dd15eaa37553fc48775179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 07/17] fix: vec.Clone/SplitOff copies followed comparison
 changes of the original

The copies were given bound methods of the original instead of its comparison
functions, so SetCmpLess/SetCmpEqual on the original changed the copy as well.
---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index eb9eaa7..622c560 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -269,7 +269,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -319,7 +319,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From acae01ed4d714111340da3fb4a3db889c17f8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 08/17] fix: vec default comparisons panicked for pointer
 elements

The element type was dereferenced when detecting the comparison, the elements
were not when comparing.
---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 622c560..12bb7ea 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From 6e619180d73c5a644da010902bd1a678951866d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 09/17] fix: vec sorting did not order NaNs before other values
 as documented

With NaNs unordered the whole result was unsorted.
---
 vec/vec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index 12bb7ea..7a12ac6 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -53,7 +53,8 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
+			x, y := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			return x < y || (x != x && y == y) // NaN first
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-- 
2.43.0


From f7696e6377bbac1a2b975b50c75f884ef372aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 10/17] fix: dllist.Clear left the removed elements owned by
 the list

Operations on an element that was in the list before Clear corrupted the list
(negative length, elements outside the list linked to it).
---
 dllist/dllist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..21dbf21 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,13 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	for e := l.Front(); e != nil; {
+		next := e.Next()
+		e.next = nil
+		e.prev = nil
+		e.list = nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From ec9b472af9b7692319c845475cbd1deabc476aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:47 +0000
Subject: [PATCH 11/17] fix: genmap.LoadOrStore returned the zero value instead
 of the stored one

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0


From 8a9e1eb1e4d13f22f1113fb28950011419f2e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 12/17] fix: rwmap.Clear left Len permanently wrong when other
 operations ran concurrently

---
 rwmap/rwmap.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..060bfb0 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -521,10 +521,31 @@ func (m *RWMap[K, V]) Clear() {
 		m.read.Store(&readOnly[K, V]{})
 	}
 
+	// Operations may still hold an entry removed here: expunge the entries, so that nothing
+	// can be stored to them any more and len loses exactly the values they held.
+	var removed int64
+	for _, e := range read.m {
+		if e.expungeRemoved() {
+			removed++
+		}
+	}
+	for _, e := range m.dirty {
+		if e.expungeRemoved() {
+			removed++
+		}
+	}
+
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+	atomic.AddInt64(&m.len, -removed)
+}
+
+// expungeRemoved expunges an entry that is no longer part of the map and reports
+// whether it held a value.
+func (e *entry[V]) expungeRemoved() (hadValue bool) {
+	p := e.p.Swap((*V)(expunged))
+	return p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From 9deedbac3c1fd9ebb2e28bc671f786fa316fe8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:57 +0000
Subject: [PATCH 13/17] fix: synccache.LoadOrStore returned an expired entry
 when another call removed it first

---
 synccache/synccache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..fb04c0d 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,9 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		// The entry has expired: whether this call or another one removes it, it must
+		// not be handed out.
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 7c94d396aedd56f2791f894de5333a88eff9e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:46 +0000
Subject: [PATCH 14/17] fix: synccache.CompareValueAndDelete failed when the
 entry was replaced by an equal value meanwhile

---
 synccache/synccache.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index fb04c0d..a31d17e 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -136,10 +136,16 @@ func (sc *SyncCache[K, V]) CompareAndDelete(key K, oldEntry *Entry[V]) (success
 }
 
 func (sc *SyncCache[K, V]) CompareValueAndDelete(key K, oldValue V) (success bool) {
-	if e, ok := sc.Load(key); ok && reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
-		return sc.CompareAndDelete(key, e)
+	for {
+		e, ok := sc.Load(key)
+		if !ok || !reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {
+			return false
+		}
+		if sc.CompareAndDelete(key, e) {
+			return true
+		}
+		// The entry was replaced or removed in between: look at what is there now.
 	}
-	return false
 }
 
 func (sc *SyncCache[K, V]) Clear() {
-- 
2.43.0


From 03037a1fa22d26579765a95ad6f00966398911ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:32 +0000
Subject: [PATCH 15/17] fix: refresh caches read their timestamps without
 synchronisation with Clear

---
 refreshcache/refreshcache.go   | 5 +++--
 refreshcache0/refreshcache0.go | 5 +++--
 refreshcache1/refreshcache1.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..0dcf3a4 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..b500461 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..ecc4415 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -105,10 +105,11 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
 		return data, *r.err.Load()
 	}
 	defer func() {
-- 
2.43.0


From 266abbd96c11d4d2359200dd18a6b9f72dba7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:32 +0000
Subject: [PATCH 16/17] fix: refresh caches with very large ages returned zero
 values that no refresh produced

---
 refreshcache/refreshcache.go   | 12 ++++++------
 refreshcache0/refreshcache0.go | 12 ++++++------
 refreshcache1/refreshcache1.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 0dcf3a4..a1f1929 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index b500461..43a266d 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index ecc4415..e9ce243 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,19 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
 	last = atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -179,10 +179,10 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From e8db5fa85dbd120cd1ea32203393d38f6b66bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:32 +0000
Subject: [PATCH 17/17] fix: refresh caches stored a zero value as success when
 the refresh function panicked

---
 refreshcache/refreshcache.go   | 46 ++++++++++++++++------------------
 refreshcache0/refreshcache0.go | 46 ++++++++++++++++------------------
 refreshcache1/refreshcache1.go | 46 ++++++++++++++++------------------
 3 files changed, 66 insertions(+), 72 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index a1f1929..55f147e 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -112,35 +112,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 43a266d..5579ea1 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -112,35 +112,33 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index e9ce243..a7c5a19 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -112,35 +112,33 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if lastErr := atomic.LoadInt64(&r.lastErr); r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
+	return
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0

