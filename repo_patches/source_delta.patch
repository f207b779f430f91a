From 50225bd81ad5b85e6a6ebab8ff606ba5020f5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 01/31] fix: Geobucket: pushing an empty range leaves the queue
 unchanged

---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..f9cc783 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return; // insert requires a non-empty range
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From a9ac3f4e1157e25eebf146dec0f033533a14471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 02/31] fix: Geobucket: clear with trackFront leaves no stale
 front positions behind

---
 src/mathic/GeoFront.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/GeoFront.h b/src/mathic/GeoFront.h
index 62f895f..0d6c929 100755
--- a/src/mathic/GeoFront.h
+++ b/src/mathic/GeoFront.h
@@ -184,6 +184,8 @@ namespace mathic {
 
   template<class C, class B>
   void GeoFront<C, B, true>::clear() {
+    for (B** bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+      (*bucket)->setFrontToken(0); // no longer in the front
     _bucketEnd = _bucketBegin;
   }
 
-- 
2.43.0


From 043a132f6b564c3b040adfed2c76374015dd9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 03/31] fix: Heap: move construction takes over the contents of
 the source

---
 src/mathic/ComTree.h | 4 ++--
 src/mathic/Heap.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From 801a5230c83bb3f09e4dceca534561a6874aa101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 04/31] fix: TourTree: a comparison that throws during push
 leaves the tree unchanged

---
 src/mathic/TourTree.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..d9e6aa5 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -115,8 +115,21 @@ namespace mathic {
 	  MATHIC_SLOW_ASSERT(isValid());
 	  return;
 	}
-	// move leaf down as left child
 	Node posParent = _tree.lastLeaf().next().parent();
+
+	// Determine how many matches entry wins before changing anything, so
+	// that the tree is as it was before if a comparison throws.
+	size_t wins = 0;
+	for (Node pos = posParent; ; pos = pos.parent()) {
+	  typename C::CompareResult cmp = _conf.compare(_tree[pos]->entry, entry);
+	  if (!_conf.cmpLessThan(cmp))
+		break;
+	  ++wins;
+	  if (pos.isRoot())
+		break;
+	}
+
+	// move leaf down as left child
 	Player* moveDown = _tree[posParent];
 	_tree.pushBackWithCapacity(moveDown);
 	moveDown->leaf = _tree.lastLeaf();
@@ -127,18 +140,8 @@ namespace mathic {
 	_tree.pushBackWithCapacity(&_players.back());
 	MATHIC_ASSERT(_tree.lastLeaf().isRight());
 
-	Node pos = _tree.lastLeaf();
-	do {
-	  MATHIC_ASSERT(!pos.isRoot());
-	  MATHIC_ASSERT(posParent == pos.parent());
-	  typename C::CompareResult cmp = _conf.compare
-		(_tree[posParent]->entry, _tree[pos]->entry);
-	  if (!_conf.cmpLessThan(cmp))
-		break;
-	  _tree[posParent] = _tree[pos];
-	  pos = posParent;
-	  posParent = pos.parent();
-	} while (!pos.isRoot());
+	for (Node pos = posParent; wins > 0; --wins, pos = pos.parent())
+	  _tree[pos] = &_players.back();
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
-- 
2.43.0


From bbd967543dab742a3b4f4fd35e31fae0051f6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/31] fix: PairQueue: pass the row whose data is held when
 destructing it

When the rest of a column is retired the destruct callback was given the
last, skipped row of the column instead of the row that was popped.
---
 src/mathic/PairQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..75973e4 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -467,12 +467,13 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	Index const heldRow = rowIndex(); // the row that mPairData is for
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(heldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -481,7 +482,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(heldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0


From a5e3686907ad089c43bff3556b1f202041ada2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 06/31] fix: PairQueue: debug check passes the matching row
 when destructing pair data

---
 src/mathic/PairQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 75973e4..425d9eb 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -413,7 +413,7 @@ namespace mathic {
 		  (!conf.cmpLessThan(conf.compare(col, *prevIt, *prevPd,
 										  col, *it, *currentPd)));
 		PairQueueNamespace::
-		  destructPairData(currentPd.get(), col, *prevIt, conf);
+		  destructPairData(currentPd.get(), col, *it, conf);
 		PairQueueNamespace::destructPairData(prevPd.get(), col, *prevIt, conf);
 	  }
 	}
-- 
2.43.0


From 05f883eaacd4a3da47abb20dd84576b9cc78154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 07/31] fix: PairQueue: destruct the pair data when computing
 it throws

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 425d9eb..486847a 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From ed547aa7c233e4553b35e8284970e6dd6c22dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 08/31] fix: KDTree: make inserting a range work

The method did not compile when used, as the trees have no such method and
masks were not computed.
---
 src/mathic/KDTree.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..d93be84 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,16 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
         for (; begin != end; ++begin)
-          _tree.insert(*begin);
+          insert(*begin);
       } else {
-        _tree.insert(begin, end);
         // insert into empty container is equivalent to rebuild
+        _divMaskCalculator.rebuild(begin, end, getConfiguration());
+        _tree.reset(begin, end, _divMaskCalculator);
+        _size = std::distance(begin, end);
         resetNumberOfChangesTillRebuild();
       }
-      reportChanges(inserted, 0);
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 07eda75ef19bcb2394bad3ffc8894bce4ea06786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 09/31] fix: KDTree: make clear work

The method did not compile when used and did not reset the size.
---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index d93be84..fec106f 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -236,8 +236,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From ab48d00d07c91a0cabc0bde4d497641d82cbc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 10/31] fix: KDTree: make removeElement work

It did not compile for binary trees. For packed trees it left the size
unchanged and the divisor cache pointing to the removed entry.
---
 src/mathic/BinaryKDTree.h | 13 ++++++++++---
 src/mathic/KDTree.h       |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..4ce6cbf 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -291,9 +291,16 @@ namespace mathic {
       return 0;
     Node* node = _root;
 
-    while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+    while (node->isInterior()) {
+      Interior& interior = node->asInterior();
+      if (interior.getExponent() <
+          _conf.getExponent(monomial, interior.getVar()))
+        node = &interior.getStrictlyGreater();
+      else
+        node = &interior.getEqualOrLess();
+    }
+    const bool value =
+      node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index fec106f..d2224a7 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      if (removed)
+        reportChanges(0, 1);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 0a3aa98668d89579e5c4b6b643eaa7079ae40436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 11/31] fix: DivMask: choosing the exponents that bits stand
 for does not overflow

With few variables and large exponents the signed computation overflowed.
---
 src/mathic/DivMask.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 96f4bb9..c42734d 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <utility>
 #include <algorithm>
+#include <limits>
 
 // Value x means do 2^x mask checks before printing stats
 //#define MATHIC_TRACK_DIV_MASK_HIT_RATIO 25
@@ -194,6 +195,14 @@ namespace mathic {
 
   private:
     typedef typename C::Exponent Exponent;
+
+    /** Returns true if a + b is too large for the type Exponent. Neither
+        a nor b may be negative. */
+    static bool additionOverflows(const Exponent& a, const Exponent& b) {
+      typedef std::numeric_limits<Exponent> Limits;
+      return Limits::is_bounded && Limits::max() - b < a;
+    }
+
     /** If entry at index i is the pair (var,exp) then the bit at
         index var in a bit mask is 1 if the exponent of var in the
         monomial is strictly greater than exp. */
@@ -302,9 +311,12 @@ namespace mathic {
         Exponent increment = (max - min) / static_cast<Exponent>(bitsForVar); // todo: can avoid cast?
         if (increment == 0)
           increment = 1;
-        for (size_t i = 0; i < bitsForVar; ++i)
-          _bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
-           // todo: can avoid cast?
+        Exponent exp = min;
+        for (size_t i = 0; i < bitsForVar; ++i) {
+          _bits.push_back(std::make_pair(var, exp));
+          if (!additionOverflows(exp, increment))
+            exp = exp + increment;
+        }
       }
     }
   }
@@ -321,7 +333,10 @@ namespace mathic {
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
         _bits.push_back(std::make_pair(var, exp));
-        exp = (i == 0 ? 1 : exp * 2);
+        if (i == 0)
+          exp = 1;
+        else if (!additionOverflows(exp, exp))
+          exp = exp * 2;
       }
     }
   }
-- 
2.43.0


From c455a870b53572e04b397d3e7d16ce3e5b440767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 12/31] fix: KDTree: align the memory that entries of a node
 are constructed in

---
 src/mathic/KDEntryArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index c54eee3..261ee50 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -117,7 +117,7 @@ namespace mathic {
 
     /** This is the memory for the entries. It is kept as a raw char*
      to avoid constructing all the entries right away. */
-    char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
+    alignas(ExtEntry) char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
     iterator _end; // points into _beginMemory
 #ifdef MATHIC_DEBUG
     const bool _sortOnInsertDebug;
-- 
2.43.0


From eb62e51f07be89274ee47b8e4c9e5eeea730495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 13/31] fix: DivList: make getMemoryUse work for linked lists

It did not compile, as lists have no capacity.
---
 src/mathic/DivList.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..88d5d53 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -221,6 +221,17 @@ namespace mathic {
   };
 
   namespace DivListHelper {
+    template<class E>
+      size_t getMemoryUse(const std::vector<E>& list) {
+      return list.capacity() * sizeof(E);
+    }
+
+    template<class E>
+      size_t getMemoryUse(const std::list<E>& list) {
+      // each node of the list also has two pointers
+      return list.size() * (sizeof(E) + 2 * sizeof(void*));
+    }
+
     template<class C, class E, class M, class MO>
       size_t removeMultiples
       (C& conf, std::vector<E>& list, const M& monomial, MO& out) {
@@ -609,7 +620,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return DivListHelper::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From b3294e98b0e5e9d81e246aad9ce674a4dd948908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 14/31] fix: HashTable: make remove work

The method did not compile when used. Also count bins that insert fills, as
remove counts down when it empties one.
---
 src/mathic/HashTable.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..576d647 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -184,6 +184,7 @@ namespace mathic {
       {
 	result = makeNode(k,v);
 	mHashTable[hashval] = result;
+	mBinCount++;
       }
     else
       {
@@ -237,18 +238,15 @@ namespace mathic {
   template<class C>
   void HashTable<C>::remove(Handle *& p) 
   {
-    mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next)
       {
-	if (q->next == p) 
+	if (*q == p)
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    p->next = 0;
+	    mNodeCount--;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From 98e146e793670c1f00dacea7709804202c051caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 15/31] fix: HashTable: define hardReset

The method was declared but not defined, so using it did not link.
---
 src/mathic/HashTable.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 576d647..07fb607 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -17,6 +17,7 @@
 #include "stdinc.h"
 
 #include <memtailor.h>
+#include <algorithm>
 #include <cmath>
 #include <utility>
 #include <string>
@@ -163,6 +164,14 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    std::fill(mHashTable.begin(), mHashTable.end(), static_cast<Handle*>(0));
+    mNodeCount = 0;
+    mBinCount = 0;
+    mNodePool.freeAllBuffers();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-- 
2.43.0


From 095e8ef8f1fc74c961c16febda19cf95a9816501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 16/31] fix: ColumnPrinter: amounts above the largest unit do
 not read past the units

---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 425f3a91c9c1bb2e1beff02709775cfe53776697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 17/31] fix: ColumnPrinter: percentInteger does not overflow

---
 src/mathic/ColumnPrinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 053d4ac..0b9a9d6 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,10 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // numerator * 100 could overflow as an integer.
+    return oneDecimal(100.0 * numerator / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From 5ff3f39ddbb7a6e90cfd162ee58df1a446a8a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 18/31] fix: CliParser: define registerHelpAction

---
 src/mathic/CliParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..85854d0 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -2,6 +2,7 @@
 
 #include "error.h"
 #include "CliParameter.h"
+#include "HelpAction.h"
 
 namespace mathic {
   namespace {
@@ -28,6 +29,13 @@ namespace mathic {
 
   CliParser::CliParser(): _actions("action") {}
 
+  void CliParser::registerHelpAction
+    (const std::string& preMessage, const std::string& postMessage) {
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+    registerAction<HelpAction>();
+  }
+
   std::unique_ptr<Action> CliParser::createActionWithPrefix(
     const std::string& prefix
   ) {
-- 
2.43.0


From 814301c0eba2dc9e38532fd506d8d01fbdf3088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 19/31] fix: pqsim: spans of average length one do not divide
 by zero

---
 src/pqsim/Simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 8ff8c10..9274051 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -158,8 +158,9 @@ void Simulator::dupSpans
       doPush = true;
 
     if (doPush) {
-      const size_t size =
-        avgSpan - spanDeviation + rand() % (2 * spanDeviation);
+      size_t size = avgSpan;
+      if (spanDeviation > 0)
+        size = avgSpan - spanDeviation + rand() % (2 * spanDeviation);
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-- 
2.43.0


From 42d63fb527e6ef137218f39193f6a47c29e46b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 20/31] fix: pqsim: random spans pop equal elements together,
 as the models of the queues do

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 9274051..2a7c20e 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -224,7 +224,7 @@ void Simulator::orderSpans
 }
 
 void Simulator::randomSpans(size_t spanCount, size_t spanSize, size_t initialSize) {
-  SimBuilder sim(false, _mem, _events);
+  SimBuilder sim(true, _mem, _events);
   while (sim.getLiveCount() || sim.getPushCount() < spanCount) {
     bool doPop = rand() % (spanSize + 1) != 0;
     if (sim.getLiveCount() == 0)
-- 
2.43.0


From 8bc52f52f177f2996a48cabc7cff2650f86eae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:46 +0000
Subject: [PATCH 21/31] fix: a rebuild ratio of zero is legal: the debug
 assertions of the divisor finders admit it

---
 src/mathic/BinaryKDTree.h | 2 +-
 src/mathic/DivList.h      | 2 +-
 src/mathic/KDTree.h       | 2 +-
 src/mathic/PackedKDTree.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 4ce6cbf..641a976 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -631,7 +631,7 @@ next:
     return true;
 #else
     MATHIC_ASSERT(_tmp.empty());
-    MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() > 0);
+    MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() >= 0);
 
     if (_root == 0)
       return true;
diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 88d5d53..d5de41f 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -600,7 +600,7 @@ namespace mathic {
     void DivList<C>::resetNumberOfChangesTillRebuild() {
     if (!_conf.getDoAutomaticRebuilds())
       return;
-    MATHIC_ASSERT(_conf.getRebuildRatio() > 0);
+    MATHIC_ASSERT(_conf.getRebuildRatio() >= 0);
     _changesTillRebuild = std::max
       (static_cast<size_t>(size() * _conf.getRebuildRatio()),
        _conf.getRebuildMin());
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index d2224a7..708a77e 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -336,7 +336,7 @@ namespace mathic {
       _divisorCache = 0;
     if (!conf.getDoAutomaticRebuilds())
       return;
-    MATHIC_ASSERT(conf.getRebuildRatio() > 0);
+    MATHIC_ASSERT(conf.getRebuildRatio() >= 0);
     _changesTillRebuild = std::max
       (static_cast<size_t>(size() * conf.getRebuildRatio()),
        conf.getRebuildMin());
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 19dd091..43376f6 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -580,7 +580,7 @@ next:
 #else
     //print(std::cerr); std::cerr << std::flush;
     MATHIC_ASSERT(_tmp.empty());
-    MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() > 0);
+    MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() >= 0);
     if (_root == 0)
       return true;
 
-- 
2.43.0


From 9c91fe16547042f37183c0b1bd6edd448ece1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 22/31] fix: BitTriangle::addColumn adds the whole column or
 nothing when out of memory

---
 src/mathic/BitTriangle.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathic/BitTriangle.h b/src/mathic/BitTriangle.h
index c29a4dc..145d746 100755
--- a/src/mathic/BitTriangle.h
+++ b/src/mathic/BitTriangle.h
@@ -31,9 +31,7 @@ namespace mathic {
 	// one, and the index of the new column is the previous value of
 	// columnCount(). The new bits are all set to false initially.
 	void addColumn() {
-	  size_t const oldSize = mColumns.size();
-	  mColumns.resize(oldSize + 1);
-	  mColumns[oldSize].resize(oldSize);
+	  mColumns.push_back(std::vector<bool>(mColumns.size()));
 	}
 
 	// Returns the bit in the given column and row. As this is a triangle it
-- 
2.43.0


From edd526a68eed5760c1b884ec567bd667b4761025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 23/31] fix: HashTable stays consistent when out of memory

---
 src/mathic/HashTable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 07fb607..5d86c24 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -175,9 +175,9 @@ namespace mathic {
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-    mNodeCount++;
     void *buf = mNodePool.alloc();
     Handle* result = new (buf) Handle(k,v);
+    mNodeCount++;
     return result;
   }
 
@@ -272,10 +272,11 @@ namespace mathic {
   {
     MATHIC_ASSERT(computeNodeCount() == mNodeCount);
     size_t const old_table_size = mTableSize;
+    // Allocate before changing anything, in case there is not enough memory.
+    std::vector<Handle *> old_table(static_cast<size_t>(1) << new_nbits);
     mTableSize = static_cast<size_t>(1) << new_nbits;
     mLogTableSize = new_nbits;
     mHashMask = mTableSize-1;
-    std::vector<Handle *> old_table(mTableSize);
     std::swap(old_table, mHashTable);
 
     mBinCount = 0;
-- 
2.43.0


From 814448f2b2e011fa57c6df8c90b97b48fca64527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 24/31] fix: Geobucket stays consistent when a push runs out of
 memory

---
 src/mathic/Geobucket.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index f9cc783..4404af5 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -342,13 +342,14 @@ namespace mathic {
 
   template<class C>
 	void Geobucket<C>::push(Entry entry) {
-	++_entryCount;
 	Bucket& bucket = *_bucketBegin;
 	if (bucket.size() == bucket.capacity()) {
 	  const Entry* p = &entry;
 	  insert(_bucketBegin, p, p + 1, 1, Premerge<C::premerge>());
+	  ++_entryCount;
 	  return;
 	}
+	++_entryCount;
 	if (bucket.empty()) {
 	  bucket.push_back(entry);
 	  _front.insert(&bucket);
@@ -419,7 +420,6 @@ namespace mathic {
 	  return; // insert requires a non-empty range
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
-	_entryCount += entryCount;
 	while (adjCount > (_bucketEnd - 1)->capacity())
 	  addBucket();
 	for (Bucket* bucket = _bucketBegin; ; ++bucket) {
@@ -428,6 +428,7 @@ namespace mathic {
 		std::reverse_iterator<It> rBegin(end);
 		std::reverse_iterator<It> rEnd(begin);
 		insert(bucket, rBegin, rEnd, entryCount, Premerge<C::premerge>());
+		_entryCount += entryCount;
 		break;
 	  }
 	}
@@ -523,7 +524,18 @@ namespace mathic {
 	if (!C::premerge)
 	  required += newBucketSize; // for _tmpForNoPremerge
 
-	// allocate new memory
+	// allocate new memory - all of it before changing anything that would
+	// have to be changed back if there is not enough memory
+	const size_t newBucketCount = _buckets.size() + 1;
+	Bucket* oldBucketBegin = _bucketBegin;
+	_buckets.reserve(newBucketCount);
+	if (!_buckets.empty()) {
+	  // redirect pointers in _front to point to new memory for _buckets
+	  _bucketBegin = &_buckets.front();
+	  _bucketEnd = _bucketBegin + _buckets.size();
+	  _front.bucketsInvalidated(oldBucketBegin, _bucketBegin);
+	}
+	_front.reserveCapacity(newBucketCount);
 	std::vector<Entry> newMem(required);
 	std::copy(_mem.begin(), _mem.end(), newMem.begin());
 
@@ -545,13 +557,9 @@ namespace mathic {
 	  otherBuffer = &(newMem[offset]);
 	  offset += newBucketSize;
 	}
-	// redirect pointers in _front to point to new memory for _buckets
-	Bucket* oldBucketBegin = _bucketBegin;
 	_buckets.push_back(Bucket(newBucketSize, buffer, otherBuffer));
 	_bucketBegin = &_buckets.front();
 	_bucketEnd = _bucketBegin + _buckets.size();
-	_front.bucketsInvalidated(oldBucketBegin, _bucketBegin);
-	_front.reserveCapacity(_bucketEnd - _bucketBegin);
 
 	_tmp = &(newMem[offset]);
 	offset += newBucketSize;
-- 
2.43.0


From 25d0e80a0ed8c47b6a69839d05406f35f9941a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:20 +0000
Subject: [PATCH 25/31] fix: TourTree stays consistent when a push runs out of
 memory

---
 src/mathic/ComTree.h  | 9 ++++++++-
 src/mathic/TourTree.h | 8 ++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 2eea009..59e8571 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -53,6 +53,13 @@ namespace mathic {
 
     bool hasFreeCapacity(size_t extraCapacity) const;
     void increaseCapacity();
+
+    /// Returns the capacity that increaseCapacity changes the passed-in
+    /// capacity to.
+    static size_t increasedCapacity(size_t capacity) {
+      return capacity == 0 ? 16 : capacity * 2;
+    }
+
     void swap(ComTree& tree);
 
     class Node {
@@ -315,7 +322,7 @@ namespace mathic {
   template<class E, bool FI>
   void ComTree<E, FI>::increaseCapacity() {
     MATHIC_ASSERT(isValid());
-    ComTree<E, FI> newTree(capacity() == 0 ? 16 : capacity() * 2);
+    ComTree<E, FI> newTree(increasedCapacity(capacity()));
     for (Node i; i <= lastLeaf(); i = i.next())
       newTree.pushBack((*this)[i]);
     MATHIC_ASSERT(newTree.isValid());
diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index d9e6aa5..fe6675d 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -224,8 +224,10 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::reallocate() {
 	MATHIC_ASSERT(isValid());
-	_tree.increaseCapacity();
-	const size_t newCapacity = _tree.capacity();
+	// Make room for the players before making room in the tree. If there is
+	// not enough memory for the latter, then there is merely room for more
+	// players than necessary.
+	const size_t newCapacity = Tree::increasedCapacity(_tree.capacity());
 	if (_players.empty())
 	  _players.reserve(newCapacity / 2 + 2);
 	else {
@@ -235,6 +237,8 @@ namespace mathic {
 	  for (Node pos; pos <= _tree.lastLeaf(); ++pos)
 		_tree[pos] = newBegin + (_tree[pos] - oldBegin);
 	}
+	_tree.increaseCapacity();
+	MATHIC_ASSERT(_tree.capacity() == newCapacity);
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 3b34d6d973484ca2492966996adbfa1b4bbc7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:50 +0000
Subject: [PATCH 26/31] fix: KD trees forget an unfinished search when a
 callback throws

---
 src/mathic/BinaryKDTree.h | 16 ++++++++++++++++
 src/mathic/PackedKDTree.h | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 641a976..0442c2c 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -238,6 +238,16 @@ namespace mathic {
       Interior* parent;
     };
 
+    /// Clears _tmp when going out of scope, also if that is because a
+    /// callback or an allocation throws an exception.
+    class TmpClearer {
+    public:
+      TmpClearer(std::vector<Node*>& tmp): _tmp(tmp) {}
+      ~TmpClearer() {_tmp.clear();}
+    private:
+      std::vector<Node*>& _tmp;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -260,6 +270,7 @@ namespace mathic {
   template<class MO>
   size_t BinaryKDTree<C>::removeMultiples(const ExtMonoRef& extMonomial, MO& out) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return 0;
     size_t removedCount = 0;
@@ -433,6 +444,7 @@ namespace mathic {
 
     MATHIC_ASSERT(debugIsValid());
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return 0;
     Node* node = _root;
@@ -473,6 +485,7 @@ namespace mathic {
   template<class DO>
   void BinaryKDTree<C>::findAllDivisors(const ExtMonoRef& extMonomial, DO& output) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -508,6 +521,7 @@ next:
   template<class DO>
   void BinaryKDTree<C>::findAllMultiples(const ExtMonoRef& extMonomial, DO& output) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -540,6 +554,7 @@ next:
   template<class EO>
   void BinaryKDTree<C>::forAll(EO& output) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -594,6 +609,7 @@ next:
   void BinaryKDTree<C>::print(std::ostream& out) const {
     out << "<<<<<<<< BinaryKDTree >>>>>>>>\n";
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root != 0) {
       Node* node = _root;
       while (true) {
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 43376f6..13beb7c 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -163,6 +163,16 @@ namespace mathic {
       typename Node::Child* fromParent;
     };
 
+    /// Clears _tmp when going out of scope, also if that is because a
+    /// callback or an allocation throws an exception.
+    class TmpClearer {
+    public:
+      TmpClearer(std::vector<Node*>& tmp): _tmp(tmp) {}
+      ~TmpClearer() {_tmp.clear();}
+    private:
+      std::vector<Node*>& _tmp;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -219,6 +229,7 @@ namespace mathic {
     MO& out
   ) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return 0;
     size_t removedCount = 0;
@@ -397,6 +408,7 @@ stopped:;
   typename PackedKDTree<C>::Entry* PackedKDTree<C>::findDivisor
     (const ExtMonoRef& extMonomial) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return 0;
     Node* node = _root;
@@ -440,6 +452,7 @@ next:
     DO& output
   ) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -472,6 +485,7 @@ next:
     DO& output
   ) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -499,6 +513,7 @@ next:
   template<class EO>
   void PackedKDTree<C>::forAll(EO& output) {
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
@@ -548,6 +563,7 @@ next:
   void PackedKDTree<C>::print(std::ostream& out) const {
     out << "<<<<<<<< PackedKDTree >>>>>>>>\n";
     MATHIC_ASSERT(_tmp.empty());
+    TmpClearer tmpClearer(_tmp);
     if (_root == 0)
       return;
     Node* node = _root;
-- 
2.43.0


From fa9b23885f75170eaa1c574a8e8774a4e9725715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:50 +0000
Subject: [PATCH 27/31] fix: DivMask::Calculator keeps its bits when a rebuild
 throws

---
 src/mathic/DivMask.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index c42734d..e7a0fda 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -220,9 +220,12 @@ namespace mathic {
       return;
     }
 
-    _bits.clear();
+    // _bits must not change if an exception is thrown, as masks
+    // computed using it then stay in use.
+    BitContainer bits;
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
+    bits.reserve(TotalBits);
 
     // ** Determine information about each variable
     std::vector<VarData> datas;
@@ -260,7 +263,7 @@ namespace mathic {
         ++bitsForVars[var];
     }
 
-    // calculate the meaning of each bit and put it in _bits
+    // calculate the meaning of each bit and put it in bits
     for (size_t var = 0; var < varCount; ++var) {
       const size_t bitsForVar = bitsForVars[var];
       if (bitsForVar == 0)
@@ -287,7 +290,7 @@ namespace mathic {
             if (j == size)
               break;
           }
-          _bits.push_back(
+          bits.push_back(
             std::make_pair(var, conf.getExponent(begin[j], var)));
           lastJ = j;
           lastExp = conf.getExponent(begin[j], var);
@@ -313,20 +316,23 @@ namespace mathic {
           increment = 1;
         Exponent exp = min;
         for (size_t i = 0; i < bitsForVar; ++i) {
-          _bits.push_back(std::make_pair(var, exp));
+          bits.push_back(std::make_pair(var, exp));
           if (!additionOverflows(exp, increment))
             exp = exp + increment;
         }
       }
     }
+    _bits.swap(bits);
   }
 
   template<class C>
     void DivMask::Calculator<C, true>::
     rebuildDefault(const C& conf) {
-    _bits.clear();
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
+    // There is at most this much to insert, so from here on nothing throws.
+    _bits.reserve(TotalBits);
+    _bits.clear();
     for (size_t var = 0; var < varCount; ++var) {
       const size_t bitsForVar =
         TotalBits / varCount + (var < TotalBits % varCount);
-- 
2.43.0


From 0194d0ef3eb17532896d761eb622e8b87282369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 28/31] fix: DivList inserts a range into an empty list
 completely or not at all

---
 src/mathic/DivList.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index d5de41f..d9f787a 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -430,10 +430,15 @@ namespace mathic {
       return;
 
     _divMaskCalculator.rebuild(rangeBegin, rangeEnd, _conf);
-    for (; rangeBegin != rangeEnd; ++rangeBegin)
-      _list.push_back(ExtEntry(*rangeBegin, _divMaskCalculator, _conf));
-    if (_conf.getSortOnInsert())
-      DivListHelper::sortAll(_conf, _list);
+    try {
+      for (; rangeBegin != rangeEnd; ++rangeBegin)
+        _list.push_back(ExtEntry(*rangeBegin, _divMaskCalculator, _conf));
+      if (_conf.getSortOnInsert())
+        DivListHelper::sortAll(_conf, _list);
+    } catch (...) {
+      _list.clear(); // the entries are not sorted yet
+      throw;
+    }
     resetNumberOfChangesTillRebuild();
   }
 
-- 
2.43.0


From 271c84bc8251eeba24e269d13ceffbb442c5f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:51 +0000
Subject: [PATCH 29/31] fix: an interrupted build of a KD tree does not leave a
 broken tree behind

---
 src/mathic/BinaryKDTree.h | 46 +++++++++++++++++++++++++++++----------
 src/mathic/KDTree.h       | 10 ++++++++-
 src/mathic/PackedKDTree.h | 43 ++++++++++++++++++++++++++++--------
 3 files changed, 78 insertions(+), 21 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 0442c2c..7e6f5c0 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -114,10 +114,12 @@ namespace mathic {
 
       Node& getEqualOrLess() {return *_equalOrLess;}
       const Node& getEqualOrLess() const {return *_equalOrLess;}
+      Node* getEqualOrLessOrNull() {return _equalOrLess;}
       void setEqualOrLess(Node* equalOrLess) {_equalOrLess = equalOrLess;}
 
       Node& getStrictlyGreater() {return *_strictlyGreater;}
       const Node& getStrictlyGreater() const {return *_strictlyGreater;}
+      Node* getStrictlyGreaterOrNull() {return _strictlyGreater;}
       void setStrictlyGreater(Node* strictlyGreater) {
         _strictlyGreater = strictlyGreater;
       }
@@ -248,6 +250,17 @@ namespace mathic {
       std::vector<Node*>& _tmp;
     };
 
+    /// Clears the tree when going out of scope, unless told not to. The
+    /// tree may have children that are null.
+    class TreeClearer {
+    public:
+      TreeClearer(BinaryKDTree<C>& tree): _tree(&tree) {}
+      ~TreeClearer() {if (_tree != 0) _tree->clear();}
+      void dismiss() {_tree = 0;}
+    private:
+      BinaryKDTree<C>* _tree;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -350,6 +363,7 @@ namespace mathic {
     clear();
     if (insertBegin == insertEnd)
       return;
+    TreeClearer treeClearer(*this); // in case of an exception
 
     typedef InsertTodo<Iter> Task;
     typedef std::vector<Task> TaskCont;
@@ -435,6 +449,7 @@ namespace mathic {
         node->updateToLowerBound(node->getStrictlyGreater());
       }
     }
+    treeClearer.dismiss();
     MATHIC_ASSERT(debugIsValid());
   }
 
@@ -581,18 +596,27 @@ next:
   template<class C>
   void BinaryKDTree<C>::clear() {
     MATHIC_ASSERT(_tmp.empty());
-    // Call Entry destructors
-    if (_root != 0)
-      _tmp.push_back(_root);
-    while (!_tmp.empty()) {
-      Node* node = _tmp.back();
-      _tmp.pop_back();
-      while (node->isInterior()) {
-        _tmp.push_back(&node->asInterior().getStrictlyGreater());
-        node = &node->asInterior().getEqualOrLess();
+    // Call Entry destructors. This is not to allocate memory, so link the
+    // interior nodes whose strictly greater child remains to be visited
+    // through their pointers to the equal-or-less child, which has been
+    // visited already. Children are null if reset was interrupted by an
+    // exception.
+    Node* todo = 0;
+    Node* node = _root;
+    while (true) {
+      while (node != 0 && node->isInterior()) {
+        Interior& interior = node->asInterior();
+        Node* const child = interior.getEqualOrLessOrNull();
+        interior.setEqualOrLess(todo);
+        todo = &interior;
+        node = child;
       }
-      MATHIC_ASSERT(node->isLeaf());
-      node->asLeaf().entries().clear();
+      if (node != 0)
+        node->asLeaf().entries().clear();
+      if (todo == 0)
+        break;
+      node = todo->asInterior().getStrictlyGreaterOrNull();
+      todo = todo->asInterior().getEqualOrLessOrNull();
     }
     _arena.freeAllAllocs();
     _root = 0;
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 708a77e..40fd6b5 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -10,6 +10,7 @@
 #include <string>
 #include <algorithm>
 #include <iterator>
+#include <new>
 #include <sstream>
 #include <vector>
 
@@ -250,7 +251,14 @@ namespace mathic {
       _tree.forAll(recorder);
       _divMaskCalculator.rebuild
         (recorder.begin(), recorder.end(), getConfiguration());
-      _tree.reset(recorder.begin(), recorder.end(), _divMaskCalculator);
+      try {
+        _tree.reset(recorder.begin(), recorder.end(), _divMaskCalculator);
+      } catch (const std::bad_alloc&) {
+        // The tree is now empty. Inserting the entries one at a time does
+        // not need the temporary memory that resetting the tree does.
+        for (Entry* it = recorder.begin(); it != recorder.end(); ++it)
+          _tree.insert(ExtEntry(*it, _divMaskCalculator, getConfiguration()));
+      }
       resetNumberOfChangesTillRebuild();
     }
 
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 13beb7c..880d102 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -72,6 +72,7 @@ namespace mathic {
       const_iterator childEnd() const {return _childrenEnd;}
 
       bool hasChildren() const {return childBegin() != childEnd();}
+      Node* popChild() {return (--_childrenEnd)->node;}
       template<class ME> // ME is MonomialOrEntry
       bool inChild(const_iterator child, const ME me, const C& conf) const {
         return child->exponent < conf.getExponent(me, child->var);
@@ -173,6 +174,17 @@ namespace mathic {
       std::vector<Node*>& _tmp;
     };
 
+    /// Clears the tree when going out of scope, unless told not to. The
+    /// tree may have children that are null.
+    class TreeClearer {
+    public:
+      TreeClearer(PackedKDTree<C>& tree): _tree(&tree) {}
+      ~TreeClearer() {if (_tree != 0) _tree->clear();}
+      void dismiss() {_tree = 0;}
+    private:
+      PackedKDTree<C>* _tree;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -312,6 +324,7 @@ stopped:;
     clear();
     if (insertBegin == insertEnd)
       return;
+    TreeClearer treeClearer(*this); // in case of an exception
 
     typedef InsertTodo<Iter> Task;
     typedef std::vector<Task> TaskCont;
@@ -353,6 +366,8 @@ stopped:;
       }
       Node* node = Node::makeNode
         (begin, end, _arena, calc, _conf, children.size());
+      for (size_t child = 0; child < children.size(); ++child)
+        (node->childBegin() + child)->node = 0;
       if (_root == 0)
         _root = node;
       if (fromParent != 0)
@@ -401,6 +416,7 @@ stopped:;
         MATHIC_ASSERT(node->debugIsValid());
       }
     }
+    treeClearer.dismiss();
     MATHIC_ASSERT(debugIsValid());
   }
 
@@ -536,16 +552,25 @@ next:
   template<class C>
   void PackedKDTree<C>::clear() {
     MATHIC_ASSERT(_tmp.empty());
-    // Call Entry destructors
-    if (_root != 0)
-      _tmp.push_back(_root);
-    while (!_tmp.empty()) {
-      Node* node = _tmp.back();
-      _tmp.pop_back();
+    // Call Entry destructors. This is not to allocate memory, so the way
+    // back from a child is recorded in the memory of the parent's pointer to
+    // it. Children are null if reset was interrupted by an exception.
+    Node* parent = 0;
+    Node* node = _root;
+    while (node != 0) {
       node->entries().clear(); // calls destructors
-      for (typename Node::iterator it = node->childBegin();
-        it != node->childEnd(); ++it)
-        _tmp.push_back(it->node);
+      if (node->hasChildren()) {
+        Node* child = node->popChild();
+        if (child != 0) {
+          node->childEnd()->node = parent;
+          parent = node;
+          node = child;
+        }
+      } else {
+        node = parent;
+        if (node != 0)
+          parent = node->childEnd()->node;
+      }
     }
     _arena.freeAllAllocs();
     _root = 0;
-- 
2.43.0


From 7525e7f8863d3a9005633ac0e30e4602e5ab0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:41 +0000
Subject: [PATCH 30/31] fix: removeMultiples keeps a divisor finder consistent
 when a callback throws

---
 src/mathic/BinaryKDTree.h | 16 +++++++++------
 src/mathic/DivList.h      | 18 +++++++++++------
 src/mathic/KDEntryArray.h | 41 +++++++++++++++++++++++++--------------
 src/mathic/KDTree.h       | 10 +++++++++-
 src/mathic/PackedKDTree.h | 15 +++++++-------
 5 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 7e6f5c0..e39e4a2 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -196,7 +196,8 @@ namespace mathic {
     ~BinaryKDTree();
 
     template<class MultipleOutput>
-    size_t removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out);
+    void removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out,
+      size_t& removedCount);
 
     bool removeElement(const Monomial& monomial);
 
@@ -281,12 +282,15 @@ namespace mathic {
 
   template<class C>
   template<class MO>
-  size_t BinaryKDTree<C>::removeMultiples(const ExtMonoRef& extMonomial, MO& out) {
+  void BinaryKDTree<C>::removeMultiples(
+    const ExtMonoRef& extMonomial,
+    MO& out,
+    size_t& removedCount
+  ) {
     MATHIC_ASSERT(_tmp.empty());
     TmpClearer tmpClearer(_tmp);
     if (_root == 0)
-      return 0;
-    size_t removedCount = 0;
+      return;
     Node* node = _root;
     while (true) {
       while (node->isInterior()) {
@@ -297,7 +301,8 @@ namespace mathic {
         node = &interior.getStrictlyGreater();
       }
       MATHIC_ASSERT(node->isLeaf());
-      removedCount += node->asLeaf().entries().removeMultiples(extMonomial, out, _conf);
+      node->asLeaf().entries().
+        removeMultiples(extMonomial, out, _conf, removedCount);
       if (_tmp.empty())
         break;
       node = _tmp.back();
@@ -305,7 +310,6 @@ namespace mathic {
     }
     MATHIC_ASSERT(_tmp.empty());
     MATHIC_ASSERT(debugIsValid());
-    return removedCount;
   }
 
   template<class C>
diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index d9f787a..c2962cc 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -247,12 +247,18 @@ namespace mathic {
       if (it == oldEnd)
         return 0;
       iterator newEnd = it;
-      for (++it; it != oldEnd; ++it) {
-        if (!monomial.divides(*it, conf)) {
-          *newEnd = *it;
-          ++newEnd;
-        } else
-          out.push_back(it->get());
+      try {
+        for (++it; it != oldEnd; ++it) {
+          if (!monomial.divides(*it, conf)) {
+            *newEnd = *it;
+            ++newEnd;
+          } else
+            out.push_back(it->get());
+        }
+      } catch (...) {
+        // close the gap left by the entries removed so far
+        list.erase(std::copy(it, oldEnd, newEnd), oldEnd);
+        throw;
       }
       const size_t origSize = list.size();
       const size_t newSize = std::distance(list.begin(), newEnd);
diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index 261ee50..af01e51 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -58,9 +58,11 @@ namespace mathic {
     void insert(iterator it, const EE& entry);
     void insert(const EE& entry, const C& conf);
 
-    /** Returns how many were removed. */
+    /** Adds how many were removed to removedCount, also when an exception
+     is thrown. */
     template<class EM, class MO>
-    size_t removeMultiples(const EM& monomial, MO& out, const C& conf);
+    void removeMultiples
+      (const EM& monomial, MO& out, const C& conf, size_t& removedCount);
 
     template<class M>
     bool removeElement(const M& monomial, const C& conf);
@@ -283,15 +285,16 @@ namespace mathic {
 
   template<class C, class EE>
   template<class EM, class MO>
-  size_t KDEntryArray<C, EE>::removeMultiples
-    (const EM& monomial, MO& out, const C& conf) {
+  void KDEntryArray<C, EE>::removeMultiples
+    (const EM& monomial, MO& out, const C& conf, size_t& removedCount) {
     MATHIC_ASSERT(C::AllowRemovals);
     if (C::LeafSize == 1) { // special case for performance
       if (empty() || !monomial.divides(*begin(), conf))
-        return 0;
+        return;
       out.push_back(begin()->get());
       pop_back();
-      return 1;
+      ++removedCount;
+      return;
     }
 
     iterator it = begin();
@@ -303,25 +306,33 @@ namespace mathic {
       }
     }
     if (it == oldEnd)
-      return 0;
+      return;
     iterator newEnd = it;
-    for (++it; it != oldEnd; ++it) {
-      if (!monomial.divides(*it, conf)) {
-        *newEnd = *it;
-        ++newEnd;
-      } else
-        out.push_back(it->get());
+    try {
+      for (++it; it != oldEnd; ++it) {
+        if (!monomial.divides(*it, conf)) {
+          *newEnd = *it;
+          ++newEnd;
+        } else
+          out.push_back(it->get());
+      }
+    } catch (...) {
+      // close the gap left by the entries removed so far
+      newEnd = std::copy(it, oldEnd, newEnd);
+      removedCount += std::distance(newEnd, oldEnd);
+      while (newEnd != end())
+        pop_back();
+      throw;
     }
     // cannot just set _end directly as the superfluous
     // entries at the end need to be destructed.
     const size_t newSize = std::distance(begin(), newEnd);
-    const size_t removedCount = size() - newSize;
+    removedCount += size() - newSize;
     MATHIC_ASSERT(newSize < size());
     do {
       pop_back();
     } while (newSize < size());
     MATHIC_ASSERT(size() == newSize);
-    return removedCount;
   }
 
   template<class C, class EE>
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 40fd6b5..2c8f84a 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -112,7 +112,15 @@ namespace mathic {
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
       ExtMonoRef extMonomial(monomial, _divMaskCalculator, getConfiguration());
-      size_t removedCount = _tree.removeMultiples(extMonomial, out);
+      size_t removedCount = 0;
+      try {
+        _tree.removeMultiples(extMonomial, out, removedCount);
+      } catch (...) {
+        _size -= removedCount;
+        if (getConfiguration().getUseDivisorCache())
+          _divisorCache = 0;
+        throw;
+      }
       reportChanges(0, removedCount);
       return removedCount > 0;
     }
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 880d102..ed83fce 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -119,7 +119,8 @@ namespace mathic {
     ~PackedKDTree();
 
     template<class MultipleOutput>
-    size_t removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out);
+    void removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out,
+      size_t& removedCount);
 
     bool removeElement(const Monomial& monomial);
 
@@ -236,15 +237,15 @@ namespace mathic {
 
   template<class C>
   template<class MO>
-  size_t PackedKDTree<C>::removeMultiples(
+  void PackedKDTree<C>::removeMultiples(
     const ExtMonoRef& extMonomial,
-    MO& out
+    MO& out,
+    size_t& removedCount
   ) {
     MATHIC_ASSERT(_tmp.empty());
     TmpClearer tmpClearer(_tmp);
     if (_root == 0)
-      return 0;
-    size_t removedCount = 0;
+      return;
     Node* node = _root;
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
@@ -253,7 +254,8 @@ namespace mathic {
         if (node->inChild(it, extMonomial.get(), _conf))
           goto stopped;
       }
-      removedCount += node->entries().removeMultiples(extMonomial, out, _conf);
+      node->entries().
+        removeMultiples(extMonomial, out, _conf, removedCount);
 stopped:;
       if (_tmp.empty())
         break;
@@ -262,7 +264,6 @@ stopped:;
     }
     MATHIC_ASSERT(_tmp.empty());
     MATHIC_ASSERT(debugIsValid());
-    return removedCount;
   }
 
   template<class C>
-- 
2.43.0


From 0f0c16344b81d6f0dc0539657b4ece1a78aa5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:27 +0000
Subject: [PATCH 31/31] fix: masks are built from the exponents of the variable
 they are for

The range of exponents of a variable started at the exponent of variable
0 of the first monomial. If that is far away from the exponents of the
variable, the bits of the variable are spread over a range in which
there are no exponents and exclude nothing.
---
 src/mathic/DivMask.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index e7a0fda..3bcedb2 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -230,7 +230,7 @@ namespace mathic {
     // ** Determine information about each variable
     std::vector<VarData> datas;
     for (size_t var = 0; var < varCount; ++var) {
-      Exponent min = conf.getExponent(*begin, 0);
+      Exponent min = conf.getExponent(*begin, var);
       Exponent max = min;
       for (Iter it = begin; it != end; ++it) {
         Exponent exp = conf.getExponent(*it, var);
@@ -298,7 +298,7 @@ namespace mathic {
             break;
         }
       } else {
-        Exponent min = conf.getExponent(*begin, 0);
+        Exponent min = conf.getExponent(*begin, var);
         Exponent max = min;
         for (Iter it = begin; it != end; ++it) {
           Exponent exp = conf.getExponent(*it, var);
-- 
2.43.0

