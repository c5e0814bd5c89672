From d3e83cbcaed4098ea80e831d982b3c5f80e56853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 01/22] fix: twig.With no longer appends into the shared
 backing array

Two values derived from the same set of fully colliding elements could share
spare slice capacity, so that the second With overwrote the first result.
---
 internal/pkg/tree/twig.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..ae8b3c6 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -288,7 +288,9 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -300,7 +302,9 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 4657affdcf77f46e178590d28fd9a95bb8997058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 02/22] fix: combine leaves and twigs of fully colliding
 elements

Union, Update and Merge panicked or dropped elements when three or more
elements with the same hash met in one operand.
---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 33 +++++++++------------------------
 3 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..df25f9c 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -70,6 +70,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
 		if args.eq(l.data, n.data) {
 			return newLeaf1(args.f(l.data, n.data)), 1
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index ae8b3c6..2e231ac 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -107,42 +107,27 @@ func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T]
 	switch n := n.(type) {
 	case *twig[T]:
 		ndata = n.data
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 53bf8e61a6c830a3f3af25d4d98abb7716e87ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 03/22] fix: Reduce no longer hands internal arrays to the
 callback

A reducer that modified its argument slice altered the frozen set.
---
 internal/pkg/tree/leaf2.go | 3 ++-
 internal/pkg/tree/twig.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 7177178..7c350de 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -168,7 +168,8 @@ func (l *leaf2[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *leaf2[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data[:]...)
+	data := l.data
+	return r(data[:]...)
 }
 
 func (l *leaf2[T]) Remove(v T, _ int, _ hasher) (_ node[T], matches int) {
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 2e231ac..a6caf0d 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -199,7 +199,7 @@ func (l *twig[T]) Iterator([][]node[T]) Iterator[T] {
 }
 
 func (l *twig[T]) Reduce(_ NodeArgs, _ int, r func(values ...T) T) T {
-	return r(l.data...)
+	return r(append([]T(nil), l.data...)...)
 }
 
 func (l *twig[T]) Remove(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 61defa9f7d14f53872f55d1cd0a1696b2246a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 04/22] fix: data races between the goroutines of a parallel
 Combine

The branches updated the shared child mask and lazily cached the flipped
arguments without synchronisation.
---
 internal/pkg/tree/branch.go   |  4 ++--
 internal/pkg/tree/nodeArgs.go | 16 +++++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..8274972 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,18 +34,16 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	a := &CombineArgs[T]{EqArgs: ea, f: combine}
+	a.flipped = &CombineArgs[T]{
+		EqArgs:  ea,
+		f:       func(a, b T) T { return combine(b, a) },
+		flipped: a,
+	}
+	return a
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
-	}
 	return a.flipped
 }
 
-- 
2.43.0


From 070a3a0b54c8d6d7de1e71844415ce82d06ad651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 05/22] fix: IntSet loses negative integers

The remainder of a negative integer is negative, so its bit was shifted out.
---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..db6a04f 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << (uint(i) % cellBits)
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 170a955e7fc70cb0fab3b2e6082d981c477fa41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 06/22] fix: BitIterator.Without ignores operator precedence

---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 561bf4f577b87d8b3ca88a1264de1efb27c55157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 07/22] fix: formatting an empty tree dereferences nil

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 9ffdeb707849658a3a32855f30cc285150be5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 08/22] fix: joining with an empty relation yields the empty
 relation

---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..a46ddec 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -59,7 +59,7 @@ func Join(relations ...Relation) Relation {
 
 func join(s, t Relation) Relation {
 	if s.IsEmpty() || t.IsEmpty() {
-		return s
+		return Relation{}
 	}
 	if s.Equal(trueSet) {
 		return t
-- 
2.43.0


From 22866e6dc66f3bc6b8ef2be33f9e93a3eb23e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 09/22] fix: Nest groups on the attributes that are not nested
 anywhere

With several nested attributes it only removed those common to all of them.
---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index a46ddec..c33a6df 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -144,7 +144,7 @@ func Nest(s Relation, attrAttrs frozen.Map[string, frozen.Set[string]]) Relation
 	// attrAttrs = {aa: {a}}
 
 	// {a}
-	keyAttrs := frozen.Intersection(attrAttrs.Values().Elements()...).Elements()
+	keyAttrs := frozen.Union(attrAttrs.Values().Elements()...).Elements()
 	log.Print("keyAttrs = ", keyAttrs)
 
 	// {
-- 
2.43.0


From 58f60dc45c1082d06c97ccaca810d3bc73b323d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 10/22] fix: Iota3 does not terminate when the last step
 overflows

---
 set_extra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set_extra.go b/set_extra.go
index 31384ef..2906275 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -27,11 +27,11 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 	}
 	var b SetBuilder[T]
 	if step > 0 {
-		for i := start; i < stop; i += step {
+		for i, prev := start, start; i < stop && i >= prev; prev, i = i, i+step {
 			b.Add(i)
 		}
 	} else {
-		for i := start; i > stop; i += step {
+		for i, prev := start, start; i > stop && i <= prev; prev, i = i, i+step {
 			b.Add(i)
 		}
 	}
-- 
2.43.0


From 8cb07fc5e50894c6a97147c197f5f02b427e0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 11/22] fix: membership of a lazy difference ignored the
 subtrahend

---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From 658ab1481accaa0cebea79a1ca1b2b7622155036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 12/22] fix: FastHas of a lazy union ignored the second operand

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..832466c 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return false, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From 0d8dad97472dc67e5c87f9598efd898d17234dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 13/22] fix: the lazy empty set compared equal to every lazy
 set

---
 lazy/set_empty.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..cd5f410 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -36,9 +36,9 @@ func (EmptySet) Freeze() Set {
 	return Frozen(frozen.Set[any]{})
 }
 
-func (EmptySet) Equal(set any) bool {
+func (s EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return s.EqualSet(set)
 	}
 	return false
 }
-- 
2.43.0


From 68e01d6d7ae644f9dc76d2b6d86b733ed5f1d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 14/22] fix: lazy counts counted duplicates

---
 lazy/set_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..7fb9632 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -43,7 +43,7 @@ func (s *baseSet) CountUpTo(limit int) int {
 		return count
 	}
 	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
+	for i := memo(s.set).Range(); n < limit && i.Next(); {
 		n++
 	}
 	return n
-- 
2.43.0


From 46f79e8ac6cf14afd89f073b5bf7f7e7cdf77954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 15/22] fix: lazy hashes depended on iteration order and
 duplicates

---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 7fb9632..374265e 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := memo(s.set).Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From f8189f2e5d2e214806424c8ab6bd3eb078b73671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 16/22] fix: stepping a lazy iterator past its end emptied the
 set

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From 1c254a8e405ef85021fa43a4fca64074a3e131db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 17/22] fix: a lazy powerset is never empty

---
 lazy/set_powerset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..40ac418 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -18,7 +18,7 @@ func powerset(set Set) Set {
 }
 
 func (s *powerSet) IsEmpty() bool {
-	return s.set.IsEmpty()
+	return false
 }
 
 func (s *powerSet) FastIsEmpty() (empty, ok bool) {
-- 
2.43.0


From dfb05c81cf5ce3c349d5f5f4fecb503e39b10974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 18/22] fix: a lazy powerset did not have its own elements

---
 lazy/set_powerset.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 40ac418..e429fb8 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,8 +57,13 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	switch ss := el.(type) {
+	case Set:
+		return ss.IsSubsetOf(s.set)
+	case frozen.Set[any]:
+		return Frozen(ss).IsSubsetOf(s.set)
+	}
+	return false
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 2536fd339e9dc034e19185621df590d5d8f05bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 19/22] fix: counting lazy powersets of large sets

Count overflowed to a negative number for 63 elements, and CountUpTo, meant
for intractable sets, panicked.
---
 lazy/set_powerset.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index e429fb8..1922a93 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -26,7 +26,7 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0))-1 {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
@@ -34,7 +34,7 @@ func (s *powerSet) Count() int {
 
 func (s *powerSet) FastCount() (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			return 1 << uint(count), true
 		}
 		panic("Count(): too many elements")
@@ -44,14 +44,12 @@ func (s *powerSet) FastCount() (count int, ok bool) {
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
-			n := 1 << uint(count)
-			if n < limit {
+		if count < int(8*unsafe.Sizeof(0))-1 {
+			if n := 1 << uint(count); n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From c33bbd857011264977b918b8adc1a214bcf1279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 20/22] fix: lazy difference and powerset exposed repeated
 elements

---
 lazy/set_diff.go     | 2 +-
 lazy/set_powerset.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index db1ec43..f27a5e7 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -10,7 +10,7 @@ func difference(a, b Set) Set {
 		return a
 	}
 	if empty, ok := b.FastIsEmpty(); ok && empty {
-		return a
+		return memo(a) // a may be the set inside a memo, which may repeat elements
 	}
 	s := &differenceSet{a: a, b: b}
 	s.baseSet.set = s
diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 1922a93..a40be8e 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -12,7 +12,7 @@ type powerSet struct {
 }
 
 func powerset(set Set) Set {
-	s := &powerSet{set: set}
+	s := &powerSet{set: memo(set)} // set may be the set inside a memo, which may repeat elements
 	s.baseSet.set = s
 	return memo(s)
 }
-- 
2.43.0


From 62ad63031d9f3740ab88dbd69994654a49ab4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 21/22] fix: OrderedFirstN and FirstN allocated for n elements
 however few there are

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index d3b552f..9e574ac 100644
--- a/set.go
+++ b/set.go
@@ -104,6 +104,9 @@ func (s Set[T]) AnyN(n int) Set[T] {
 
 // OrderedFirstN returns a list of elements in a defined order.
 func (s Set[T]) OrderedFirstN(n int, less tree.Less[T]) []T {
+	if count := s.Count(); n > count {
+		n = count
+	}
 	result := make([]T, 0, n)
 	currentLength := 0
 	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
-- 
2.43.0


From 542601507d1db4b3a0129ecfc469cc8bfbdcc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 22/22] fix: lazy Where applied its predicate to things that
 are not elements

---
 lazy/set_where.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_where.go b/lazy/set_where.go
index afdf6c6..83aa530 100644
--- a/lazy/set_where.go
+++ b/lazy/set_where.go
@@ -20,7 +20,7 @@ func (s *whereSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *whereSet) Has(el any) bool {
-	return s.pred(el) && s.src.Has(el)
+	return s.src.Has(el) && s.pred(el)
 }
 
 func (s *whereSet) Range() SetIterator {
-- 
2.43.0

