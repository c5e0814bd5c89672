#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, easier to edit than long JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

TREE = ["internal/pkg/tree/branch.go", "internal/pkg/tree/leaf1.go", "internal/pkg/tree/leaf2.go",
        "internal/pkg/tree/twig.go", "internal/pkg/tree/tree.go", "internal/pkg/tree/packer.go"]

p("C01", "Values never change once obtained",
  "The observable content of a Set, Map or IntSet (its elements or entries, count, membership and lookup results) never changes after it is obtained. "
  "No later call on it, on a value derived from it or sharing structure with it, on the builder that produced it, or made inside a caller-supplied callback (including one that overwrites the slice it was handed) can alter it. "
  "This includes values whose elements collide in hash and values derived several times from one common ancestor.",
  ["histories", "inputs"],
  "all finite histories of API calls over any number of live values, builders and iterators, any element hashes, re-observing every earlier value after every later call",
  "Tests check the value just returned; almost none re-reads an older version after a newer one was derived from it, none branches two versions off one ancestor that holds full hash collisions, and structural sharing bugs (slice aliasing, in-place node edits) only show in a third value.",
  TREE + ["internal/pkg/tree/builder.go", "set.go", "map.go", "intset.go"],
  [("path copying in With/Without/Combine", "internal/pkg/tree/branch.go:newBranch/WithChild"),
   ("collision bucket copy-on-write", "internal/pkg/tree/twig.go:cloneWithExtra"),
   ("ownership hand-off on Finish", "internal/pkg/tree/builder.go:Finish")],
  ["frozen.Set", "frozen.Map", "frozen.IntSet public methods"],
  [("root/count", "shared immutable trie and its cached size", "internal/pkg/tree/tree.go:Tree")])

p("C02", "Set operations compute exact set algebra",
  "For all sets, adding, removing, filtering, mapping, union, intersection, difference and symmetric difference (binary and n-ary) return exactly the mathematically specified set, and the subset and equality tests return the mathematically correct answer. "
  "The cached count of every result equals the number of its distinct elements. "
  "This holds for every size, overlap and operand order, and for operands built in any way.",
  ["inputs", "histories"],
  "all pairs/sequences of sets reachable by any history of constructors and operations, including operands sharing structure, empty operands, and every combination of trie node kinds at every depth",
  "Tests use a few int ranges whose hashes are random per process, so only some node-kind pairs are met, and most compare through the same Equal/Count that could be wrong together.",
  TREE + ["set.go", "set_ops.go"],
  [("structural recursion per node kind", "internal/pkg/tree/{branch,leaf1,leaf2,twig}.go:Combine/Difference/Intersection/SubsetOf"),
   ("match counting", "internal/pkg/tree/tree.go:newTree(count arithmetic)"),
   ("canonicalisation after shrink", "internal/pkg/tree/branch.go:Canonical")],
  ["frozen.Set methods", "frozen.Union", "frozen.Intersection", "frozen.SetMap"])

p("C03", "Map operations compute exact finite-map semantics",
  "With, Without, Update, Merge, Project, Where, MapMap, Keys, Values, the constructors and every lookup variant behave as the corresponding operations on a finite map: the last write to a key wins, Update prefers the argument's values, and lookups report exactly the stored value or absence. "
  "Merge keeps non-shared entries unchanged and, for each shared key, stores resolve(key, receiver's value, argument's value) regardless of the maps' sizes or shapes. "
  "Counts equal the number of distinct keys.",
  ["inputs", "histories"],
  "all histories over maps of any size ratio and key overlap, any hash layout of keys, any values (including duplicates), any order-sensitive resolve function",
  "Tests use small maps or disjoint/symmetric merge functions; operand flipping (smaller into larger, leaf into branch) only shows for particular shape pairs with an order-sensitive resolver.",
  ["map.go", "mapEntry.go"] + TREE,
  [("argument flipping", "internal/pkg/tree/nodeArgs.go:CombineArgs.Flip"),
   ("size-based swap", "map.go:Update"), ("key-only equality", "mapEntry.go")],
  ["frozen.Map methods", "frozen.NewMap*", "frozen.MapMap", "frozen.MapToGoMap"])

p("C04", "Equality and hashing are extensional",
  "Two sets (or maps, or IntSets) compare equal exactly when they hold the same elements (or the same key-value pairs), whatever histories built them, and equality is reflexive, symmetric and transitive. "
  "Equal values have equal hashes for every seed, within one process. "
  "Hence collections used as elements or keys of other collections are found, deduplicated and looked up by content.",
  ["histories", "inputs"],
  "all pairs of construction histories reaching the same or different content, including removal back to a smaller size, colliding elements in different insertion orders, nested collections and every hash seed",
  "Tests compare a handful of literals; the property depends on every operation leaving a canonical shape, for all histories, which samples of int ranges do not reach (deep collision chains, shrink paths).",
  ["set.go", "map.go", "mapEntry.go", "intset.go", "kv.go", "internal/pkg/value/value.go"] + TREE,
  [("canonical trie shape", "internal/pkg/tree/branch.go:Canonical"),
   ("order-insensitive leaf equality", "internal/pkg/tree/leaf2.go:Equal, twig.go:Equal"),
   ("xor-folded hash", "set.go:Hash, map.go:Hash, intset.go:Hash")],
  ["Equal", "Same", "Hash", "nested Set[Set[T]], Map[Set[T],V], Set[IntSet]"])

p("C05", "All read-only views of a value agree",
  "For any set or map, the count, emptiness test, membership test or lookup, full iteration, element listing, JSON rendering and text rendering all describe the same collection: iteration yields each element or entry exactly once, and membership is true exactly for the iterated elements. "
  "An Any call returns a member, and panics only when the collection is empty.",
  ["inputs", "histories"],
  "all values reachable by any history of operations, probed over the whole element universe, for every element type and hash layout",
  "Tests check one view at a time on sampled sizes; a wrong count delta or skipped child shows only for particular shapes reached by particular histories.",
  ["set.go", "set_extra.go", "map.go", "map_extra.go", "internal/pkg/tree/packer_iter.go", "internal/pkg/tree/tree.go", "internal/pkg/iterator/slice.go"],
  [("trie iterator stack", "internal/pkg/tree/packer_iter.go"), ("cached count", "internal/pkg/tree/tree.go")],
  ["Count, IsEmpty, Has/Get, Range, Elements, Any, MarshalJSON, String"])

p("C06", "Builders act as mutable collections and detach on Finish",
  "A set or map builder behaves as a mutable set or map: after any interleaving of additions, overwrites, removals (present or absent) and queries, its count, membership and lookups equal those of the ideal mutable collection. "
  "Finish returns exactly the current content and leaves the builder empty and reusable. "
  "Nothing done to a builder afterwards affects any finished value, and nothing done to a finished value affects the builder.",
  ["histories", "inputs"],
  "all interleavings of Add/Put/Remove/Has/Get/Count/Finish on several builders and of operations on the finished values, any hash layout",
  "Tests run one builder through one or two scripts with process-random hashes; removal from collision buckets, collapse of branches during removal and reuse after Finish are not enumerated.",
  ["set_builder.go", "map_builder.go", "internal/pkg/tree/builder.go"] + TREE,
  [("in-place node mutation", "internal/pkg/tree/*.go:Add/AddFast/Remove"),
   ("hand-off", "internal/pkg/tree/builder.go:Finish")],
  ["SetBuilder, MapBuilder methods"],
  [("builder tree", "exclusively owned mutable trie", "internal/pkg/tree/builder.go:Builder")])

p("C07", "Parallel evaluation is invisible in results",
  "Every operation returns the same value, count and answer whether it runs sequentially or fans out over goroutines, for every collection size, concurrency setting (environment variable or processor count) and goroutine schedule. "
  "When an operation with a caller-supplied callback (filter, reduce, merge) returns, every callback it started has finished, and it always returns. "
  "An early negative answer of a parallel equality or subset test is never wrong and never blocks.",
  ["schedules", "configurations", "inputs"],
  "all completion orders of the fanned-out workers, all settings of the concurrency knobs, sizes on both sides of the fan-out threshold",
  "The test suite never sets the concurrency variable; fan-out needs more than 131071 elements by default, so only a few huge-int tests reach it, each under one schedule.",
  ["internal/pkg/depth/gauge.go", "internal/pkg/tree/branch.go", "internal/pkg/tree/nodeArgs.go"],
  [("fork/join over a buffered channel", "internal/pkg/depth/gauge.go:Parallel"),
   ("threshold", "internal/pkg/depth/gauge.go:NewGauge")],
  ["Set.Where/Reduce/Union/Intersection/Equal/IsSubsetOf, Map.Merge/Update/Equal under FROZEN_CONCURRENCY and GOMAXPROCS"])

p("C08", "Ordered and arbitrary selection are exact",
  "Ordered iteration and ordered element listing yield every element exactly once in non-decreasing order of the supplied comparison. "
  "Taking the first n in order (as a list, a set, or n=1) yields exactly the min(n, count) smallest elements, for every n >= 0 and every comparison, including ones with ties. "
  "Taking n arbitrary elements yields a subset of exactly min(n, count) elements.",
  ["inputs"],
  "all sets, all n from 0 past the count, all strict weak orders including reversed and tie-heavy ones",
  "Tests use ascending/descending ints and one or two n values; bounded-heap selection errors depend on arrival order, which follows process-random hashes.",
  ["set.go", "internal/pkg/tree/packer_iter.go", "internal/pkg/tree/tree.go"],
  [("bounded heap", "internal/pkg/tree/tree.go:OrderedIterator"), ("heap reversal", "internal/pkg/tree/packer_iter.go:reverseOrdered")],
  ["OrderedRange, OrderedElements, OrderedFirstN, FirstN, First, AnyN"])

p("C09", "IntSet is an exact set of machine integers",
  "For every integer element type, an IntSet behaves as a set of those integers over the type's whole range, negative and extreme values included: construction, With, Without, Has, Where, Map, union, intersection, subset and equality are exact. "
  "Its count always equals the number of distinct members, iteration yields each exactly once, and it is empty exactly when its count is zero.",
  ["inputs", "histories"],
  "all histories of IntSet operations over values at cell boundaries, negative values, type minima/maxima and all signed/unsigned widths",
  "Tests use one family of positive ints; cell boundaries, other widths and negative numbers are never exercised, and count bookkeeping is only checked on those.",
  ["intset.go", "intset_iter.go", "map.go"],
  [("64-bit cells keyed by value>>6", "intset.go:locateCell"), ("count bookkeeping", "intset.go:Union/Where/Intersection/With/Without"),
   ("cell iteration", "intset_iter.go")],
  ["IntSet methods"],
  [("cells", "non-empty 64-bit masks per cell index", "intset.go:IntSet.data"), ("count", "cached cardinality", "intset.go:IntSet.count")])

p("C10", "Lazy sets denote the eagerly computed set",
  "For every expression built from lazy set operations (filter, map, with, without, union, intersection, difference, symmetric difference, powerset) over frozen or empty sets, each observer - emptiness, count, bounded count, membership, equality, subset, iteration, freezing and hash - reports what the eagerly computed set would. "
  "Iteration yields no duplicates and equal lazy sets hash equally. "
  "Whenever a fast variant of a query claims to have an answer, it is the right one.",
  ["inputs", "histories"],
  "all expression trees over the lazy operators and all observers in every order, before and after memoisation",
  "Tests check full observers only on frozen, empty and one powerset value; composed expressions are only compared by set equality, so membership, counts and fast paths of unions, differences and maps are never observed.",
  ["lazy/set_base.go", "lazy/set_union.go", "lazy/set_diff.go", "lazy/set_intersection.go", "lazy/set_where.go", "lazy/set_transform.go", "lazy/set_powerset.go", "lazy/set_empty.go", "lazy/set_frozen.go", "lazy/set_symmdiff.go"],
  [("per-operator Has/FastHas/Range", "lazy/set_*.go"), ("generic fallbacks", "lazy/set_base.go")],
  ["lazy.Set interface"])

p("C11", "Observing a lazy set never changes it",
  "However a lazy set is observed - iterated fully, partially, past the end, by several interleaved or concurrent iterators, or queried between iterations - it keeps denoting the same set, and every complete iteration yields exactly its elements once. "
  "Results cached by one observer are never visible to another in an incomplete or altered form.",
  ["histories", "schedules"],
  "all interleavings of steps of several iterators with each other and with queries on the same lazy set and on sets derived from it, sequentially and across goroutines",
  "Tests iterate each set once, to the end, from one goroutine; the caching state machine (partial, repeated, concurrent traversal) is never driven.",
  ["lazy/set_memo.go"],
  [("atomic publication of the cached set", "lazy/set_memo.go:cachingIterator.Next"), ("atomic load", "lazy/set_memo.go:getSet")],
  ["lazy.Set Range/Next/Value and all queries"],
  [("set pointer", "source expression until a full pass, then the cached frozen set", "lazy/set_memo.go:memoSet")])

p("C12", "Relational operators compute relational algebra",
  "Join returns exactly the natural join of its relations (cartesian product when no attributes are shared, empty when any operand is empty), independent of operand order and grouping; Project and CartesianProduct return exactly the projected and product relations. "
  "Nest groups tuples on the remaining attributes and collects exactly the projections of each group; Unnest of a nested attribute restores exactly the relation that was nested.",
  ["inputs"],
  "all small relations over any headers (shared, disjoint, equal, empty), any number of operands, nested relations of any content including empty ones",
  "Tests enumerate joins of two non-empty binary relations with one shared attribute and one nest/unnest example; empty operands, 0/2+ shared attributes, several operands and several nest groups are not reached.",
  ["pkg/rel/relation.go", "set.go", "map.go"],
  [("group-by on common attributes", "pkg/rel/relation.go:join"), ("recursive product", "pkg/rel/relation.go:buildCartesianProduct")],
  ["rel.New, Project, Join, CartesianProduct, Nest, Unnest"])

p("C13", "Folding, grouping, powerset and generation are exact",
  "Reduce combines every element exactly once for any commutative and associative function and reports absence only for the empty set; grouping partitions the elements by key with every element in exactly its group. "
  "Powerset contains each of the 2^n subsets exactly once. "
  "The range and bit-mask constructors, key-driven map construction and conversions between element types produce exactly the specified elements.",
  ["inputs", "histories"],
  "all sets of any hash layout, key functions with any fan-in, ranges with any start/stop/step sign, all masks, powersets up to 12 elements",
  "Tests sum a few ranges and check small powersets; group counts, step signs, high mask bits and shapes with collision buckets are only sampled.",
  ["set.go", "set_extra.go", "map.go", "bititer.go", "internal/pkg/iterator/bititer.go", "internal/pkg/tree/tree.go"],
  [("tree-shaped fold", "internal/pkg/tree/branch.go:Reduce"), ("gray-code enumeration", "set.go:Powerset"), ("builder-backed grouping", "set.go:SetGroupBy")],
  ["Reduce, Reduce2, SetGroupBy, Powerset, Iota*, NewSetFromMask64, NewMapFromKeys, SetAs, AsSetAny, BitIterator"])

p("C14", "Results depend on element equality, never on hash quality",
  "Every set and map operation gives the same result whatever hash values the element type returns, as long as equal elements hash equally: unique hashes, partial collisions at any depth and total collisions of any number of elements all give the same contents, counts and answers, without panics. "
  "Elements are identified by their own equality method when they define one, otherwise by ==.",
  ["inputs", "histories"],
  "all assignments of 64-bit hashes to a universe of elements (shared prefixes of every length, complete collisions) crossed with all operations and operand pairs; custom-equality and plain types",
  "One test type has poor hashes and is only driven through builder Add/Remove/Has; no binary operation, map or nested value is tested with collisions.",
  TREE + ["internal/pkg/tree/hasher.go", "internal/pkg/value/value.go"],
  [("collision bucket", "internal/pkg/tree/twig.go"), ("hash digit consumption", "internal/pkg/tree/hasher.go"), ("equality dispatch", "internal/pkg/value/value.go:Equal")],
  ["all Set/Map/Builder methods with user-defined Hash/Equal/Same"])

p("C15", "Iterators are independent snapshots",
  "An iterator over a set, map or IntSet yields exactly the elements of the value it was created from, each once, regardless of how its steps interleave with other iterators over the same or related values, with any operations on those values, or with it being abandoned. "
  "Once exhausted it keeps reporting that it is exhausted.",
  ["histories"],
  "all interleavings of steps of several iterators (plain and ordered) with each other and with operations deriving new values, over all tree depths and shapes",
  "Tests always run one iterator to completion in a tight loop; shared traversal buffers and deep stacks only misbehave under interleaving or for deep collision chains.",
  ["internal/pkg/tree/packer_iter.go", "internal/pkg/iterator/slice.go", "map.go", "intset_iter.go"],
  [("explicit stack with preallocated buffer", "internal/pkg/tree/tree.go:packedIteratorBuf, packer_iter.go")],
  ["Range, OrderedRange, MapIterator, IntSet.Range"])

p("C16", "Shared values are safe for concurrent use",
  "Any number of goroutines may read and derive from the same sets, maps, IntSets and lazy sets at once without synchronisation: every goroutine obtains the results it would obtain alone, and no data race occurs. "
  "This also holds between the goroutines an operation starts internally.",
  ["schedules", "histories"],
  "all interleavings of several goroutines applying arbitrary operations to shared values, with internal fan-out on and off",
  "Tests never share a value between goroutines while operating on it and are not run under the race detector with fan-out enabled.",
  ["internal/pkg/tree/branch.go", "internal/pkg/tree/nodeArgs.go", "internal/pkg/depth/gauge.go", "lazy/set_memo.go"],
  [("immutability of published nodes", "internal/pkg/tree"), ("atomic memo pointer", "lazy/set_memo.go")],
  ["public methods called from several goroutines; Go race detector"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
