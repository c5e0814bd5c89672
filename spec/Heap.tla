-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* What values share: a group of colliding elements (a twig) is a slice -  *)
(* an array, of which the first len cells are visible and the rest is      *)
(* spare room - and values, and the builder at work, hold slices.  With,   *)
(* Without and Combine make slices of their own; only a builder writes in  *)
(* place.  ghost is what each value was when it was obtained; Persistent   *)
(* is property C01 for the part of a trie where aliasing can arise.        *)
(*                                                                         *)
(* Share = {} is the code.  Its other members put back one kind of sharing *)
(* each, and TLC shows the history that goes wrong (see DESIGN.md):        *)
(*   "with"    With appends to the slice it finds                          *)
(*   "without" Without overwrites the slice it finds                       *)
(*   "finish"  the builder keeps its slice after Finish                    *)
(*   "reduce"  callbacks are handed the slice itself, and write to it      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, NV, MaxHeap, Share
VARIABLES heap,  \* sequence of arrays, each a sequence of ids or 0 (unused cell)
          val,   \* value register -> [a |-> index of array, n |-> len]
          bld,   \* the builder's slice
          ghost, \* value register -> the set it held when it was obtained
          gb     \* the set the builder should hold
vars == <<heap, val, bld, ghost, gb>>
NoSlice == [a |-> 0, n |-> 0]
Regs == 1..NV
View(s) == IF s.a = 0 THEN <<>> ELSE SubSeq(heap[s.a], 1, s.n)
SetOf(q) == {q[i] : i \in DOMAIN q}
Index(s, x) == IF \E i \in 1..s.n : heap[s.a][i] = x THEN CHOOSE i \in 1..s.n : heap[s.a][i] = x ELSE 0
Pad(q, c) == q \o [i \in 1..(c - Len(q)) |-> 0]
\* Go's append doubles small arrays
Cap(n) == IF n <= 1 THEN n ELSE IF n <= 2 THEN 2 ELSE IF n <= 4 THEN 4 ELSE 8

Init ==
  /\ heap = <<>> /\ val = [r \in Regs |-> NoSlice] /\ bld = NoSlice
  /\ ghost = [r \in Regs |-> {}] /\ gb = {}
Room == Len(heap) < MaxHeap
Obtain(o, s, T) == val' = [val EXCEPT ![o] = s] /\ ghost' = [ghost EXCEPT ![o] = T]
Alloc(q, c) == Room /\ heap' = Append(heap, Pad(q, c))
New(q) == [a |-> Len(heap) + 1, n |-> Len(q)]

With(o, r, x) ==
  /\ x \notin SetOf(View(val[r]))
  /\ LET q == Append(View(val[r]), x)
         s == val[r]
     IN IF "with" \in Share /\ s.a # 0 /\ s.n < Len(heap[s.a])
        THEN heap' = [heap EXCEPT ![s.a][s.n + 1] = x] /\ Obtain(o, [s EXCEPT !.n = @ + 1], ghost[r] \cup {x})
        ELSE Alloc(q, IF "with" \in Share THEN Cap(Len(q)) ELSE Len(q)) /\ Obtain(o, New(q), ghost[r] \cup {x})
  /\ UNCHANGED <<bld, gb>>
Cut(q, i) == SubSeq(IF i < Len(q) THEN [q EXCEPT ![i] = q[Len(q)]] ELSE q, 1, Len(q) - 1)
Without(o, r, x) ==
  LET i == Index(val[r], x)
      s == val[r]
      q == Cut(View(s), i)
  IN /\ s.a # 0 /\ i # 0
     /\ IF "without" \in Share
        THEN heap' = [heap EXCEPT ![s.a][i] = heap[s.a][s.n]] /\ Obtain(o, [s EXCEPT !.n = @ - 1], ghost[r] \ {x})
        ELSE Alloc(q, Len(q)) /\ Obtain(o, New(q), ghost[r] \ {x})
     /\ UNCHANGED <<bld, gb>>
Union(o, r, t) ==
  LET more == SelectSeq(View(val[t]), LAMBDA x : x \notin SetOf(View(val[r])))
      q == View(val[r]) \o more
  IN Alloc(q, Len(q)) /\ Obtain(o, New(q), ghost[r] \cup ghost[t]) /\ UNCHANGED <<bld, gb>>
\* a callback that scribbles over what it is handed
Reduce(r) ==
  /\ val[r].a # 0 /\ val[r].n > 0
  /\ IF "reduce" \in Share THEN \E x \in Ids : heap' = [heap EXCEPT ![val[r].a][1] = x]
     ELSE Alloc([i \in 1..val[r].n |-> 0], val[r].n)
  /\ UNCHANGED <<val, bld, ghost, gb>>
BAdd(x) ==
  /\ LET q == View(bld) IN
     IF x \in SetOf(q) THEN UNCHANGED <<heap, bld>>
     ELSE IF bld.a # 0 /\ bld.n < Len(heap[bld.a])
     THEN heap' = [heap EXCEPT ![bld.a][bld.n + 1] = x] /\ bld' = [bld EXCEPT !.n = @ + 1]
     ELSE Alloc(Append(q, x), Cap(Len(q) + 1)) /\ bld' = New(Append(q, x))
  /\ gb' = gb \cup {x} /\ UNCHANGED <<val, ghost>>
BRemove(x) ==
  LET i == Index(bld, x) IN
  /\ bld.a # 0 /\ i # 0
  /\ heap' = [heap EXCEPT ![bld.a][i] = heap[bld.a][bld.n]] /\ bld' = [bld EXCEPT !.n = @ - 1]
  /\ gb' = gb \ {x} /\ UNCHANGED <<val, ghost>>
Finish(o) ==
  /\ Obtain(o, bld, gb)
  /\ IF "finish" \in Share THEN UNCHANGED <<bld, gb>> ELSE bld' = NoSlice /\ gb' = {}
  /\ UNCHANGED heap
Next ==
  \/ \E o, r \in Regs, x \in Ids : With(o, r, x) \/ Without(o, r, x)
  \/ \E o, r, t \in Regs : r # t /\ Union(o, r, t)
  \/ \E r \in Regs : Reduce(r)
  \/ \E x \in Ids : BAdd(x) \/ BRemove(x)
  \/ \E o \in Regs : Finish(o)
Spec == Init /\ [][Next]_vars

Persistent == \A r \in Regs : SetOf(View(val[r])) = ghost[r] /\ val[r].n = Cardinality(ghost[r])
BuilderRight == SetOf(View(bld)) = gb /\ bld.n = Cardinality(gb)
\* the reason: nobody but the builder can reach the array the builder writes to
Owned == bld.a # 0 => \A r \in Regs : val[r].a # bld.a
=============================================================================
