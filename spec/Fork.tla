-------------------------------- MODULE Fork --------------------------------
(***************************************************************************)
(* Fork and join of a parallel operation over a trie (depth.Gauge.Parallel *)
(* nested to any depth): every branch above the gauge starts one goroutine *)
(* for each child, each sends one outcome <<ok, matches>> to the buffered  *)
(* channel of its branch; the collector adds the outcomes up and returns   *)
(* at the first negative one, leaving the others running.                  *)
(*                                                                         *)
(* The tree is a complete one of Width children and Depth levels; a task   *)
(* is a path in it.  Tasks at level >= Gauge run their children one after  *)
(* the other themselves, which the model shows as one step (they share     *)
(* nothing).  out[leaf] is what the leaf's callback answers.               *)
(*                                                                         *)
(* Checked: the answer and the sum are those of the sequential evaluation  *)
(* whatever the schedule; a positive answer means every callback has       *)
(* finished; every goroutine ends (also those left behind).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Width, Depth, Gauge, Cap \* Cap: capacity of the channel of a branch
Kids == 1..Width
Paths == UNION {[1..n -> Kids] : n \in 0..Depth}
Leaves == [1..Depth -> Kids]
\* tasks that run in a goroutine of their own: children of branches above the gauge, and the caller
Tasks == {p \in Paths : Len(p) <= Gauge}
Forks(p) == Len(p) < Gauge /\ Len(p) < Depth
Under(p) == {q \in Leaves : SubSeq(q, 1, Len(p)) = p}

VARIABLES out,  \* [Leaves -> BOOLEAN]
          pc,   \* [Tasks -> {"idle", "run", "collect", "send", "done"}]
          chan, \* [Tasks -> outcomes in its channel]
          got,  \* [Tasks -> number of outcomes received]
          sum,  \* [Tasks -> matches so far]
          ok    \* [Tasks -> answer]
vars == <<out, pc, chan, got, sum, ok>>
Root == <<>>

Init ==
  /\ out \in [Leaves -> BOOLEAN]
  /\ pc = [p \in Tasks |-> IF p = Root THEN "run" ELSE "idle"]
  /\ chan = [p \in Tasks |-> <<>>] /\ got = [p \in Tasks |-> 0] /\ sum = [p \in Tasks |-> 0] /\ ok = [p \in Tasks |-> TRUE]

\* a task that does not fork: in order, stopping at the first negative one
RECURSIVE Seq1(_)
Seq1(p) ==
  IF Len(p) = Depth THEN <<out[p], IF out[p] THEN 1 ELSE 0>>
  ELSE LET r == [k \in Kids |-> Seq1(Append(p, k))]
           f == {k \in Kids : ~r[k][1]}
           stop == IF f = {} THEN Width + 1 ELSE CHOOSE k \in f : \A j \in f : k <= j
           Sum[k \in 0..Width] == IF k = 0 THEN 0 ELSE Sum[k - 1] + (IF k < stop THEN r[k][2] ELSE 0)
       IN <<f = {}, Sum[Width]>>
Last(p) == IF p = Root THEN "done" ELSE "send"
Run(p) ==
  /\ pc[p] = "run"
  /\ IF Forks(p)
     THEN pc' = [q \in Tasks |-> IF q = p THEN "collect" ELSE IF Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p THEN "run" ELSE pc[q]] /\ UNCHANGED <<sum, ok>>
     ELSE /\ pc' = [pc EXCEPT ![p] = Last(p)]
          /\ ok' = [ok EXCEPT ![p] = Seq1(p)[1]] /\ sum' = [sum EXCEPT ![p] = Seq1(p)[2]]
  /\ UNCHANGED <<out, chan, got>>
Collect(p) ==
  /\ pc[p] = "collect"
  /\ IF got[p] = Width
     THEN pc' = [pc EXCEPT ![p] = Last(p)] /\ UNCHANGED <<chan, got, sum, ok>>
     ELSE /\ chan[p] # <<>>
          /\ LET o == Head(chan[p]) IN
             /\ chan' = [chan EXCEPT ![p] = Tail(@)] /\ got' = [got EXCEPT ![p] = @ + 1]
             /\ IF o[1] THEN sum' = [sum EXCEPT ![p] = @ + o[2]] /\ UNCHANGED <<pc, ok>>
                ELSE ok' = [ok EXCEPT ![p] = FALSE] /\ pc' = [pc EXCEPT ![p] = Last(p)] /\ UNCHANGED sum
  /\ UNCHANGED out
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Send(p) ==
  /\ pc[p] = "send"
  /\ \/ Len(chan[Parent(p)]) < Cap
     \/ Cap = 0 /\ pc[Parent(p)] = "collect" /\ chan[Parent(p)] = <<>> \* rendezvous
  /\ chan' = [chan EXCEPT ![Parent(p)] = Append(@, <<ok[p], sum[p]>>)]
  /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ UNCHANGED <<out, got, sum, ok>>
Next == \E p \in Tasks : Run(p) \/ Collect(p) \/ Send(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Tasks : WF_vars(Run(p) \/ Collect(p) \/ Send(p))

Answer == pc[Root] = "done" => ok[Root] = \A q \in Leaves : out[q]
Total == pc[Root] = "done" /\ ok[Root] => sum[Root] = Cardinality(Leaves)
\* operations whose callbacks always answer TRUE (filter, merge, ...) return only when all of them have
Joined == pc[Root] = "done" /\ ok[Root] => \A p \in Tasks : pc[p] = "done"
Returns == <>(pc[Root] = "done")
\* no goroutine is left behind for ever
NoLeak == \A p \in Tasks : pc[p] = "run" ~> pc[p] = "done"
=============================================================================
