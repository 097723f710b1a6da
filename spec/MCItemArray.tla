----------------------------- MODULE MCItemArray -----------------------------
(* Exhaustive exploration of ItemArray for small constants. *)
EXTENDS ItemArray

CONSTANTS Handles, Its, Cap, MaxId

VARIABLE next
mcvars == <<trees, iters, own, out, next>>

Fresh(n) == <<0, n, 0>>
FreshSeq(n) == [j \in 1..n |-> Fresh(next + j - 1)]
Using(n) == next' = next + n /\ next + n <= MaxId + 1

MCInit == SysInit /\ next = 1

MCNext ==
  \/ \E h \in Handles : New(h) /\ Using(0)
  \/ \E h \in Handles, pk \in BOOLEAN : APush(h, Fresh(next), Cap, pk) /\ Using(1)
  \/ \E h \in Handles, pk \in BOOLEAN, g \in 0..(Cap + 1) : AInsert(h, g, Fresh(next), Cap, pk) /\ Using(1)
  \/ \E h \in Handles : (APop(h) \/ AParts(h) \/ Clear(h) \/ DropTree(h)) /\ Using(0)
  \/ \E h \in Handles, g \in 0..Cap : ARemove(h, g) /\ Using(0)
  \/ \E h, h2 \in Handles, pk \in BOOLEAN : AAppend(h, h2, Cap, pk) /\ Using(0)
  \/ \E h \in Handles, pk \in BOOLEAN, n \in 0..2 : (AExtend(h, FreshSeq(n), Cap, pk) \/ ACollect(h, FreshSeq(n), Cap, pk)) /\ Using(n)
  \/ \E h \in Handles, it \in Its, a, b \in 0..(Cap + 1) : (ADrain(h, it, a, b) \/ ADrainNone(h, it, a, b) \/ ADrainRefused(h, a, b)) /\ Using(0)
  \/ \E h \in Handles, it \in Its : Iter(h, it, "into") /\ Using(0)
  \/ \E it \in Its : (Next(it, 0) \/ Back(it, 0) \/ IterDrop(it)) /\ Using(0)
  \/ \E it \in DOMAIN iters : iters[it].kind = "into" /\ IterLeak(it) /\ Using(0)
  \/ \E it \in DOMAIN iters : iters[it].kind = "drain" /\ \E r \in Subsequences(trees[iters[it].src]) :
        (ADrainLeak(it, r) \/ \E d \in SUBSET Ids(iters[it].rem) : ADrainAborted(it, d, r)) /\ Using(0)
  \/ \E h, h2 \in Handles : Live(h) /\ Clone(h, h2, [i \in 1..Len(trees[h]) |-> next + i - 1]) /\ Using(Len(trees[h]))
  \/ \E h \in Handles : Live(h) /\ \E d \in SUBSET Ids(trees[h]) : \E r \in Subsequences(trees[h]) : ClearAborted(h, d, r) /\ Using(0)
MCSpec == MCInit /\ [][MCNext]_mcvars

Bounded == \A h \in DOMAIN trees : Len(trees[h]) <= Cap
MCView == <<trees, iters, own, next>>
=============================================================================
