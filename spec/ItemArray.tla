------------------------------ MODULE ItemArray ------------------------------
(***************************************************************************)
(* The arrays in which nodes keep their items: sequences of at most Cap    *)
(* items, which own them.  They are part of the system of RawBTree: an     *)
(* array is a sequence under a handle, like the content of a tree, and     *)
(* creation, clearing, cloning, destruction, owning iteration, and the     *)
(* ways these are cut short, are the actions of RawBTree.  What follows is *)
(* particular to arrays: a bounded capacity, and draining a range.         *)
(*                                                                         *)
(* A draining iterator is [kind |-> "drain", src, rem]; as long as it      *)
(* lives the array cannot be used, and trees[src] is what it will hold     *)
(* when the iterator is dropped.                                           *)
(***************************************************************************)
EXTENDS RawBTree

\* pk: the call panics.
Full(h, cap) == Len(trees[h]) >= cap
APush(h, x, cap, pk) ==
  /\ Live(h) /\ pk = Full(h, cap)
  /\ IF pk THEN InsertAborted(h, x) ELSE InsertPos(h, Len(trees[h]), x)

AInsert(h, g, x, cap, pk) ==
  /\ Live(h) /\ pk = (g > Len(trees[h]) \/ Full(h, cap))
  /\ IF pk THEN InsertAborted(h, x) ELSE InsertPos(h, g, x)

APop(h) == Live(h) /\ RemovePos(h, Len(trees[h]))
ARemove(h, g) == Live(h) /\ RemovePos(h, IF g < Len(trees[h]) THEN g + 1 ELSE 0)

\* Everything of h2 goes to the end of h; what does not fit is dropped.
AAppend(h, h2, cap, pk) ==
  /\ Free(h) /\ Free(h2) /\ h # h2
  /\ LET s == trees[h]
         u == trees[h2]
         fit == Least(cap - Len(s), Len(u))
         lost == Ids(SubSeq(u, fit + 1, Len(u)))
     IN /\ pk = (fit < Len(u))
        /\ trees' = [trees EXCEPT ![h] = s \o SubSeq(u, 1, fit), ![h2] = <<>>]
        /\ own' = [i \in DOMAIN own |-> IF i \in lost THEN "dropped" ELSE own[i]]
        /\ Says(None, lost)
  /\ UNCHANGED iters

AExtend(h, xs, cap, pk) ==
  /\ Free(h) /\ \A j \in 1..Len(xs) : Available(xs[j])
  /\ LET s == trees[h]
         fit == Least(cap - Len(s), Len(xs))
         lost == Ids(SubSeq(xs, fit + 1, Len(xs)))
     IN /\ pk = (fit < Len(xs))
        /\ trees' = [trees EXCEPT ![h] = s \o SubSeq(xs, 1, fit)]
        /\ own' = [i \in DOMAIN own \union Ids(xs) |-> IF i \in lost THEN "dropped" ELSE IF i \in Ids(xs) THEN "tree" ELSE own[i]]
        /\ Says(None, lost)
  /\ UNCHANGED iters

\* The iterator that gives the items panics after some: the array has the first of them, the others are lost.
AExtendAborted(h, xs, dropped, rest) ==
  /\ Free(h) /\ \A j \in 1..Len(xs) : Available(xs[j])
  /\ \E fit \in {Len(rest) - Len(trees[h])} :
       /\ fit \in 0..Len(xs) /\ rest = trees[h] \o SubSeq(xs, 1, fit)
       /\ dropped \subseteq Ids(SubSeq(xs, fit + 1, Len(xs)))
       /\ trees' = [trees EXCEPT ![h] = rest]
       /\ own' = [i \in DOMAIN own \union Ids(xs) |-> IF i \in dropped THEN "dropped" ELSE IF i \in Ids(rest) THEN "tree"
                                                      ELSE IF i \in Ids(xs) THEN "leaked" ELSE own[i]]
       /\ Says(None, dropped)
  /\ UNCHANGED iters

ACollect(h, xs, cap, pk) ==
  /\ ~Live(h) /\ \A j \in 1..Len(xs) : Available(xs[j])
  /\ pk = (Len(xs) > cap)
  /\ IF pk THEN /\ own' = Give(Ids(xs), "dropped") /\ Says(None, Ids(xs)) /\ UNCHANGED trees
           ELSE /\ own' = Give(Ids(xs), "tree") /\ Says(None, {}) /\ trees' = (h :> xs) @@ trees
  /\ UNCHANGED iters

\* The items and the number of them; the array is gone, and its items are the caller's.
AParts(h) ==
  /\ Free(h)
  /\ trees' = Restrict2(trees, {h})
  /\ own' = Give(Ids(trees[h]), "user")
  /\ out' = [r |-> trees[h], d |-> {}] /\ UNCHANGED iters

\* The items a + 1 .. b leave the array.
ADrain(h, it, a, b) ==
  /\ it \notin DOMAIN iters /\ Free(h) /\ a <= b /\ b <= Len(trees[h])
  /\ LET s == trees[h]
         rem == SubSeq(s, a + 1, b)
     IN /\ iters' = (it :> [kind |-> "drain", src |-> h, rem |-> rem]) @@ iters
        /\ trees' = [trees EXCEPT ![h] = SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))]
        /\ own' = Give(Ids(rem), "iter")
  /\ Says(None, {})

\* A range that runs backwards is empty, and so is one of no item; one that goes beyond the end is refused.
ADrainNone(h, it, a, b) ==
  /\ it \notin DOMAIN iters /\ Free(h) /\ (a > b \/ (a = b /\ b > Len(trees[h])))
  /\ iters' = (it :> [kind |-> "drain", src |-> h, rem |-> <<>>]) @@ iters
  /\ Says(None, {}) /\ UNCHANGED <<trees, own>>
ADrainRefused(h, a, b) == Free(h) /\ (a > b \/ b > Len(trees[h])) /\ ReadAborted(h)

\* A draining iterator that is forgotten, or whose destruction is cut short: the array keeps some of its items, in
\* order; the others are leaked.
Lose(lost, dropped) == [i \in DOMAIN own |-> IF i \in dropped THEN "dropped" ELSE IF i \in lost THEN "leaked" ELSE own[i]]
ADrainLeak(it, rest) ==
  /\ it \in DOMAIN iters /\ iters[it].kind = "drain"
  /\ LET s == trees[iters[it].src] IN
     /\ rest = SelectSeq(s, LAMBDA x : Id(x) \in Ids(rest))
     /\ trees' = [trees EXCEPT ![iters[it].src] = rest]
     /\ own' = Lose(Ids(iters[it].rem) \union (Ids(s) \ Ids(rest)), {})
  /\ iters' = Restrict2(iters, {it}) /\ Says(None, {})
ADrainAborted(it, dropped, rest) ==
  /\ it \in DOMAIN iters /\ iters[it].kind = "drain"
  /\ dropped \subseteq Ids(iters[it].rem) /\ dropped # {}
  /\ LET s == trees[iters[it].src] IN
     /\ rest = SelectSeq(s, LAMBDA x : Id(x) \in Ids(rest))
     /\ trees' = [trees EXCEPT ![iters[it].src] = rest]
     /\ own' = Lose(Ids(iters[it].rem) \union (Ids(s) \ Ids(rest)), dropped)
  /\ iters' = Restrict2(iters, {it}) /\ Says(None, dropped)
=============================================================================
