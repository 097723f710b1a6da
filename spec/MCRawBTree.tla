----------------------------- MODULE MCRawBTree -----------------------------
(* Exhaustive exploration of RawBTree for small constants. *)
EXTENDS RawBTree

CONSTANTS Handles, Its, Keys, Values, MaxId, MaxLen, Keyed,
          Width      \* of the classes of keys; 1: one key each

VARIABLE next    \* next item id
mcvars == <<trees, iters, own, out, next>>

Fresh(k) == <<k, next, 0>>
Using(n) == next' = next + n /\ next + n <= MaxId + 1
Small == \A h \in DOMAIN trees' : Len(trees'[h]) <= MaxLen

MCInit == SysInit /\ next = 1

Hows == {"nth", "nth_back", "position", "take", "last", "count", "fold", "rfold", "step", "rev_skip", "skip", "least", "rposition", "try_fold", "find_p", "fold_p", "rfold_p"}

Permutes == { <<a, b>> : a \in Handles, b \in Handles }

\* What a cut may leave of a sequence, and what it takes.
Parts(s) == Subsequences(s)
Lost(s, r) == Ids(s) \ Ids(r)

KeyedNext ==
  \/ \E h \in Handles : New(h) /\ Using(0)
  \/ \E h \in Handles, k \in Keys : InsertKey(h, Fresh(k)) /\ Using(1)
  \/ \E h \in DOMAIN trees, k \in Keys : \E r \in Parts(InsertAt0(trees[h], Rank(trees[h], k), Fresh(k))) :
        \E d \in SUBSET Lost(InsertAt0(trees[h], Rank(trees[h], k), Fresh(k)), r) : InsertKeyCut(h, Fresh(k), d, r) /\ Using(1)
  \/ \E h \in Handles, k \in Keys : (RemoveKey(h, k) \/ GetKey(h, k)) /\ Using(0)
  \/ \E h \in Handles, k \in Keys, w \in Values : GetMutKey(h, k, w) /\ Using(0)
  \/ \E h \in Handles : (ReadFirst(h) \/ ReadLast(h)) /\ Using(0)
  \/ \E h \in Handles, w \in Values : (WriteFirst(h, w) \/ WriteLast(h, w)) /\ Using(0)

\* The same under a coarser order, among equals too.
CoarseNext ==
  \/ \E h \in Handles : New(h) /\ Using(0)
  \/ \E h \in Handles, k \in Keys : InsertIn(h, Fresh(k), Width) /\ Using(1)
  \/ \E h \in DOMAIN trees, k \in Keys : \E g \in 0..Cardinality(Equals(trees[h], k, Width)) :
        InsertPos(h, RankIn(trees[h], k, Width) + g, Fresh(k)) /\ Using(1)
  \/ \E h \in Handles, k \in Keys : (RemoveIn(h, k, Width) \/ GetIn(h, k, Width)) /\ Using(0)
  \/ \E h \in Handles, k \in Keys, w \in Values : GetMutIn(h, k, Width, w) /\ Using(0)

SharedNext ==
  \/ \E h \in Handles, k \in Keys : InsertAborted(h, Fresh(k)) /\ Using(1)
  \/ \E h \in Handles : (ReadAborted(h) \/ Clear(h) \/ Forget(h) \/ DropTree(h)) /\ Using(0)
  \/ \E h, h2 \in Handles : Live(h) /\ Clone(h, h2, [i \in 1..Len(trees[h]) |-> next + i - 1]) /\ Using(Len(trees[h]))
  \/ \E h \in Handles : Live(h) /\ \E n \in 0..(Len(trees[h]) - 1) : \E d \in SUBSET (next..(next + n - 1)) :
        CloneAborted(h, next..(next + n - 1), d) /\ Using(n)
  \/ \E h \in Handles : Live(h) /\ \E d \in SUBSET Ids(trees[h]) : \E r \in Subsequences(trees[h]) :
        ClearAborted(h, d, r) /\ Using(0)
  \/ \E h \in Handles : Live(h) /\ \E d \in SUBSET Ids(trees[h]) : DropAborted(h, d) /\ Using(0)
  \/ \E h \in Handles, it \in Its, k \in {"iter", "mut", "into"} : Iter(h, it, k) /\ Using(0)
  \/ \E i, j \in Its : IterCopy(i, j) /\ Using(0)
  \/ \E it \in Its, w \in Values : (Next(it, w) \/ Back(it, w)) /\ Using(0)
  \/ \E it \in Its : (IterDrop(it) \/ IterLeak(it)) /\ Using(0)
  \/ \E it \in Its, w \in Values, how \in Hows, k \in 1..2 : Bulk(it, how, k - (IF how = "step" THEN 0 ELSE 1), w) /\ Using(0)
  \/ \E h, h2 \in Handles : Live(h) /\ CloneInto(h, h2, [i \in 1..Len(trees[h]) |-> next + i - 1]) /\ Using(Len(trees[h]))
  \/ \E it \in DOMAIN iters : \E d \in SUBSET Ids(iters[it].rem) : IterDropAborted(it, d) /\ Using(0)

PosNext ==
  \/ \E h \in DOMAIN trees, k \in Keys : \E g \in 0..Len(trees[h]) : InsertPos(h, g, Fresh(k)) /\ Using(1)
  \/ \E h \in DOMAIN trees : \E p \in 0..Len(trees[h]) : (RemovePos(h, p) \/ ReadPos(h, p)) /\ Using(0)
  \/ \E h \in DOMAIN trees, w \in Values : \E p \in 0..Len(trees[h]) : WritePos(h, p, w) /\ Using(0)
  \/ \E h \in DOMAIN trees, k \in Keys : \E p \in 1..Len(trees[h]) : ReplacePos(h, p, Fresh(k)) /\ Using(1)
  \/ \E h \in DOMAIN trees, k \in Keys : InsertLax(h, Fresh(k)) /\ Using(1)
  \/ \E h \in DOMAIN trees, k \in Keys : \E g \in 0..Len(trees[h]) : \E r \in Parts(InsertAt0(trees[h], g, Fresh(k))) :
        \E d \in SUBSET Lost(InsertAt0(trees[h], g, Fresh(k)), r) : InsertCut(h, {g}, Fresh(k), d, r) /\ Using(1)
  \/ \E h, h2 \in DOMAIN trees, k \in Keys : \E g \in 0..Len(trees[h]) : Graft(h, g, Fresh(k), h2) /\ Using(1)
  \/ \E h \in DOMAIN trees : \E p \in 2..(Len(trees[h]) - 1) : \E hs \in Permutes : Burst(h, hs, <<p>>) /\ Using(0)
  \/ \E h \in DOMAIN trees : (RemoveLax(h) \/ ReadLax(h)) /\ Using(0)

MCNext == (SharedNext \/ (IF Width # 1 THEN CoarseNext ELSE IF Keyed THEN KeyedNext ELSE PosNext \/ \E h \in Handles : New(h) /\ Using(0))) /\ Small
MCSpec == MCInit /\ [][MCNext]_mcvars

SortedInv == IF Width # 1 THEN AllSortedIn(Width) ELSE Keyed => AllSorted

\* In classes of one key each, the coarser order is the order on keys; equals are neighbours.
CoarseInv ==
  \A h \in DOMAIN trees : LET s == trees[h] IN \A k \in Keys :
    /\ Sorted(s) => Meant(s, k, 1) = {PosOf(s, k)} /\ RankIn(s, k, 1) = Rank(s, k)
    /\ SortedIn(s, Width) => Equals(s, k, Width) = {RankIn(s, k, Width) + j : j \in 1..Cardinality(Equals(s, k, Width))}
\* A bulk step is a run of single steps: what it passes is what they would yield, and the rest is the same.
RECURSIVE Steps(_, _, _)
Steps(r, front, n) ==
  IF n = 0 \/ r = <<>> THEN <<>>
  ELSE IF front THEN <<Head(r)>> \o Steps(Tail(r), TRUE, n - 1)
       ELSE <<r[Len(r)]>> \o Steps(SubSeq(r, 1, Len(r) - 1), FALSE, n - 1)
BulkInv ==
  \A it \in DOMAIN iters : \A how \in Hows : \A k \in 1..3 :
    LET r == iters[it].rem
        b == BulkOf(r, how, k)
    IN /\ \E front \in BOOLEAN : b.passed = Steps(r, front, Len(b.passed))
       /\ b.given = SelectSeq(b.passed, LAMBDA x : x \in Range(b.given))
       /\ Cardinality(Range(b.given)) = Len(b.given)
       /\ b.over => Len(b.passed) = Len(r)
       /\ how \in {"least", "most"} /\ r # <<>> =>
            /\ \A x \in Range(r) : IF how = "least" THEN Key(b.given[1]) <= Key(x) ELSE Key(x) <= Key(b.given[1])
            /\ Sorted(r) => b.given[1] = (IF how = "least" THEN r[1] ELSE r[Len(r)])
       /\ how = "nth" => b.given = (IF k < Len(r) THEN <<Steps(r, TRUE, k + 1)[k + 1]>> ELSE <<>>)
       /\ how = "nth_back" => b.given = (IF k < Len(r) THEN <<Steps(r, FALSE, k + 1)[k + 1]>> ELSE <<>>)

\* out is an observation: left out of the fingerprint.
MCView == <<trees, iters, own, next>>
=============================================================================
