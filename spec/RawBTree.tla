------------------------------ MODULE RawBTree ------------------------------
(***************************************************************************)
(* The system as its users see it.                                         *)
(*                                                                         *)
(* A tree is a sequence of items <<key, id, value>>; an item is a linear   *)
(* resource identified by its id, owned by exactly one party at a time:    *)
(* a tree, an owning iterator, the user, nobody (dropped), or leaked.      *)
(* One action per public operation, plus one per way an operation can be   *)
(* cut short by a panic of user code (comparison, destructor, clone).      *)
(*                                                                         *)
(* Every action is a function of its arguments whenever the crate promises *)
(* a definite result; the lax and panicking ones are as nondeterministic   *)
(* as the properties allow.  `out' is what the caller observes: the result *)
(* and the set of ids whose destructor ran during the call.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

VARIABLES trees,   \* [handle -> sequence of items], the live trees
          iters,   \* [iterator -> [kind, src, rem]], the live iterators
          own,     \* [item id -> "tree" | "iter" | "user" | "dropped" | "leaked"]
          out      \* [r, d]: result and destroyed ids of the last call

sysvars == <<trees, iters, own, out>>

Key(x) == x[1]
Id(x) == x[2]
Ids(s) == { s[i][2] : i \in 1..Len(s) }
None == <<>>
Some(x) == <<x>>
SetVal(x, w) == <<x[1], x[2], w>>

InsertAt0(s, g, x) == SubSeq(s, 1, g) \o <<x>> \o SubSeq(s, g + 1, Len(s))
DeleteAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Keyed view of a sorted sequence.
Rank(s, k) == Cardinality({ i \in 1..Len(s) : s[i][1] < k })
PosOf(s, k) == LET p == Rank(s, k) + 1 IN IF p <= Len(s) /\ s[p][1] = k THEN p ELSE 0
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]

Restrict2(f, d) == [x \in (DOMAIN f) \ d |-> f[x]]
Give(ids, who) == [i \in (DOMAIN own) \union ids |-> IF i \in ids THEN who ELSE own[i]]

\* An item may be given to a tree if it is new or in the hands of the user.
Available(x) == IF Id(x) \in DOMAIN own THEN own[Id(x)] = "user" ELSE TRUE

SysInit == trees = <<>> /\ iters = <<>> /\ own = <<>> /\ out = [r |-> None, d |-> {}]

Live(h) == h \in DOMAIN trees
On(h) == { it \in DOMAIN iters : iters[it].kind # "into" /\ iters[it].src = h }
Free(h) == Live(h) /\ On(h) = {}                                        \* may be mutated
Readable(h) == Live(h) /\ \A it \in On(h) : iters[it].kind = "iter"      \* may be read

\* Iterators that own what they have left (draining ones: see ItemArray).
Owns(i) == i.kind \in {"into", "drain"}

Says(r, d) == out' = [r |-> r, d |-> d]

(***************************************************************************)
(* Creation.                                                               *)
(***************************************************************************)
New(h) ==
  /\ ~Live(h)
  /\ trees' = (h :> <<>>) @@ trees
  /\ Says(None, {}) /\ UNCHANGED <<iters, own>>

\* A tree that was built before the history starts.
Given(h, s) ==
  /\ ~Live(h) /\ Cardinality(Ids(s)) = Len(s) /\ Ids(s) \cap DOMAIN own = {}
  /\ trees' = (h :> s) @@ trees
  /\ own' = Give(Ids(s), "tree")
  /\ Says(None, {}) /\ UNCHANGED iters

(***************************************************************************)
(* Keyed operations, under one consistent total order.                     *)
(***************************************************************************)
InsertKey(h, x) ==
  /\ Free(h) /\ Available(x)
  /\ LET s == trees[h]
         p == PosOf(s, Key(x))
     IN IF p # 0
        THEN /\ trees' = [trees EXCEPT ![h][p] = x]
             /\ own' = [Give({Id(x)}, "tree") EXCEPT ![Id(s[p])] = "user"]
             /\ Says(Some(s[p]), {})
        ELSE /\ trees' = [trees EXCEPT ![h] = InsertAt0(s, Rank(s, Key(x)), x)]
             /\ own' = Give({Id(x)}, "tree")
             /\ Says(None, {})
  /\ UNCHANGED iters

RemovePos(h, p) ==   \* the p-th item, or nothing if p = 0
  /\ Free(h)
  /\ IF p # 0
     THEN /\ trees' = [trees EXCEPT ![h] = DeleteAt(@, p)]
          /\ own' = [own EXCEPT ![Id(trees[h][p])] = "user"]
          /\ Says(Some(trees[h][p]), {})
     ELSE Says(None, {}) /\ UNCHANGED <<trees, own>>
  /\ UNCHANGED iters

RemoveKey(h, k) == Live(h) /\ RemovePos(h, PosOf(trees[h], k))

ReadPos(h, p) ==
  /\ Readable(h)
  /\ Says(IF p = 0 THEN None ELSE Some(trees[h][p]), {})
  /\ UNCHANGED <<trees, iters, own>>

\* A mutable reference, through which w is written.
WritePos(h, p, w) ==
  /\ Free(h)
  /\ Says(IF p = 0 THEN None ELSE Some(trees[h][p]), {})
  /\ trees' = IF p = 0 THEN trees ELSE [trees EXCEPT ![h][p] = SetVal(@, w)]
  /\ UNCHANGED <<iters, own>>

GetKey(h, k) == Live(h) /\ ReadPos(h, PosOf(trees[h], k))
GetMutKey(h, k, w) == Live(h) /\ WritePos(h, PosOf(trees[h], k), w)
ReadFirst(h) == Live(h) /\ ReadPos(h, IF trees[h] = <<>> THEN 0 ELSE 1)
ReadLast(h) == Live(h) /\ ReadPos(h, Len(trees[h]))
WriteFirst(h, w) == Live(h) /\ WritePos(h, IF trees[h] = <<>> THEN 0 ELSE 1, w)
WriteLast(h, w) == Live(h) /\ WritePos(h, Len(trees[h]), w)

(***************************************************************************)
(* Keyed operations under a coarser order, in which several items may be   *)
(* equal: those whose keys have the same class.  Whichever of them the     *)
(* search meets is meant; an item that equals none goes between the        *)
(* smaller and the greater.  Width 1 is the order on keys.                 *)
(***************************************************************************)
Class(k, c) == IF c < 0 THEN -(k \div (-c)) ELSE k \div c      \* a negative width: the opposite order
Equals(s, k, c) == { p \in 1..Len(s) : Class(s[p][1], c) = Class(k, c) }
RankIn(s, k, c) == Cardinality({ i \in 1..Len(s) : Class(s[i][1], c) < Class(k, c) })
SortedIn(s, c) == \A i \in 1..(Len(s) - 1) : Class(s[i][1], c) <= Class(s[i + 1][1], c)
Meant(s, k, c) == LET e == Equals(s, k, c) IN IF e = {} THEN {0} ELSE e

InsertIn(h, x, c) ==
  /\ Free(h) /\ Available(x)
  /\ \E p \in Meant(trees[h], Key(x), c) :
       LET s == trees[h] IN
       IF p # 0
       THEN /\ trees' = [trees EXCEPT ![h][p] = x]
            /\ own' = [Give({Id(x)}, "tree") EXCEPT ![Id(s[p])] = "user"]
            /\ Says(Some(s[p]), {})
       ELSE /\ trees' = [trees EXCEPT ![h] = InsertAt0(s, RankIn(s, Key(x), c), x)]
            /\ own' = Give({Id(x)}, "tree")
            /\ Says(None, {})
  /\ UNCHANGED iters

RemoveIn(h, k, c) == Live(h) /\ \E p \in Meant(trees[h], k, c) : RemovePos(h, p)
GetIn(h, k, c) == Live(h) /\ \E p \in Meant(trees[h], k, c) : ReadPos(h, p)
GetMutIn(h, k, c, w) == Live(h) /\ \E p \in Meant(trees[h], k, c) : WritePos(h, p, w)

(***************************************************************************)
(* Positions: what the address-based operations do.                        *)
(***************************************************************************)
InsertPos(h, g, x) ==
  /\ Free(h) /\ Available(x) /\ g \in 0..Len(trees[h])
  /\ trees' = [trees EXCEPT ![h] = InsertAt0(@, g, x)]
  /\ own' = Give({Id(x)}, "tree")
  /\ Says(None, {}) /\ UNCHANGED iters

(***************************************************************************)
(* Trees in one storage: a tree is put into another, behind an item, or    *)
(* falls apart into some of its subtrees.                                  *)
(***************************************************************************)
Graft(h, g, x, h2) ==
  /\ Free(h) /\ Free(h2) /\ h # h2 /\ Available(x) /\ g \in 0..Len(trees[h])
  /\ LET s == trees[h] IN
     trees' = Restrict2([trees EXCEPT ![h] = SubSeq(s, 1, g) \o <<x>> \o trees[h2] \o SubSeq(s, g + 1, Len(s))], {h2})
  /\ own' = Give({Id(x)}, "tree")
  /\ Says(None, {}) /\ UNCHANGED iters

\* The items at the positions ps go to the user, the stretches between them to the trees hs.
Burst(h, hs, ps) ==
  /\ Free(h) /\ Len(hs) = Len(ps) + 1 /\ Cardinality(Range(hs)) = Len(hs)
  /\ Range(hs) \cap (DOMAIN trees \ {h}) = {}
  /\ LET s == trees[h]
         from(j) == IF j = 1 THEN 1 ELSE ps[j - 1] + 1
         to(j) == IF j = Len(hs) THEN Len(s) ELSE ps[j] - 1
         at(k) == CHOOSE j \in 1..Len(hs) : hs[j] = k
         gone == { Id(s[p]) : p \in Range(ps) }
     IN /\ \A j \in 1..Len(ps) : from(j) < ps[j] /\ ps[j] < Len(s)
        /\ trees' = [k \in (DOMAIN trees \ {h}) \union Range(hs) |->
                       IF k \in Range(hs) THEN SubSeq(s, from(at(k)), to(at(k))) ELSE trees[k]]
        /\ own' = [i \in DOMAIN own |-> IF i \in gone THEN "user" ELSE own[i]]
        /\ Says([j \in 1..Len(ps) |-> s[ps[j]]], {})
  /\ UNCHANGED iters

ReplacePos(h, p, x) ==
  /\ Free(h) /\ Available(x) /\ p \in 1..Len(trees[h])
  /\ trees' = [trees EXCEPT ![h][p] = x]
  /\ own' = [Give({Id(x)}, "tree") EXCEPT ![Id(trees[h][p])] = "user"]
  /\ Says(Some(trees[h][p]), {}) /\ UNCHANGED iters

(***************************************************************************)
(* A comparison that answers anything: the structure decides what happens, *)
(* but nothing is lost, duplicated or reordered.                           *)
(***************************************************************************)
InsertLax(h, x) ==
  \/ \E g \in 0..Len(trees[h]) : InsertPos(h, g, x)
  \/ \E p \in 1..Len(trees[h]) : ReplacePos(h, p, x)
RemoveLax(h) == \E p \in 0..Len(trees[h]) : RemovePos(h, p)
ReadLax(h) == \E p \in 0..Len(trees[h]) : ReadPos(h, p)

(***************************************************************************)
(* Calls cut short before they did anything: a panicking comparison, or a  *)
(* refused insertion.  The item that was passed is dropped.                *)
(***************************************************************************)
InsertAborted(h, x) ==
  /\ Free(h) /\ Available(x)
  /\ own' = Give({Id(x)}, "dropped")
  /\ Says(None, {Id(x)}) /\ UNCHANGED <<trees, iters>>

\* An insertion cut short by a storage that has no room for another node: the tree is left with a part of what it would
\* have held, in the same order; each of the other items is dropped once or leaked.
InsertCut(h, gs, x, dropped, rest) ==
  /\ Free(h) /\ Available(x)
  /\ LET kept == Ids(rest)
         all == Ids(trees[h]) \union {Id(x)}
     IN /\ dropped \subseteq all \ kept
        /\ \E g \in gs : rest = SelectSeq(InsertAt0(trees[h], g, x), LAMBDA y : Id(y) \in kept)
        /\ own' = [i \in DOMAIN own \union {Id(x)} |-> IF i \in dropped THEN "dropped"
                                                      ELSE IF i \in kept THEN "tree"
                                                      ELSE IF i \in all THEN "leaked" ELSE own[i]]
  /\ trees' = [trees EXCEPT ![h] = rest]
  /\ Says(None, dropped) /\ UNCHANGED iters
InsertKeyCut(h, x, dropped, rest) ==
  Live(h) /\ PosOf(trees[h], Key(x)) = 0 /\ InsertCut(h, {Rank(trees[h], Key(x))}, x, dropped, rest)

ReadAborted(h) == Live(h) /\ Says(None, {}) /\ UNCHANGED <<trees, iters, own>>

(***************************************************************************)
(* Whole trees.                                                            *)
(***************************************************************************)
Clear(h) ==
  /\ Free(h)
  /\ trees' = [trees EXCEPT ![h] = <<>>]
  /\ own' = Give(Ids(trees[h]), "dropped")
  /\ Says(None, Ids(trees[h])) /\ UNCHANGED iters

Forget(h) ==
  /\ Free(h)
  /\ trees' = [trees EXCEPT ![h] = <<>>]
  /\ own' = Give(Ids(trees[h]), "leaked")
  /\ Says(None, {}) /\ UNCHANGED iters

DropTree(h) ==
  /\ Free(h)
  /\ trees' = Restrict2(trees, {h})
  /\ own' = Give(Ids(trees[h]), "dropped")
  /\ Says(None, Ids(trees[h])) /\ UNCHANGED iters

\* new: the ids of the copies, in order.
Clone(h, h2, new) ==
  /\ Readable(h) /\ ~Live(h2)
  /\ Len(new) = Len(trees[h]) /\ Range(new) \cap DOMAIN own = {} /\ Cardinality(Range(new)) = Len(new)
  /\ trees' = (h2 :> [i \in 1..Len(new) |-> <<trees[h][i][1], new[i], trees[h][i][3]>>]) @@ trees
  /\ own' = Give(Range(new), "tree")
  /\ Says(None, {}) /\ UNCHANGED iters

\* Cloning into a tree that exists: what it held is dropped.
CloneInto(h, h2, new) ==
  /\ Readable(h) /\ Free(h2) /\ h # h2
  /\ Len(new) = Len(trees[h]) /\ Range(new) \cap DOMAIN own = {} /\ Cardinality(Range(new)) = Len(new)
  /\ trees' = [trees EXCEPT ![h2] = [i \in 1..Len(new) |-> <<trees[h][i][1], new[i], trees[h][i][3]>>]]
  /\ own' = [i \in DOMAIN own \union Range(new) |-> IF i \in Range(new) THEN "tree"
                                                     ELSE IF i \in Ids(trees[h2]) THEN "dropped" ELSE own[i]]
  /\ Says(None, Ids(trees[h2])) /\ UNCHANGED iters

\* A clone cut short by a panic: some copies had been made, each is dropped once or leaked.
CloneAborted(h, made, dropped) ==
  /\ Readable(h) /\ made \cap DOMAIN own = {} /\ dropped \subseteq made
  /\ own' = [i \in DOMAIN own \union made |->
               IF i \in dropped THEN "dropped" ELSE IF i \in made THEN "leaked" ELSE own[i]]
  /\ Says(None, dropped) /\ UNCHANGED <<trees, iters>>

\* The same into a tree that exists: what it holds afterwards are items it held and copies made; each of the others
\* is dropped once or leaked.
CloneIntoAborted(h, h2, made, dropped, rest) ==
  LET ids == made \union Ids(trees[h2]) IN
  /\ Readable(h) /\ Free(h2) /\ h # h2 /\ made \cap DOMAIN own = {} /\ dropped \subseteq ids
  /\ Ids(rest) \subseteq ids \ dropped /\ Cardinality(Ids(rest)) = Len(rest)
  /\ \A j \in 1..Len(rest) : IF Id(rest[j]) \in made THEN \E x \in Range(trees[h]) : x[1] = rest[j][1] /\ x[3] = rest[j][3]
                             ELSE rest[j] \in Range(trees[h2])
  /\ trees' = [trees EXCEPT ![h2] = rest]
  /\ own' = [i \in DOMAIN own \union made |-> IF i \in dropped THEN "dropped"
                                             ELSE IF i \in Ids(rest) THEN "tree"
                                             ELSE IF i \in ids THEN "leaked" ELSE own[i]]
  /\ Says(None, dropped) /\ UNCHANGED iters

\* Destruction cut short by a panicking destructor: each item is dropped once, stays, or is leaked; what stays
\* keeps its order.
Subsequences(s) == { SelectSeq(s, LAMBDA x : Id(x) \in K) : K \in SUBSET Ids(s) }
ClearAborted(h, dropped, rest) ==
  /\ Free(h) /\ dropped \subseteq Ids(trees[h]) /\ dropped # {}
  /\ Ids(rest) \cap dropped = {} /\ rest = SelectSeq(trees[h], LAMBDA x : Id(x) \in Ids(rest))
  /\ trees' = [trees EXCEPT ![h] = rest]
  /\ own' = [i \in DOMAIN own |-> IF i \in dropped THEN "dropped"
                                  ELSE IF i \in Ids(trees[h]) \ Ids(rest) THEN "leaked" ELSE own[i]]
  /\ Says(None, dropped) /\ UNCHANGED iters

DropAborted(h, dropped) ==
  /\ Free(h) /\ dropped \subseteq Ids(trees[h]) /\ dropped # {}
  /\ trees' = Restrict2(trees, {h})
  /\ own' = [i \in DOMAIN own |-> IF i \in dropped THEN "dropped"
                                  ELSE IF i \in Ids(trees[h]) THEN "leaked" ELSE own[i]]
  /\ Says(None, dropped) /\ UNCHANGED iters

(***************************************************************************)
(* Iterators.                                                              *)
(***************************************************************************)
Iter(h, it, kind) ==
  /\ it \notin DOMAIN iters
  /\ CASE kind = "iter" -> Readable(h)
       [] OTHER -> Free(h)
  /\ iters' = (it :> [kind |-> kind, src |-> h, rem |-> trees[h]]) @@ iters
  /\ IF kind = "into"
     THEN trees' = Restrict2(trees, {h}) /\ own' = Give(Ids(trees[h]), "iter")
     ELSE UNCHANGED <<trees, own>>
  /\ Says(None, {})

IterCopy(it, it2) ==
  /\ it \in DOMAIN iters /\ iters[it].kind = "iter" /\ it2 \notin DOMAIN iters
  /\ iters' = (it2 :> iters[it]) @@ iters
  /\ Says(None, {}) /\ UNCHANGED <<trees, own>>

WriteId(s, id, w) == [i \in 1..Len(s) |-> IF s[i][2] = id THEN SetVal(s[i], w) ELSE s[i]]

\* w is the value written through the reference yielded by a mutable iterator (ignored for the other kinds).
Step(it, front, w) ==
  /\ it \in DOMAIN iters
  /\ LET i == iters[it]
         x == IF front THEN Head(i.rem) ELSE i.rem[Len(i.rem)]
     IN IF i.rem = <<>>
        THEN Says(None, {}) /\ UNCHANGED <<trees, iters, own>>
        ELSE /\ iters' = [iters EXCEPT ![it].rem = IF front THEN Tail(@) ELSE SubSeq(@, 1, Len(@) - 1)]
             /\ Says(Some(x), {})
             /\ trees' = IF i.kind = "mut" THEN [trees EXCEPT ![i.src] = WriteId(@, Id(x), w)] ELSE trees
             /\ own' = IF Owns(i) THEN [own EXCEPT ![Id(x)] = "user"] ELSE own

Next(it, w) == Step(it, TRUE, w)
Back(it, w) == Step(it, FALSE, w)

(***************************************************************************)
(* Many steps in one call: what the provided methods of iterators do, in   *)
(* terms of single steps.                                                  *)
(*   passed  the items stepped over, in the order they are met             *)
(*   given   those of them the caller gets                                 *)
(*   over    whether the iterator is used up by the call                   *)
(*   num     the number returned, if one is                                *)
(***************************************************************************)
Least(a, b) == IF a < b THEN a ELSE b
FrontOf(r, n) == SubSeq(r, 1, n)
BackOf(r, n) == Reverse(SubSeq(r, Len(r) - n + 1, Len(r)))
Does(passed, given, over, num) == [passed |-> passed, given |-> given, over |-> over, num |-> num]
Upto(passed, k) == IF k < Len(passed) THEN <<passed[k + 1]>> ELSE <<>>
\* The first of the items no other item comes before, in an order of the keys.
Extreme(r, Before(_, _)) ==
  IF r = <<>> THEN <<>>
  ELSE <<FoldLeft(LAMBDA best, x : IF Before(Key(x), Key(best)) THEN x ELSE best, r[1], Tail(r))>>
BulkOf(r, how, k) ==
  LET n == Len(r)
      t == Least(k + 1, n)
      odd(s) == [j \in 1..((Len(s) + k - 1) \div k) |-> s[(j - 1) * k + 1]]      \* every k-th item
      seen == IF k < n THEN k ELSE -1
  IN CASE how \in {"nth", "find", "find_map"} -> Does(FrontOf(r, t), Upto(r, k), FALSE, -1)
       [] how \in {"nth_back", "rfind"} -> Does(BackOf(r, t), Upto(Reverse(r), k), FALSE, -1)
       [] how \in {"position", "any", "all"} -> Does(FrontOf(r, t), <<>>, FALSE, seen)
       [] how = "rposition" -> Does(BackOf(r, t), <<>>, FALSE, IF k < n THEN n - 1 - k ELSE -1)
       [] how = "try_fold" -> Does(FrontOf(r, t), FrontOf(r, t), FALSE, seen)
       [] how = "try_rfold" -> Does(BackOf(r, t), BackOf(r, t), FALSE, seen)
       \* the closure panics at its call k + 1, if there is one; what an iterator used up still had is dropped
       [] how \in {"find_p", "any_p"} -> Does(FrontOf(r, t), <<>>, FALSE, seen)
       [] how \in {"fold_p", "each_p", "collect_p"} -> Does(r, FrontOf(r, t), TRUE, seen)
       [] how = "rfold_p" -> Does(Reverse(r), BackOf(r, t), TRUE, seen)
       [] how = "take" -> Does(FrontOf(r, Least(k, n)), FrontOf(r, Least(k, n)), FALSE, -1)
       [] how \in {"last", "reduce"} -> Does(r, IF r = <<>> THEN <<>> ELSE <<r[n]>>, TRUE, -1)
       [] how = "count" -> Does(r, <<>>, TRUE, n)
       [] how \in {"fold", "each", "collect"} -> Does(r, r, TRUE, -1)
       [] how \in {"rfold", "rev"} -> Does(Reverse(r), Reverse(r), TRUE, -1)
       [] how = "step" -> Does(r, IF r = <<>> THEN <<>> ELSE odd(r), TRUE, -1)   \* k is the stride
       [] how = "rev_skip" -> Does(Reverse(r), SubSeq(Reverse(r), Least(k, n) + 1, n), TRUE, -1)
       [] how = "skip" -> Does(r, SubSeq(r, Least(k, n) + 1, n), TRUE, -1)
       [] how = "least" -> Does(r, Extreme(r, LAMBDA a, b : a < b), TRUE, -1)                \* the first of the smallest
       [] how = "most" -> Does(r, Extreme(Reverse(r), LAMBDA a, b : a > b), TRUE, -1) \* the last of the greatest

WriteIds(s, ids, w) == [i \in 1..Len(s) |-> IF s[i][2] \in ids THEN SetVal(s[i], w) ELSE s[i]]

\* The result is the sequence of items given, each wrapped as an option would be, and the number.
Bulk(it, how, k, w) ==
  /\ it \in DOMAIN iters
  /\ \E b \in {BulkOf(iters[it].rem, how, k)} :
       LET i == iters[it]
           rest == SelectSeq(i.rem, LAMBDA x : Id(x) \notin Ids(b.passed))
           lost == Ids(b.passed) \ Ids(b.given)
       IN /\ iters' = IF b.over THEN Restrict2(iters, {it}) ELSE [iters EXCEPT ![it].rem = rest]
          /\ trees' = IF i.kind = "mut" THEN [trees EXCEPT ![i.src] = WriteIds(@, Ids(b.given), w)] ELSE trees
          /\ own' = IF Owns(i)
                    THEN [j \in DOMAIN own |-> IF j \in lost THEN "dropped" ELSE IF j \in Ids(b.given) THEN "user" ELSE own[j]]
                    ELSE own
          /\ out' = [r |-> b.given, d |-> IF Owns(i) THEN lost ELSE {}, num |-> b.num]

\* An iterator that is forgotten, not dropped.
IterLeak(it) ==
  /\ it \in DOMAIN iters
  /\ iters' = Restrict2(iters, {it})
  /\ own' = IF iters[it].kind = "into" THEN Give(Ids(iters[it].rem), "leaked") ELSE own
  /\ Says(None, {}) /\ UNCHANGED trees

\* A write through a reference that a mutable iterator yielded earlier.
LateWrite(h, id, w) ==
  /\ Live(h) /\ id \in Ids(trees[h])
  /\ trees' = [trees EXCEPT ![h] = WriteId(@, id, w)]
  /\ Says(None, {}) /\ UNCHANGED <<iters, own>>

IterDrop(it) ==
  /\ it \in DOMAIN iters
  /\ iters' = Restrict2(iters, {it})
  /\ IF Owns(iters[it])
     THEN own' = Give(Ids(iters[it].rem), "dropped") /\ Says(None, Ids(iters[it].rem))
     ELSE own' = own /\ Says(None, {})
  /\ UNCHANGED trees

IterDropAborted(it, dropped) ==
  /\ it \in DOMAIN iters /\ iters[it].kind = "into"
  /\ dropped \subseteq Ids(iters[it].rem) /\ dropped # {}
  /\ iters' = Restrict2(iters, {it})
  /\ own' = [i \in DOMAIN own |-> IF i \in dropped THEN "dropped"
                                  ELSE IF i \in Ids(iters[it].rem) THEN "leaked" ELSE own[i]]
  /\ Says(None, dropped) /\ UNCHANGED trees

(***************************************************************************)
(* Invariants of the design.                                               *)
(***************************************************************************)
InTrees == UNION { Ids(trees[h]) : h \in DOMAIN trees }
Consuming == { it \in DOMAIN iters : Owns(iters[it]) }
InIters == UNION { Ids(iters[it].rem) : it \in Consuming }
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

\* Every item is in exactly one place, the one its owner says.
Linear ==
  /\ { i \in DOMAIN own : own[i] = "tree" } = InTrees
  /\ { i \in DOMAIN own : own[i] = "iter" } = InIters
  /\ SumOver(DOMAIN trees, LAMBDA h : Len(trees[h])) = Cardinality(InTrees)
  /\ SumOver(Consuming, LAMBDA it : Len(iters[it].rem)) = Cardinality(InIters)

\* A borrowing iterator sees a tree that exists, and what it has left is a stretch of it.
Borrows ==
  \A it \in DOMAIN iters : iters[it].kind # "into" =>
    /\ Live(iters[it].src)
    /\ ~Owns(iters[it]) =>
       LET s == trees[iters[it].src]
           r == iters[it].rem
       IN \E a \in 0..(Len(s) - Len(r)) : SubSeq(s, a + 1, a + Len(r)) = r
    /\ iters[it].kind \in {"mut", "drain"} => On(iters[it].src) = {it}

\* Dropped and leaked are final; an item is dropped at most once; the user only gets what was in a tree.
Final == \A i \in DOMAIN own : own[i] \in {"dropped", "leaked"} => i \in DOMAIN own' /\ own'[i] = own[i]
DropsOnce == \A i \in DOMAIN own' : own'[i] = "dropped" /\ (i \in DOMAIN own => own[i] # "dropped") => i \in out'.d
DropsLive == \A i \in out'.d : i \in DOMAIN own => own[i] \in {"tree", "iter", "user"}
Ownership == [][Final /\ DropsOnce /\ DropsLive]_sysvars

\* Histories made of keyed operations only keep the content sorted.
AllSortedIn(c) == \A h \in DOMAIN trees : SortedIn(trees[h], c)
AllSorted == \A h \in DOMAIN trees : Sorted(trees[h])
=============================================================================
