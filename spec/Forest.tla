------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* A storage may hold several trees, and its operations may be used to put *)
(* a tree into another or to take one apart.  This adds to BTreeAlg        *)
(*   Graft  an item and a tree behind it at an address of an inner node,   *)
(*          one level above the root of that tree (insert_exactly_at with  *)
(*          a right node), followed by the usual rebalancing;              *)
(*   Join   two trees of one height under a new binary root;               *)
(*   Burst  the root is released, one of its children is the root now.     *)
(* The algorithm keeps its invariants: rebalancing moves whole subtrees    *)
(* and never looks below the node it works on.                             *)
(***************************************************************************)
EXTENDS BTreeAlg

\* The levels below a node, itself included.
RECURSIVE Levels(_, _)
Levels(h, n) == IF Leafp(h, n) THEN 1 ELSE 1 + Levels(h, h[n].c[1])

Few == MinItems(M)

\* Trees that may become a child: nodes in preorder, items numbered from 1.  `extra' items more than need be, in the root.
RECURSIVE Slim(_, _)
Slim(levels, extra) ==
  IF levels = 1 THEN << [p |-> 0, i |-> [j \in 1..(Few + extra) |-> 0], c |-> <<>>] >>
  ELSE LET kid == Slim(levels - 1, 0)
           k == Few + extra + 1
           shift(j) == [x \in 1..Len(kid) |->
                          [kid[x] EXCEPT !.p = IF x = 1 THEN 1 ELSE @ + 1 + (j - 1) * Len(kid),
                                         !.c = [y \in 1..Len(@) |-> @[y] + 1 + (j - 1) * Len(kid)]]]
       IN << [p |-> 0, i |-> [j \in 1..(k - 1) |-> 0], c |-> [j \in 1..k |-> 2 + (j - 1) * Len(kid)]] >>
          \o FoldLeft(LAMBDA acc, j : acc \o shift(j), <<>>, [j \in 1..k |-> j])
Most(levels) == (IF levels = 1 THEN M ELSE M - 1) - Few

\* Into the heap: new identifiers, items numbered in preorder from fresh + 1, and the parent of the root.
NewIds(h, n) ==
  SubSeq(SetToSortSeq((1..(Cardinality(DOMAIN h) + n)) \ DOMAIN h, LAMBDA a, b : a < b), 1, n)
Items(t) == FoldLeft(LAMBDA acc, nd : acc + Len(nd.i), 0, t)
ItemsBefore(t, x) == Items(SubSeq(t, 1, x - 1))
Planted(h, t, parent, f) ==
  LET ids == NewIds(h, Len(t))
      here(n) == CHOOSE x \in 1..Len(t) : ids[x] = n
  IN [n \in DOMAIN h \union Range(ids) |->
        IF n \in DOMAIN h THEN h[n]
        ELSE LET x == here(n) IN
             [p |-> IF t[x].p = 0 THEN parent ELSE ids[t[x].p],
              i |-> [j \in 1..Len(t[x].i) |-> f + ItemsBefore(t, x) + j],
              c |-> [j \in 1..Len(t[x].c) |-> ids[t[x].c[j]]]]]

Graft(n, o, extra) ==
  /\ pc = "idle" /\ root # 0 /\ ~Leafp(heap, n) /\ o \in 0..Cnt(heap, n)
  /\ extra \in 0..Most(Levels(heap, n) - 1)
  /\ \E t \in {Slim(Levels(heap, n) - 1, extra)} :
     LET g == GapH(<<n, o>>)
         k == Items(t)
         r == NewIds(heap, Len(t))[1]
         h1 == Planted(heap, t, n, fresh)
     IN /\ Len(seq) + k + 1 <= N
        /\ fresh' = fresh + k + 1
        /\ heap' = [h1 EXCEPT ![n].i = InsAt(@, o, fresh'), ![n].c = InsAt(@, o + 1, r)]
        /\ seq' = SubSeq(seq, 1, g) \o <<fresh'>> \o InH(h1, r) \o SubSeq(seq, g + 1, Len(seq))
        /\ op' = [kind |-> "insert", gap |-> g]
  /\ addr' = <<n, o>> /\ cur' = n /\ pc' = "rebalance"
  /\ UNCHANGED <<root, hist>>

Join(extra, before) ==
  /\ pc = "idle" /\ root # 0 /\ Cnt(heap, root) >= Few
  /\ extra \in 0..Most(Levels(heap, root))
  /\ \E t \in {Slim(Levels(heap, root), extra)} :
     LET k == Items(t)
         ids == NewIds(heap, Len(t) + 1)
         nr == ids[Len(t) + 1]
         h1 == Planted(heap, t, nr, fresh)
         other == NewIds(heap, Len(t))[1]
         cs == IF before THEN <<other, root>> ELSE <<root, other>>
     IN /\ Len(seq) + k + 1 <= N
        /\ fresh' = fresh + k + 1
        /\ heap' = (nr :> [p |-> 0, i |-> <<fresh'>>, c |-> cs]) @@ Reparent(h1, <<root>>, nr)
        /\ seq' = IF before THEN InH(h1, other) \o <<fresh'>> \o seq ELSE seq \o <<fresh'>> \o InH(h1, other)
        /\ op' = [kind |-> "insert", gap |-> IF before THEN k ELSE Len(seq)]
        /\ root' = nr /\ addr' = <<nr, 0>>
  /\ UNCHANGED <<pc, cur, hist>>

Burst(c) ==
  /\ pc = "idle" /\ root # 0 /\ ~Leafp(heap, root) /\ c \in Range(heap[root].c)
  /\ LET keep == Range(Preorder(heap, c)) IN
     /\ heap' = Reparent([x \in keep |-> heap[x]], <<c>>, 0)
     /\ seq' = InH(heap, c)
  /\ root' = c /\ op' = [kind |-> "none", gap |-> 0] /\ addr' = <<>>
  /\ UNCHANGED <<pc, cur, fresh, hist>>

ForestNext ==
  \/ Next
  \/ \E n \in DOMAIN heap : \E o \in 0..Cnt(heap, n), e \in 0..M : Graft(n, o, e)
  \/ \E e \in 0..M, b \in BOOLEAN : Join(e, b)
  \/ \E c \in DOMAIN heap : Burst(c)
ForestSpec == Init /\ [][ForestNext]_vars

=============================================================================
