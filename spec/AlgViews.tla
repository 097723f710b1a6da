------------------------------ MODULE AlgViews ------------------------------
(***************************************************************************)
(* The read-only algorithms of the crate, on every tree that BTreeAlg      *)
(* reaches: key search with its number of comparisons, the two-cursor      *)
(* iterators, visits from the leaves, cloning, validation, the DOT walk.   *)
(* Each is transcribed and checked against what Views.tla demands of it.   *)
(***************************************************************************)
EXTENDS BTreeAlg, Views

Tree == ToTree(heap, root)
\* Items with a key: their rank, times 10.
RankOf(x) == CHOOSE j \in 1..Len(seq) : seq[j] = x
Keyed(t) == [n \in 1..Len(t) |-> [t[n] EXCEPT !.i = [j \in 1..Len(@) |-> <<10 * RankOf(@[j]), @[j], 0>>]]]
Probes == { 5 * j : j \in 1..(2 * Len(seq) + 1) }

(***************************************************************************)
(* binary_search_min: <<index or -1, equal, comparisons>>.                 *)
(***************************************************************************)
RECURSIVE Halve(_, _, _, _, _, _)
Halve(s, k, i, j, eq, n) ==
  IF eq \/ j - i <= 1 THEN <<i, eq, n>>
  ELSE LET x == (i + j) \div 2 IN
       IF s[x + 1][1] > k THEN Halve(s, k, i, x, eq, n + 1)
       ELSE Halve(s, k, x, j, s[x + 1][1] = k, n + 1)
SearchMin(s, k) ==
  IF s = <<>> THEN <<-1, FALSE, 0>>
  ELSE IF s[1][1] > k THEN <<-1, FALSE, 1>>
  ELSE IF s[Len(s)][1] <= k THEN <<Len(s) - 1, s[Len(s)][1] = k, 2>>
  ELSE Halve(s, k, 0, Len(s) - 1, s[1][1] = k, 2)

\* address_in: [hit, a, calls]
RECURSIVE Descend(_, _, _, _)
Descend(t, n, k, calls) ==
  LET r == SearchMin(t[n].i, k)
      c == calls + r[3]
  IN IF r[2] THEN [hit |-> TRUE, a |-> <<n, r[1]>>, calls |-> c]
     ELSE IF t[n].c = <<>> THEN [hit |-> FALSE, a |-> <<n, r[1] + 1>>, calls |-> c]
     ELSE Descend(t, t[n].c[r[1] + 2], k, c)

SearchCorrect ==
  pc = "idle" =>
    LET t == Keyed(Tree)
        ht == Height(t)
    IN \A k \in Probes :
         LET r == IF t = <<>> THEN [hit |-> FALSE, a |-> <<>>, calls |-> 0] ELSE Descend(t, 1, k, 0)
         IN SearchOK(t, k, r.hit, r.a) /\ CostOK(r.calls, ht, M)

HeightLogarithmic == pc = "idle" => HeightOK(Height(Tree), Len(seq), M)

(***************************************************************************)
(* Iterators: after a items from the front and b from the back, the next   *)
(* request from either end yields the expected item, if any is left.       *)
(***************************************************************************)
Walk(walk(_, _), a, n) == FoldLeft(LAMBDA x, j : IF x = <<>> THEN <<>> ELSE walk(heap, x), a, [j \in 1..n |-> j])
FirstRaw == <<LeftmostLeaf(heap, root), 0>>
LastRaw == LET l == RightmostLeaf(heap, root) IN <<l, Cnt(heap, l) - 1>>
ReadRaw(a) == heap[a[1]].i[a[2] + 1]
Iterators ==
  pc = "idle" /\ root # 0 =>
    LET front == [a \in 0..(Len(seq) - 1) |-> Walk(NextItem, FirstRaw, a)]     \* cursor after a front steps
        back  == [b \in 0..(Len(seq) - 1) |-> Walk(PrevItem, LastRaw, b)]      \* item of the (b+1)-th back step
    IN \A a \in 0..(Len(seq) - 1) : /\ front[a] # <<>> /\ ReadRaw(front[a]) = seq[a + 1]
                                    /\ back[a] # <<>> /\ ReadRaw(back[a]) = seq[Len(seq) - a]

(***************************************************************************)
(* visit_from_leaves: children first, left to right, then the node.        *)
(***************************************************************************)
RECURSIVE VisitBelow(_, _)
VisitBelow(t, n) == FoldLeft(LAMBDA acc, c : Append(acc \o VisitBelow(t, c), c), <<>>, t[n].c)
Visits == pc = "idle" /\ root # 0 =>
            LET t == Tree
                v == Append(VisitBelow(t, 1), 1)
            IN VisitOK(t, v) /\ VisitMutOK(t, [x \in 1..Len(v) |-> <<v[x], t[v[x]].i>>])

(***************************************************************************)
(* Clone: nodes inserted children first with no parent; inserting a node   *)
(* sets the parent of its children.                                        *)
(***************************************************************************)
RECURSIVE CloneNode(_, _)
CloneNode(h2, n) ==     \* [h |-> new heap, id |-> id of the copy]
  LET r == FoldLeft(LAMBDA acc, c : LET x == CloneNode(acc.h, c) IN [h |-> x.h, ids |-> Append(acc.ids, x.id)],
                    [h |-> h2, ids |-> <<>>], heap[n].c)
      id == Cardinality(DOMAIN r.h) + 1
      new == (id :> [p |-> 0, i |-> heap[n].i, c |-> r.ids]) @@ r.h
  IN [h |-> [x \in DOMAIN new |-> IF x \in Range(r.ids) THEN [new[x] EXCEPT !.p = id] ELSE new[x]], id |-> id]
Clones == pc = "idle" /\ root # 0 =>
            LET c == CloneNode(<<>>, root) IN ToTree(c.h, c.id) = Tree

(***************************************************************************)
(* The validator of the code accepts it, and every disturbance of one key  *)
(* or parent is told apart by the specified verdict.                       *)
(***************************************************************************)
ValidatorAccepts ==
  pc = "idle" =>
    LET t == Keyed(Tree) IN
    /\ Validates(t, M)
    /\ \A n \in 1..Len(t) : \A j \in 1..Len(t[n].i) : \A k \in {0, 10, 20, 10 * Len(seq) + 1} :
         LET t2 == [t EXCEPT ![n].i[j][1] = k] IN Validates(t2, M) <=> Strict(Inorder(t2))
    /\ \A n \in 2..Len(t) : \A q \in 0..Len(t) : Validates([t EXCEPT ![n].p = q], M) <=> q = t[n].p

\* The DOT walk: a node, then for each child its graph and the edge.
RECURSIVE DotBelow(_, _)
DotBelow(t, n) ==
  FoldLeft(LAMBDA acc, c : Append(acc \o DotBelow(t, c), <<2, n, c>>),
           << <<1, n, t[n].p, [j \in 1..Len(t[n].i) |-> t[n].i[j][2]], n>> >>, t[n].c)
Dots == pc = "idle" => LET t == Keyed(Tree) IN DotOK(t, IF t = <<>> THEN <<>> ELSE DotBelow(t, 1))
=============================================================================
