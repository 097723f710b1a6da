------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What the read-only views of a tree or node must say, as functions of    *)
(* the tree value: navigation tables, node views, visits, DOT statements,  *)
(* the verdict of the validator, the cost of a search.                     *)
(***************************************************************************)
EXTENDS TreeTheory, TLC

Strict(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]

(***************************************************************************)
(* Navigation.  All walks are computed by one pass over the total order of *)
(* addresses in each direction.                                            *)
(***************************************************************************)
\* For each position of as, the nearest later (earlier) address satisfying P, or <<>>.
After(as, P(_)) ==
  LET f[x \in 1..Len(as)] == IF x = Len(as) THEN <<>> ELSE IF P(as[x + 1]) THEN as[x + 1] ELSE f[x + 1]
  IN f
Prior(as, P(_)) ==
  LET f[x \in 1..Len(as)] == IF x = 1 THEN <<>> ELSE IF P(as[x - 1]) THEN as[x - 1] ELSE f[x - 1]
  IN f

\* rows: <<address, item read, next item, previous item, next back, previous front, next item or back, normalized,
\* leaf address>>, one per valid address, in any order.
NavOK(t, rows) ==
  LET as == TLCEval(AddrSeq(t))
      at == TLCEval([a \in Range(as) |-> CHOOSE x \in 1..Len(as) : as[x] = a])
      ni == After(as, LAMBDA b : IsItemAddr(t, b))
      pi == Prior(as, LAMBDA b : IsItemAddr(t, b))
      nb == After(as, LAMBDA b : IsBackAddr(t, b))
      pf == Prior(as, LAMBDA b : IsFrontAddr(t, b))
      lf == Prior(as, LAMBDA b : IsLeafAddr(t, b))
  IN /\ Len(rows) = Len(as)
     /\ \A r \in 1..Len(rows) :
          LET row == rows[r]
              a   == row[1]
          IN /\ a \in DOMAIN at
             /\ LET x == at[a] IN
                /\ row[2] = IF IsItemAddr(t, a) THEN <<ItemAt(t, a)>> ELSE <<>>
                /\ row[3] = ni[x]
                /\ row[4] = pi[x]
                /\ row[5] = nb[x]
                /\ row[6] = pf[x]
                \* the next item; when there is none, the next back address, or the address itself if it is already
                \* the back address after the last item of its node.
                /\ row[7] \in IF ni[x] # <<>> THEN {ni[x]}
                             ELSE {nb[x]} \union (IF a[2] = Len(t[a[1]].i) THEN {a} ELSE {})
                /\ row[8] = IF IsItemAddr(t, a) THEN a ELSE ni[x]
                /\ row[9] = IF a[2] = -1 THEN <<>> ELSE IF IsLeafAddr(t, a) THEN a ELSE lf[x]

FirstItemAddr(t) == IF t = <<>> THEN <<>> ELSE CHOOSE a \in Range(AddrSeq(t)) : IsItemAddr(t, a) /\ Gap(t, a) = 0

(***************************************************************************)
(* Key search.                                                             *)
(***************************************************************************)
Smaller(s, k) == Cardinality({ i \in 1..Len(s) : s[i][1] < k })
SearchOK(t, k, hit, a) ==
  LET s == Inorder(t)
      g == Smaller(s, k)
      present == g < Len(s) /\ s[g + 1][1] = k
  IN /\ hit = present
     /\ IF t = <<>> THEN a = <<>>
        ELSE IF present THEN a # <<>> /\ IsItemAddr(t, a) /\ ItemAt(t, a) = s[g + 1]
        ELSE a # <<>> /\ IsLeafAddr(t, a) /\ IsBackAddr(t, a) /\ Gap(t, a) = g

\* The same in the tree under a node, whose nodes follow it in preorder: <<node, key, hit, node, offset>>.
RECURSIVE NodesUnder(_, _)
NodesUnder(t, n) == FoldLeft(LAMBDA acc, c : acc + NodesUnder(t, c), 1, t[n].c)
Under(t, n) ==
  [x \in 1..NodesUnder(t, n) |-> [p |-> IF x = 1 THEN 0 ELSE t[n + x - 1].p - (n - 1), i |-> t[n + x - 1].i,
                                  c |-> [j \in 1..Len(t[n + x - 1].c) |-> t[n + x - 1].c[j] - (n - 1)]]]
SearchBelowOK(t, row) == SearchOK(Under(t, row[1]), row[2], row[3] = 1, <<row[4] - (row[1] - 1), row[5]>>)

\* Under a coarser order, by class: any of the equals.
SearchInOK(t, k, c, hit, a, Cls(_, _)) ==
  LET s == Inorder(t)
      g == Cardinality({ i \in 1..Len(s) : Cls(s[i][1], c) < Cls(k, c) })
      present == \E i \in 1..Len(s) : Cls(s[i][1], c) = Cls(k, c)
  IN /\ hit = present
     /\ IF t = <<>> THEN a = <<>>
        ELSE IF present THEN a # <<>> /\ IsItemAddr(t, a) /\ Cls(ItemAt(t, a)[1], c) = Cls(k, c)
        ELSE a # <<>> /\ IsLeafAddr(t, a) /\ IsBackAddr(t, a) /\ Gap(t, a) = g

(***************************************************************************)
(* Visits from the leaves: each node once, after its children.             *)
(***************************************************************************)
VisitOK(t, ord) ==
  /\ Len(ord) = Len(t) /\ Range(ord) = 1..Len(t)
  /\ \A x \in 1..Len(ord) : \A y \in 1..Len(ord) : t[ord[x]].p = ord[y] => x < y

VisitMutOK(t, ms) ==
  /\ VisitOK(t, [x \in 1..Len(ms) |-> ms[x][1]])
  /\ \A x \in 1..Len(ms) : ms[x][2] = t[ms[x][1]].i

\* Visits that start from a node see every node below it, and not the node itself.
RECURSIVE BelowNode(_, _)
BelowNode(t, n) == UNION { {c} \union BelowNode(t, c) : c \in Range(t[n].c) }
SubVisitOK(t, n, row) ==
  LET below == BelowNode(t, n)
      okay(ord) == /\ Len(ord) = Cardinality(below) /\ Range(ord) = below
                   /\ \A x \in 1..Len(ord) : \A y \in 1..Len(ord) : t[ord[x]].p = ord[y] => x < y
      ids(ms) == [x \in 1..Len(ms) |-> ms[x][1]]
  IN /\ okay(row[1]) /\ okay(row[2]) /\ okay(ids(row[3])) /\ okay(ids(row[4]))
     /\ \A v \in {3, 4} : \A x \in 1..Len(row[v]) : row[v][x][2] = t[row[v][x][1]].i

\* A visitor that panics at a call, after row[1] others, has seen part of a visit; it is not called again.
VisitCutOK(t, row) ==
  LET seen == row[3] IN
  /\ row[2] = 1
  /\ Len(seen) = row[1] + 1 /\ Cardinality(Range(seen)) = Len(seen)
  /\ \A x \in 1..Len(seen) : \A c \in Range(t[seen[x]].c) : \E y \in 1..(x - 1) : seen[y] = c

\* The identifiers equal to that of node n, by each of their comparisons, are that one.
IdentOK(n, row) == row = [x \in 1..5 |-> <<n>>]

(***************************************************************************)
(* The views offered by one node.                                          *)
(***************************************************************************)
OptAt(s, j) == IF j \in 1..Len(s) THEN <<s[j]>> ELSE <<>>

BalanceOf(isleaf, n, m) ==
  IF n > (IF isleaf THEN MaxLeaf(m) ELSE MaxInner(m)) THEN "over"
  ELSE IF n < MinItems(m) THEN (IF n = 0 THEN "empty" ELSE "under") ELSE "ok"

\* offset_of / get of a key in one node: [hit, offset] or the child to look in.
NodeSearchOK(nd, k, r) ==   \* r = <<hit, offset or child index, child or 0, item found or <<>> >>
  LET g == Smaller(nd.i, k)
      present == g < Len(nd.i) /\ nd.i[g + 1][1] = k
  IN IF present THEN r = <<1, g, 0, <<nd.i[g + 1]>> >>
     ELSE r = <<0, g, IF nd.c = <<>> THEN 0 ELSE nd.c[g + 1], <<>> >>

\* nd = [p, i, c]; v = the view record; ids = every child identifier asked about; m = order
ViewOK(nd, v, keys, ids, m) ==
  LET n == Len(nd.i)
      leaf == nd.c = <<>>
  IN /\ v.n = n /\ v.cc = Len(nd.c)
     /\ v.its = [o \in 1..(n + 2) |-> IF o - 2 \in 0..(n - 1) THEN <<nd.i[o - 1]>> ELSE <<>>]   \* offsets -1..n
     /\ v.c = nd.c
     /\ v.co = [j \in 1..(n + 3) |-> IF j \in 1..Len(nd.c) THEN nd.c[j] ELSE 0]
     /\ v.ci = nd.c                                                     \* child_id by index
     /\ v.cx = [x \in 1..Len(ids) |-> IF leaf \/ ids[x] \notin Range(nd.c) THEN -1
                                      ELSE (CHOOSE j \in 1..Len(nd.c) : nd.c[j] = ids[x]) - 1]
     /\ v.sep = [j \in 1..Len(nd.c) |-> <<OptAt(nd.i, j - 1), OptAt(nd.i, j)>>]
     /\ v.cws = [j \in 1..Len(nd.c) |-> <<OptAt(nd.i, j - 1), nd.c[j], OptAt(nd.i, j)>>]
     /\ v.bal = BalanceOf(leaf, n, m)
     /\ v.under = (n < MinItems(m))
     /\ v.over = (n > (IF leaf THEN MaxLeaf(m) ELSE MaxInner(m)))
     /\ v.par = nd.p
     /\ v.ls = [j \in 1..4 |-> <<>>]                                    \* a leaf has no child to separate
     /\ v.fc = (IF leaf THEN 0 ELSE nd.c[1])
     /\ v.own = nd.i              \* the items of the concrete node: items()/iter() of a leaf, branches() of an internal node
     /\ v.bc = (IF leaf THEN <<>> ELSE Tail(nd.c))
     /\ Len(v.of) = Len(keys) /\ \A x \in 1..Len(keys) : Strict(nd.i) => NodeSearchOK(nd, keys[x], v.of[x])

\* The same through a mutable reference to the node: v = <<items by offset, answers by key>>, an answer being
\* <<1, item>>, <<0, child to look in>> or nothing.
ViewMutOK(nd, v, keys) ==
  LET n == Len(nd.i)
      found(k) == LET g == Smaller(nd.i, k) IN
                  IF g < n /\ nd.i[g + 1][1] = k THEN <<1, <<nd.i[g + 1]>> >>
                  ELSE IF nd.c = <<>> THEN <<>> ELSE <<0, nd.c[g + 1]>>
  IN /\ v[1] = [o \in 1..(n + 2) |-> IF o - 2 \in 0..(n - 1) THEN <<nd.i[o - 1]>> ELSE <<>>]
     /\ Len(v[2]) = Len(keys)
     /\ Strict(nd.i) => \A x \in 1..Len(keys) : v[2][x] = found(keys[x])

(***************************************************************************)
(* DOT export, as statements:                                              *)
(*   <<1, node, parent label or 0, item ids, own label>>   a node          *)
(*   <<2, from, to>>                                       an edge         *)
(*   <<3>>                                                 anything else   *)
(***************************************************************************)
DotOK(t, st) ==
  LET nodes == SelectSeq(st, LAMBDA x : x[1] = 1)
      edges == SelectSeq(st, LAMBDA x : x[1] = 2)
      want  == UNION { { <<2, n, t[n].c[j]>> : j \in 1..Len(t[n].c) } : n \in 1..Len(t) }
  IN /\ Len(nodes) + Len(edges) = Len(st)
     /\ Len(nodes) = Len(t)
     /\ \A n \in 1..Len(t) :
          \E x \in 1..Len(nodes) :
             nodes[x] = <<1, n, t[n].p, [j \in 1..Len(t[n].i) |-> t[n].i[j][2]], n>>
     /\ Len(edges) = Cardinality(want) /\ Range(edges) = want
     \* edges of one node come in the order of its children
     /\ \A n \in 1..Len(t) : SelectSeq(edges, LAMBDA x : x[2] = n) = [j \in 1..Len(t[n].c) |-> <<2, n, t[n].c[j]>>]

\* A writer that refuses what is beyond `limit' bytes: cuts are <<limit, answer, bytes taken, 1 if a prefix of the
\* whole>>, the answer being 1 for the writer's own error.  One whose interruptions are to be retried changes nothing.
DotCutOK(size, cuts) ==
  \A j \in 1..Len(cuts) :
    LET c == cuts[j] IN c[2] = (IF c[1] < size THEN 1 ELSE 0) /\ c[3] = (IF c[1] < size THEN c[1] ELSE size) /\ c[4] = 1

(***************************************************************************)
(* The validator: what it must accept, on any tree-shaped structure (whose *)
(* nodes may be under- or overfull, unsorted, or name a wrong parent).     *)
(***************************************************************************)
Validates(t, m) ==
  \/ t = <<>>
  \/ /\ \A n \in 1..Len(t) : \A j \in 1..Len(t[n].c) : t[t[n].c[j]].p = n
     /\ t[1].p = 0
     /\ \A n \in 2..Len(t) : Len(t[n].i) >= MinItems(m) /\ Len(t[n].i) <= IF t[n].c = <<>> THEN MaxLeaf(m) ELSE MaxInner(m)
     /\ t[1].c # <<>> => Len(t[1].i) >= 1
     /\ Cardinality(LeafDepths([n \in 1..Len(t) |-> [t[n] EXCEPT !.p = IF n = 1 THEN 0 ELSE
             CHOOSE p \in 1..Len(t) : n \in Range(t[p].c)]])) = 1
     /\ Strict(Inorder(t))

\* Validation from node n, given the parent and the bounds it must have; of the node alone, or of all below it.
Fits(s, lo, hi) == s # <<>> => /\ lo # <<>> => lo[1] < s[1][1]
                               /\ hi # <<>> => hi[1] > s[Len(s)][1]
FitsNode(t, n, root, m) ==
  IF root THEN t[n].c # <<>> => Len(t[n].i) >= 1
  ELSE Len(t[n].i) >= MinItems(m) /\ Len(t[n].i) <= IF t[n].c = <<>> THEN MaxLeaf(m) ELSE MaxInner(m)
RECURSIVE LevelsBelow(_, _)       \* the set of depths of leaves below
LevelsBelow(t, n) == IF t[n].c = <<>> THEN {0} ELSE UNION { { d + 1 : d \in LevelsBelow(t, c) } : c \in Range(t[n].c) }

ValidatesNode(t, n, par, lo, hi, m) ==
  /\ t[n].p = par /\ FitsNode(t, n, lo = <<>> /\ hi = <<>>, m)
  /\ Strict(t[n].i) /\ Fits(t[n].i, lo, hi)

ValidatesBelow(t, n, par, lo, hi, m) ==
  /\ ValidatesNode(t, n, par, lo, hi, m)
  /\ \A k \in BelowNode(t, n) : FitsNode(t, k, FALSE, m)
  /\ \A k \in {n} \union BelowNode(t, n) : \A c \in Range(t[k].c) : t[c].p = k
  /\ Cardinality(LevelsBelow(t, n)) = 1
  /\ Strict(InorderFrom(t, n)) /\ Fits(InorderFrom(t, n), lo, hi)

\* rows are <<node, parent given, lower bound, upper bound, 1 for all below, accepted, depth>>
ValidateRowOK(t, r, m) ==
  IF r[5] = 1 THEN LET okay == ValidatesBelow(t, r[1], r[2], r[3], r[4], m) IN
                   /\ r[6] = (IF okay THEN 1 ELSE 0)
                   /\ okay => LevelsBelow(t, r[1]) = {r[7]}
  ELSE r[6] = (IF ValidatesNode(t, r[1], r[2], r[3], r[4], m) THEN 1 ELSE 0)

(***************************************************************************)
(* Cost of a keyed operation: at most a constant number of comparisons per *)
(* level, and logarithmically many levels.                                 *)
(***************************************************************************)
\* A tree of height ht with minimum occupancy has 2 (M/2)^(ht-1) - 1 items: AtMost(ht, acc, ...) with acc = (M/2)^0.
RECURSIVE AtMost(_, _, _, _)
AtMost(ht, acc, n, m) == IF 2 * acc - 1 > n THEN FALSE ELSE IF ht = 1 THEN TRUE ELSE AtMost(ht - 1, acc * (m \div 2), n, m)
HeightOK(ht, n, m) == IF n = 0 THEN ht = 0 ELSE ht >= 1 /\ AtMost(ht, 1, n, m)
CostOK(calls, ht, m) == calls <= 2 * (m + 1) * ht
=============================================================================
