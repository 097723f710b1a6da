----------------------------- MODULE TreeTheory -----------------------------
(***************************************************************************)
(* The theory of B-trees seen as values.                                   *)
(*                                                                         *)
(* A tree value is a sequence of node records                              *)
(*     [p |-> parent index or 0, i |-> sequence of item ids,               *)
(*      c |-> sequence of child indices (<<>> for a leaf)]                 *)
(* numbered in preorder, so that the root (if any) is node 1.  This is     *)
(* both what the conformance harness dumps from a real tree through its    *)
(* public API, and what ToTree below produces from the heap of the         *)
(* algorithmic specification (BTreeAlg).                                   *)
(*                                                                         *)
(* Addresses are pairs <<node, offset>>, offset -1 being the address       *)
(* "before" a node and offset = item count the address "after" it.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Functions

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE FoldSeq(LAMBDA a, b : a \o b, <<>>, ss)

(***************************************************************************)
(* Sanity of a dump: indices in range, tree-like links.  Everything below  *)
(* is only evaluated on sane dumps, so that the operators stay total even  *)
(* when the code under test has corrupted its structure.                   *)
(***************************************************************************)
Sane(t) ==
  \A n \in 1..Len(t) :
     /\ t[n].p \in 0..(n-1)
     /\ (n = 1) <=> (t[n].p = 0)
     /\ \A j \in 1..Len(t[n].c) :
           /\ t[n].c[j] \in (n+1)..Len(t)
           /\ j > 1 => t[n].c[j] > t[n].c[j-1]
     /\ t[n].c # <<>> => Len(t[n].c) = Len(t[n].i) + 1

\* Parent links: every child names its parent, and every non-root node is the child of its parent.
ParentsOK(t) ==
  /\ \A n \in 1..Len(t) : \A j \in 1..Len(t[n].c) : t[t[n].c[j]].p = n
  /\ \A n \in 2..Len(t) : \E j \in 1..Len(t[t[n].p].c) : t[t[n].p].c[j] = n

RECURSIVE InorderFrom(_, _)
InorderFrom(t, n) ==
  LET nd == t[n] IN
  IF nd.c = <<>> THEN nd.i
  ELSE FoldLeftDomain(LAMBDA acc, j : acc \o <<nd.i[j]>> \o InorderFrom(t, nd.c[j+1]),
                      InorderFrom(t, nd.c[1]), nd.i)
Inorder(t) == IF t = <<>> THEN <<>> ELSE InorderFrom(t, 1)

Depth(t) ==   \* depth of each node; preorder numbering makes parents come first
  FoldLeftDomain(LAMBDA d, n : Append(d, IF n = 1 THEN 0 ELSE d[t[n].p] + 1), <<>>, t)

LeafDepths(t) == LET d == Depth(t) IN { d[n] : n \in {m \in 1..Len(t) : t[m].c = <<>>} }
Height(t) == IF t = <<>> THEN 0
             ELSE LET d == Depth(t) IN 1 + CHOOSE x \in LeafDepths(t) : \A y \in LeafDepths(t) : y <= x

(***************************************************************************)
(* Occupancy bounds for a tree of Knuth order m.                           *)
(***************************************************************************)
MinItems(m) == (m \div 2) - 1
MaxLeaf(m) == m
MaxInner(m) == m - 1

Occupied(t, m) ==
  \A n \in 1..Len(t) :
     /\ Len(t[n].i) <= IF t[n].c = <<>> THEN MaxLeaf(m) ELSE MaxInner(m)
     /\ IF n = 1 THEN Len(t[n].i) >= 1 ELSE Len(t[n].i) >= MinItems(m)

Uniform(t) == \A n \in 1..Len(t) : TRUE /\ (t # <<>> => Cardinality(LeafDepths(t)) = 1)

WellFormed(t, m) == Sane(t) /\ ParentsOK(t) /\ Occupied(t, m) /\ (t # <<>> => Cardinality(LeafDepths(t)) = 1)

(***************************************************************************)
(* The total order on valid addresses: one depth-first walk of the tree.   *)
(***************************************************************************)
RECURSIVE AddrFrom(_, _)
AddrFrom(t, n) ==
  LET nd == t[n]
      k  == Len(nd.i)
  IN IF nd.c = <<>>
     THEN [o \in 1..(k+2) |-> <<n, o-2>>]
     ELSE FoldLeftDomain(LAMBDA acc, j : acc \o <<(<<n, j-1>>)>> \o
                              (IF j < Len(nd.c) THEN AddrFrom(t, nd.c[j+1]) ELSE <<>>),
                         <<(<<n, -1>>)>> \o AddrFrom(t, nd.c[1]), nd.c)
AddrSeq(t) == IF t = <<>> THEN <<>> ELSE AddrFrom(t, 1)

ValidAddr(t, a) == /\ Len(a) = 2 /\ a[1] \in 1..Len(t) /\ a[2] \in -1..Len(t[a[1]].i)
IsItemAddr(t, a) == ValidAddr(t, a) /\ a[2] >= 0 /\ a[2] < Len(t[a[1]].i)
IsBackAddr(t, a) == ValidAddr(t, a) /\ a[2] >= 0
IsFrontAddr(t, a) == ValidAddr(t, a) /\ a[2] < Len(t[a[1]].i)
IsLeafAddr(t, a) == ValidAddr(t, a) /\ t[a[1]].c = <<>>
ItemAt(t, a) == t[a[1]].i[a[2] + 1]

\* Number of items of the subtree rooted at n.
RECURSIVE SizeFrom(_, _)
SizeFrom(t, n) == FoldLeft(LAMBDA acc, c : acc + SizeFrom(t, c), Len(t[n].i), t[n].c)

\* Number of items located before the subtree of n.
RECURSIVE Before(_, _)
Before(t, n) ==
  IF n = 1 THEN 0
  ELSE LET p == t[n].p
           j == CHOOSE x \in 1..Len(t[p].c) : t[p].c[x] = n
       IN FoldLeft(LAMBDA acc, c : acc + SizeFrom(t, c), Before(t, p) + (j - 1), SubSeq(t[p].c, 1, j - 1))

\* Gap(t, a): number of items strictly before address a in the total order.
Gap(t, a) ==
  LET nd == t[a[1]] IN
  IF a[2] = -1 THEN Before(t, a[1])
  ELSE IF nd.c = <<>> THEN Before(t, a[1]) + a[2]
  ELSE FoldLeft(LAMBDA acc, c : acc + SizeFrom(t, c), Before(t, a[1]) + a[2], SubSeq(nd.c, 1, a[2] + 1))
=============================================================================
