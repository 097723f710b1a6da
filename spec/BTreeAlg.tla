------------------------------ MODULE BTreeAlg ------------------------------
(***************************************************************************)
(* The algorithm of raw-btree, at the grain of its own steps: a heap of    *)
(* nodes, insertion into a leaf, removal from a leaf or through the        *)
(* predecessor, then the rebalancing loop (split, rotate left, rotate      *)
(* right, merge, root collapse), with the tracked address.                 *)
(*                                                                         *)
(* `seq' is the abstract content: it changes only when an operation        *)
(* starts, never during rebalancing.                                       *)
(***************************************************************************)
EXTENDS TreeTheory, TLC, Json, IOUtils

CONSTANTS M,        \* Knuth order
          N         \* bound on the number of items (state constraint)

ASSUME M \in Nat /\ M >= 4

VARIABLES heap,     \* [node id -> [p, i, c]], ids being naturals
          root,     \* root id or 0
          seq,      \* abstract content: sequence of item ids
          pc,       \* "idle" or "rebalance"
          op,       \* the operation in progress or last completed
          cur,      \* node being rebalanced
          addr,     \* tracked address, <<id, offset>> or <<>>
          fresh,    \* last item id used
          hist      \* history of operations (excluded from the view)

vars == <<heap, root, seq, pc, op, cur, addr, fresh, hist>>

Leafp(h, n) == h[n].c = <<>>
Cnt(h, n) == Len(h[n].i)
Overflowing(h, n) == IF Leafp(h, n) THEN Cnt(h, n) > M ELSE Cnt(h, n) >= M
Underflowing(h, n) == Cnt(h, n) < (M \div 2) - 1
WouldUnderflow(h, n) == Cnt(h, n) < M \div 2
NewId(h) == CHOOSE x \in 1..(Cardinality(DOMAIN h) + 1) : x \notin DOMAIN h
\* 0-based index of child n in its parent p
ChildIndex(h, p, n) == (CHOOSE j \in 1..Len(h[p].c) : h[p].c[j] = n) - 1

InsAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))   \* at 0-based k
DelAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))                \* at 0-based k

(***************************************************************************)
(* From a heap to a tree value (preorder numbering).                       *)
(***************************************************************************)
RECURSIVE Preorder(_, _)
Preorder(h, n) == FoldLeft(LAMBDA acc, c : acc \o Preorder(h, c), <<n>>, h[n].c)
Order(h, r) == IF r = 0 THEN <<>> ELSE Preorder(h, r)
ToTree(h, r) ==
  LET ord == Order(h, r)
      idx == [x \in Range(ord) |-> CHOOSE j \in 1..Len(ord) : ord[j] = x]
  IN [j \in 1..Len(ord) |->
        [p |-> IF h[ord[j]].p = 0 THEN 0 ELSE idx[h[ord[j]].p],
         i |-> h[ord[j]].i,
         c |-> [x \in 1..Len(h[ord[j]].c) |-> idx[h[ord[j]].c[x]]]]]
ToAddr(h, r, a) ==
  IF a = <<>> THEN <<>>
  ELSE LET ord == Order(h, r) IN <<CHOOSE j \in 1..Len(ord) : ord[j] = a[1], a[2]>>

RECURSIVE InH(_, _)
InH(h, n) ==
  IF Leafp(h, n) THEN h[n].i
  ELSE FoldLeftDomain(LAMBDA acc, j : acc \o <<h[n].i[j]>> \o InH(h, h[n].c[j+1]),
                      InH(h, h[n].c[1]), h[n].i)
Flat(h, r) == IF r = 0 THEN <<>> ELSE InH(h, r)

(***************************************************************************)
(* Address arithmetic of the code, transcribed loop by loop.               *)
(***************************************************************************)
RECURSIVE LeafAddress(_, _)
LeafAddress(h, a) ==
  IF Leafp(h, a[1]) THEN a
  ELSE LET c == h[a[1]].c[a[2] + 1] IN LeafAddress(h, <<c, Cnt(h, c)>>)

RECURSIVE Normalize(_, _)
Normalize(h, a) ==
  IF a[2] >= Cnt(h, a[1])
  THEN IF h[a[1]].p = 0 THEN <<>>
       ELSE Normalize(h, <<h[a[1]].p, ChildIndex(h, h[a[1]].p, a[1])>>)
  ELSE a

RECURSIVE LeftmostLeaf(_, _)
LeftmostLeaf(h, n) == IF Leafp(h, n) THEN n ELSE LeftmostLeaf(h, h[n].c[1])
RECURSIVE RightmostLeaf(_, _)
RightmostLeaf(h, n) == IF Leafp(h, n) THEN n ELSE RightmostLeaf(h, h[n].c[Len(h[n].c)])

NextItem(h, a) ==
  IF a[2] < Cnt(h, a[1])
  THEN IF Leafp(h, a[1]) THEN Normalize(h, <<a[1], a[2] + 1>>)
       ELSE <<LeftmostLeaf(h, h[a[1]].c[a[2] + 2]), 0>>
  ELSE Normalize(h, a)

NextItemOrBack(h, a) ==
  LET b == IF a[2] < Cnt(h, a[1]) THEN <<a[1], a[2] + 1>> ELSE a
      n == NextItem(h, a)
  IN IF n = <<>> THEN b ELSE n

RECURSIVE PrevClimb(_, _)
PrevClimb(h, a) ==
  IF a[2] > 0 THEN <<a[1], a[2] - 1>>
  ELSE IF h[a[1]].p = 0 THEN <<>>
  ELSE PrevClimb(h, <<h[a[1]].p, ChildIndex(h, h[a[1]].p, a[1])>>)
PrevItem(h, a) ==
  IF a[2] >= 0 /\ ~Leafp(h, a[1])
  THEN LET l == RightmostLeaf(h, h[a[1]].c[a[2] + 1]) IN PrevClimb(h, <<l, Cnt(h, l)>>)
  ELSE PrevClimb(h, a)

PrevFront(h, a) ==
  IF a[2] >= 0
  THEN IF Leafp(h, a[1]) THEN <<a[1], a[2] - 1>>
       ELSE LET l == RightmostLeaf(h, h[a[1]].c[a[2] + 1]) IN <<l, Cnt(h, l) - 1>>
  ELSE IF h[a[1]].p = 0 THEN <<>>
       ELSE <<h[a[1]].p, ChildIndex(h, h[a[1]].p, a[1]) - 1>>

NextBack(h, a) ==
  IF a[2] < Cnt(h, a[1])
  THEN IF Leafp(h, a[1]) THEN <<a[1], a[2] + 1>>
       ELSE <<LeftmostLeaf(h, h[a[1]].c[a[2] + 2]), 0>>
  ELSE IF h[a[1]].p = 0 THEN <<>>
       ELSE <<h[a[1]].p, ChildIndex(h, h[a[1]].p, a[1])>>

(***************************************************************************)
(* Actions.                                                                *)
(***************************************************************************)
Init ==
  /\ heap = <<>> /\ root = 0 /\ seq = <<>> /\ pc = "idle"
  /\ op = [kind |-> "none", gap |-> 0] /\ cur = 0 /\ addr = <<>> /\ fresh = 0 /\ hist = <<>>

GapH(a) == Gap(ToTree(heap, root), ToAddr(heap, root, a))

\* A new item into the empty tree.
InsertFirst ==
  /\ pc = "idle" /\ root = 0
  /\ fresh' = fresh + 1
  /\ heap' = (1 :> [p |-> 0, i |-> <<fresh'>>, c |-> <<>>])
  /\ root' = 1 /\ seq' = <<fresh'>> /\ addr' = <<1, 0>>
  /\ op' = [kind |-> "insert", gap |-> 0] /\ cur' = 0 /\ pc' = "idle"
  /\ hist' = Append(hist, <<1, 0>>)

\* A new item at a leaf address (any back address has first been turned into a leaf address).
InsertLeaf(n, o) ==
  /\ pc = "idle" /\ root # 0
  /\ LET g == GapH(<<n, o>>) IN
     /\ fresh' = fresh + 1
     /\ heap' = [heap EXCEPT ![n].i = InsAt(@, o, fresh')]
     /\ seq' = InsAt(seq, g, fresh')
     /\ op' = [kind |-> "insert", gap |-> g]
     /\ hist' = Append(hist, <<1, g>>)
  /\ addr' = <<n, o>> /\ cur' = n /\ pc' = "rebalance"
  /\ UNCHANGED root

RemoveFromLeaf(n, o) ==
  /\ pc = "idle" /\ root # 0 /\ Leafp(heap, n) /\ o < Cnt(heap, n)
  /\ LET g == GapH(<<n, o>>) IN
     /\ heap' = [heap EXCEPT ![n].i = DelAt(@, o)]
     /\ seq' = DelAt(seq, g)
     /\ op' = [kind |-> "remove", gap |-> g]
     /\ hist' = Append(hist, <<0, g>>)
  /\ addr' = <<n, o>> /\ cur' = n /\ pc' = "rebalance"
  /\ UNCHANGED <<root, fresh>>

\* Removal from an internal node: the predecessor takes the place of the item.
RemoveFromInner(n, o) ==
  /\ pc = "idle" /\ root # 0 /\ ~Leafp(heap, n) /\ o < Cnt(heap, n)
  /\ LET g == GapH(<<n, o>>)
         l == RightmostLeaf(heap, heap[n].c[o + 1])
         s == heap[l].i[Cnt(heap, l)]
     IN /\ addr' = NextItemOrBack(heap, <<n, o>>)
        /\ heap' = [heap EXCEPT ![l].i = SubSeq(@, 1, Len(@) - 1), ![n].i[o + 1] = s]
        /\ seq' = DelAt(seq, g)
        /\ op' = [kind |-> "remove", gap |-> g]
        /\ hist' = Append(hist, <<0, g>>)
        /\ cur' = l
  /\ pc' = "rebalance"
  /\ UNCHANGED <<root, fresh>>

Rebalancing == pc = "rebalance"

Finish ==
  /\ Rebalancing /\ ~Overflowing(heap, cur)
  /\ Underflowing(heap, cur) => (heap[cur].p = 0 /\ Cnt(heap, cur) > 0)
  /\ pc' = "idle" /\ cur' = 0
  /\ UNCHANGED <<heap, root, seq, op, addr, fresh, hist>>

Reparent(h, cs, n) == [x \in DOMAIN h |-> IF x \in Range(cs) THEN [h[x] EXCEPT !.p = n] ELSE h[x]]

Split ==
  /\ Rebalancing /\ Overflowing(heap, cur)
  /\ LET k   == Cnt(heap, cur)
         mid == (k - 1) \div 2                 \* 0-based offset of the median
         med == heap[cur].i[mid + 1]
         r   == NewId(heap)
         par == heap[cur].p
         rn  == [p |-> par, i |-> SubSeq(heap[cur].i, mid + 2, k),
                 c |-> IF Leafp(heap, cur) THEN <<>> ELSE SubSeq(heap[cur].c, mid + 2, k + 1)]
         ln  == [heap[cur] EXCEPT !.i = SubSeq(@, 1, mid), !.c = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, mid + 1)]
         h1  == Reparent((r :> rn) @@ [heap EXCEPT ![cur] = ln], rn.c, r)
     IN IF par # 0
        THEN LET ci == ChildIndex(heap, par, cur) IN
             /\ heap' = [h1 EXCEPT ![par].i = InsAt(@, ci, med), ![par].c = InsAt(@, ci + 1, r)]
             /\ addr' = IF addr[1] = cur
                        THEN IF addr[2] = mid THEN <<par, ci>>
                             ELSE IF addr[2] > mid THEN <<r, addr[2] - mid - 1>> ELSE addr
                        ELSE IF addr[1] = par /\ addr[2] >= ci THEN <<par, addr[2] + 1>> ELSE addr
             /\ cur' = par /\ UNCHANGED <<root, pc>>
        ELSE LET nr == NewId(h1) IN
             /\ heap' = (nr :> [p |-> 0, i |-> <<med>>, c |-> <<cur, r>>]) @@ Reparent(h1, <<cur, r>>, nr)
             /\ addr' = IF addr[1] = cur
                        THEN IF addr[2] = mid THEN <<nr, 0>>
                             ELSE IF addr[2] > mid THEN <<r, addr[2] - mid - 1>> ELSE addr
                        ELSE addr
             /\ root' = nr /\ pc' = "idle" /\ cur' = 0
  /\ UNCHANGED <<seq, op, fresh, hist>>

Deficient == Rebalancing /\ ~Overflowing(heap, cur) /\ Underflowing(heap, cur)
CanRotateLeft ==
  /\ Deficient /\ heap[cur].p # 0
  /\ LET par == heap[cur].p
         ci  == ChildIndex(heap, par, cur)
     IN ci + 1 < Len(heap[par].c) /\ ~WouldUnderflow(heap, heap[par].c[ci + 2])
CanRotateRight ==
  /\ Deficient /\ heap[cur].p # 0
  /\ LET par == heap[cur].p
         ci  == ChildIndex(heap, par, cur)
     IN ci > 0 /\ ~WouldUnderflow(heap, heap[par].c[ci])

RotateLeft ==
  /\ CanRotateLeft
  /\ LET par == heap[cur].p
         ci  == ChildIndex(heap, par, cur)
         r   == heap[par].c[ci + 2]
         it  == Head(heap[r].i)
         piv == heap[par].i[ci + 1]
         lo  == Cnt(heap, cur)
         mv  == IF Leafp(heap, r) THEN <<>> ELSE <<Head(heap[r].c)>>
     IN /\ heap' = Reparent([heap EXCEPT
                 ![r].i = Tail(@), ![r].c = IF @ = <<>> THEN <<>> ELSE Tail(@),
                 ![par].i[ci + 1] = it,
                 ![cur].i = Append(@, piv), ![cur].c = @ \o mv], mv, cur)
        /\ addr' = IF addr[1] = r THEN (IF addr[2] = 0 THEN <<par, ci>> ELSE <<r, addr[2] - 1>>)
                   ELSE IF addr[1] = par /\ addr[2] = ci THEN <<cur, lo>> ELSE addr
  /\ pc' = "idle" /\ cur' = 0
  /\ UNCHANGED <<root, seq, op, fresh, hist>>

RotateRight ==
  /\ ~CanRotateLeft /\ CanRotateRight
  /\ LET par == heap[cur].p
         ci  == ChildIndex(heap, par, cur)
         l   == heap[par].c[ci]
         lo  == Cnt(heap, l) - 1
         it  == heap[l].i[lo + 1]
         piv == heap[par].i[ci]
         mv  == IF Leafp(heap, l) THEN <<>> ELSE <<heap[l].c[Len(heap[l].c)]>>
     IN /\ heap' = Reparent([heap EXCEPT
                 ![l].i = SubSeq(@, 1, lo), ![l].c = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, Len(@) - 1),
                 ![par].i[ci] = it,
                 ![cur].i = <<piv>> \o @, ![cur].c = mv \o @], mv, cur)
        /\ addr' = IF addr[1] = cur THEN <<cur, addr[2] + 1>>
                   ELSE IF addr[1] = l THEN (IF addr[2] = lo THEN <<par, ci - 1>> ELSE addr)
                   ELSE IF addr[1] = par /\ addr[2] = ci - 1 THEN <<cur, 0>> ELSE addr
  /\ pc' = "idle" /\ cur' = 0
  /\ UNCHANGED <<root, seq, op, fresh, hist>>

Merge ==
  /\ Deficient /\ heap[cur].p # 0 /\ ~CanRotateLeft /\ ~CanRotateRight
  /\ LET par == heap[cur].p
         ci  == ChildIndex(heap, par, cur)
         li  == IF ci > 0 THEN ci - 1 ELSE ci     \* index of the left child of the pair
         l   == heap[par].c[li + 1]
         r   == heap[par].c[li + 2]
         sep == heap[par].i[li + 1]
         lo  == Cnt(heap, l)
         h1  == [x \in DOMAIN heap \ {r} |-> heap[x]]
     IN /\ heap' = Reparent([h1 EXCEPT
                 ![par].i = DelAt(@, li), ![par].c = DelAt(@, li + 1),
                 ![l].i = @ \o <<sep>> \o heap[r].i, ![l].c = @ \o heap[r].c], heap[r].c, l)
        /\ addr' = IF addr[1] = par
                   THEN IF addr[2] = li THEN <<l, lo>>
                        ELSE IF addr[2] > li THEN <<par, addr[2] - 1>> ELSE addr
                   ELSE IF addr[1] = r THEN <<l, addr[2] + lo + 1>> ELSE addr
        /\ cur' = par
  /\ UNCHANGED <<root, seq, pc, op, fresh, hist>>

CollapseRoot ==
  /\ Rebalancing /\ heap[cur].p = 0 /\ Cnt(heap, cur) = 0
  /\ IF Leafp(heap, cur)
     THEN root' = 0 /\ heap' = <<>> /\ addr' = <<>>
     ELSE LET r == heap[cur].c[1] IN
          /\ root' = r
          /\ heap' = Reparent([x \in DOMAIN heap \ {cur} |-> heap[x]], <<r>>, 0)
          /\ addr' = IF addr[1] = cur THEN <<r, Cnt(heap, r)>> ELSE addr
  /\ pc' = "idle" /\ cur' = 0
  /\ UNCHANGED <<seq, op, fresh, hist>>

Start ==
  \/ InsertFirst
  \/ \E n \in DOMAIN heap : Leafp(heap, n) /\ \E o \in 0..Cnt(heap, n) : InsertLeaf(n, o)
  \/ \E n \in DOMAIN heap : \E o \in 0..(Cnt(heap, n) - 1) : RemoveFromLeaf(n, o) \/ RemoveFromInner(n, o)

Rebalance == Finish \/ Split \/ RotateLeft \/ RotateRight \/ Merge \/ CollapseRoot

Next == Start \/ Rebalance
Spec == Init /\ [][Next]_vars /\ WF_vars(Rebalance)

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
\* Rebalancing never reorders, loses or duplicates an item (even half-way).
ContentPreserved == Flat(heap, root) = seq

\* No node leaks, none is used after its release.
NoLeak == DOMAIN heap = Range(Order(heap, root))

Balanced == pc = "idle" => WellFormed(ToTree(heap, root), M)

\* The address returned by an insertion is that of the new item; the address returned by a removal is where the
\* item was.
AddressTracked ==
  pc = "idle" =>
    CASE op.kind = "insert" ->
           LET t == ToTree(heap, root)
               a == ToAddr(heap, root, addr)
           IN IsItemAddr(t, a) /\ ItemAt(t, a) = fresh /\ Gap(t, a) = op.gap
      [] op.kind = "remove" ->
           IF root = 0 THEN addr = <<>>
           ELSE LET t == ToTree(heap, root)
                    a == ToAddr(heap, root, addr)
                IN IsBackAddr(t, a) /\ Gap(t, a) = op.gap
      [] OTHER -> TRUE

\* The address walks of the code compute what the total order says.
FirstIn(as, P(_)) == LET f == SelectInSeq(as, P) IN IF f = 0 THEN <<>> ELSE as[f]
Navigation ==
  pc = "idle" /\ root # 0 =>
    LET t   == ToTree(heap, root)
        ord == Order(heap, root)
        as  == AddrSeq(t)
        raw(a) == <<ord[a[1]], a[2]>>
        back(b) == ToAddr(heap, root, b)
    IN \A x \in 1..Len(as) :
         LET a  == as[x]
             up == SubSeq(as, x + 1, Len(as))
             dn == Reverse(SubSeq(as, 1, x - 1))
             ni == FirstIn(up, LAMBDA b : IsItemAddr(t, b))
         IN /\ back(NextItem(heap, raw(a))) = ni
            /\ back(PrevItem(heap, raw(a))) = FirstIn(dn, LAMBDA b : IsItemAddr(t, b))
            /\ back(NextBack(heap, raw(a))) = FirstIn(up, LAMBDA b : IsBackAddr(t, b))
            /\ back(PrevFront(heap, raw(a))) = FirstIn(dn, LAMBDA b : IsFrontAddr(t, b))
            /\ a[2] >= 0 => back(Normalize(heap, raw(a))) = IF IsItemAddr(t, a) THEN a ELSE ni
            /\ a[2] >= 0 => back(LeafAddress(heap, raw(a))) =
                              IF IsLeafAddr(t, a) THEN a ELSE FirstIn(dn, LAMBDA b : IsLeafAddr(t, b))
            /\ Gap(t, a) = Cardinality({y \in 1..(x-1) : IsItemAddr(t, as[y])})
            /\ AddrSeq(t)[x] = a

\* The thresholds are those whose arithmetic holds for every order (see `Orders'), and no node but the one being
\* rebalanced is off, nor is that one by more than an item; so what the order decides here, it decides for all.
Ord == INSTANCE Orders
OffByOne ==
  /\ \A n \in DOMAIN heap :
       LET lf == Leafp(heap, n)
           k  == Cnt(heap, n)
       IN /\ Overflowing(heap, n) = Ord!Over(M, lf, k)
          /\ Underflowing(heap, n) = Ord!Under(M, k)
          /\ WouldUnderflow(heap, n) = Ord!Would(M, k)
          /\ k <= Ord!Most(M, lf) + IF n = cur THEN 1 ELSE 0
          /\ n # root => k >= Ord!Least(M) - IF n = cur THEN 1 ELSE 0
          /\ n = root /\ n # cur => k >= 1
  /\ Ord!Sound(M)

Abstract == INSTANCE SeqSpec WITH content <- seq
RefinesSeq == Abstract!Spec

Terminates == []<>(pc = "idle")

Bound == Len(seq) <= N

(***************************************************************************)
(* View: the shape, with the marks that matter, but no identities.         *)
(***************************************************************************)
RECURSIVE Canon(_)
Canon(n) == << Cnt(heap, n), n = cur,
               IF addr # <<>> /\ addr[1] = n THEN addr[2] ELSE -9,
               [j \in 1..Len(heap[n].c) |-> Canon(heap[n].c[j])] >>
RECURSIVE Shape(_)
Shape(n) == <<Cnt(heap, n), [j \in 1..Len(heap[n].c) |-> Shape(heap[n].c[j])]>>
FullView == <<pc, op, IF root = 0 THEN <<>> ELSE Canon(root)>>
ShapeView == IF pc = "idle" THEN <<"idle", IF root = 0 THEN <<>> ELSE Shape(root)>> ELSE FullView

\* Behaviour generation: one JSON line per distinct idle shape (BFS: a shortest history reaching it).
Emit == (pc = "idle" /\ Len(seq) <= N) => PrintT(ToJson([n |-> Len(seq), hist |-> hist]))
=============================================================================
