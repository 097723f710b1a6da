----------------------------- MODULE NodeSteps -----------------------------
(***************************************************************************)
(* The algorithm of BTreeAlg is nothing but calls of the node primitives   *)
(* of NodePrim: every step it takes is one primitive on each node it       *)
(* changes (as in balancing.rs and storage.rs), the links to parents put   *)
(* aside, and it goes where the balance reported by the nodes says.        *)
(***************************************************************************)
EXTENDS BTreeAlg, NodePrim

\* The event of a primitive on node n during the present step; the link to the parent is not its business.
Ev(f, n, more) == more @@ [f |-> f, a |-> heap[n], b |-> [heap'[n] EXCEPT !.p = heap[n].p]]
Ok(f, n, more) == PrimOK(Ev(f, n, more), M)
Bare(h, n) == [h[n] EXCEPT !.p = 0]
\* Nothing but the links of other nodes changes.
OnlyTouches(ns) == \A n \in (DOMAIN heap \cap DOMAIN heap') \ ns : Bare(heap, n) = Bare(heap', n)
Balance(n) == BalanceOf(Leafp(heap, n), Cnt(heap, n), M)
Child1(n) == IF Leafp(heap, n) THEN 0 ELSE Head(heap[n].c)
ChildN(n) == IF Leafp(heap, n) THEN 0 ELSE heap[n].c[Len(heap[n].c)]

InsertStep ==
  IF root = 0
  THEN PrimOK([f |-> "new_leaf", b |-> heap'[root'], o |-> 0, x |-> fresh', a |-> [p |-> 0, i |-> <<>>, c |-> <<>>]], M)
  ELSE /\ Ok("insert", addr'[1], [o |-> addr'[2], x |-> fresh'])
       /\ OnlyTouches({addr'[1]})

RemoveStep ==
  LET leaf == cur'
      ch   == { n \in DOMAIN heap : heap[n].i # heap'[n].i }
  IN /\ OnlyTouches(ch)
     /\ IF ch = {leaf}
        THEN Ok("leaf_remove", leaf, [o |-> addr'[2], r |-> <<1, heap[leaf].i[addr'[2] + 1]>>])
        ELSE LET n == CHOOSE x \in ch : x # leaf
                 o == CHOOSE j \in 1..Cnt(heap, n) : heap[n].i[j] # heap'[n].i[j]
             IN /\ Cardinality(ch) = 2
                /\ Ok("remove_rightmost_leaf", leaf, [r |-> <<1, heap[leaf].i[Cnt(heap, leaf)]>>])
                /\ Ok("replace", n, [o |-> o - 1, x |-> heap[leaf].i[Cnt(heap, leaf)], r |-> heap[n].i[o]])

SplitStep ==
  LET new == DOMAIN heap' \ DOMAIN heap
      par == heap[cur].p
      right == IF par # 0 THEN CHOOSE n \in new : TRUE ELSE CHOOSE n \in new : n # root'
      med == heap[cur].i[Cnt(heap', cur) + 1]
  IN /\ Balance(cur) = "over"
     /\ Ok("split", cur, [r |-> <<Cnt(heap', cur), med, heap'[right]>>])
     /\ IF par # 0
        THEN /\ Ok("insert", par, [o |-> ChildIndex(heap, par, cur), x |-> med, ch |-> right])
             /\ OnlyTouches({cur, par})
        ELSE /\ PrimOK([f |-> "new_binary", b |-> heap'[root'], o |-> 0, x |-> med, cs |-> <<cur, right>>, a |-> heap[cur]], M)
             /\ OnlyTouches({cur})

RotateLeftStep ==
  LET par == heap[cur].p
      ci  == ChildIndex(heap, par, cur)
      r   == heap[par].c[ci + 2]
  IN /\ Balance(cur) \in {"under", "empty"}
     /\ Ok("pop_left", r, [r |-> <<Head(heap[r].i), Child1(r)>>])
     /\ Ok("replace", par, [o |-> ci, x |-> Head(heap[r].i), r |-> heap[par].i[ci + 1]])
     /\ Ok("push_right", cur, [x |-> heap[par].i[ci + 1], ch |-> Child1(r), r |-> Cnt(heap, cur)])
     /\ OnlyTouches({r, par, cur})

RotateRightStep ==
  LET par == heap[cur].p
      ci  == ChildIndex(heap, par, cur)
      l   == heap[par].c[ci]
      n   == Cnt(heap, l)
  IN /\ Balance(cur) \in {"under", "empty"}
     \* the right sibling, if any, refused
     /\ ci + 1 < Len(heap[par].c) =>
          LET r == heap[par].c[ci + 2] IN PrimOK([f |-> "pop_left", a |-> heap[r], b |-> heap[r], r |-> <<>>], M)
     /\ Ok("pop_right", l, [r |-> <<n - 1, heap[l].i[n], ChildN(l)>>])
     /\ Ok("replace", par, [o |-> ci - 1, x |-> heap[l].i[n], r |-> heap[par].i[ci]])
     /\ Ok("push_left", cur, [x |-> heap[par].i[ci], ch |-> ChildN(l)])
     /\ OnlyTouches({l, par, cur})

MergeStep ==
  LET par == heap[cur].p
      ci  == ChildIndex(heap, par, cur)
      li  == IF ci > 0 THEN ci - 1 ELSE ci
      l   == heap[par].c[li + 1]
      r   == heap[par].c[li + 2]
      sep == heap[par].i[li + 1]
      refuses(f, n) == PrimOK([f |-> f, a |-> heap[n], b |-> heap[n], r |-> <<>>], M)
  IN /\ Balance(cur) \in {"under", "empty"}
     /\ ci + 1 < Len(heap[par].c) => refuses("pop_left", heap[par].c[ci + 2])
     /\ ci > 0 => refuses("pop_right", heap[par].c[ci])
     /\ Ok("merge", par, [o |-> li, r |-> <<li, l, r, sep, BalanceOf(FALSE, Cnt(heap', par), M)>>])
     /\ Ok("append", l, [x |-> sep, y |-> heap[r], r |-> Cnt(heap, l)])
     /\ r \notin DOMAIN heap'
     /\ OnlyTouches({l, par})

FinishStep == Balance(cur) = "ok" \/ (heap[cur].p = 0 /\ Balance(cur) = "under")

\* (an idle-to-idle step is the first insertion)
PrimSteps ==
  [][CASE pc = "idle" -> IF op'.kind = "insert" THEN InsertStep ELSE RemoveStep
       [] Split -> SplitStep
       [] RotateLeft -> RotateLeftStep
       [] RotateRight -> RotateRightStep
       [] Merge -> MergeStep
       [] Finish -> FinishStep
       [] OTHER -> OnlyTouches({})]_vars
=============================================================================
