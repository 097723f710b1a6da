-------------------------------- MODULE Full --------------------------------
(***************************************************************************)
(* A storage that has no room for another node panics in the middle of an  *)
(* insertion.  This adds to BTreeAlg                                       *)
(*   Stop   the right half of a node being split finds no room, or it does *)
(*          and the new root does not: the unwinding drops the items of    *)
(*          the node that was refused and the median; the nodes below the  *)
(*          right half, and the right half if it had been stored, are      *)
(*          active but cannot be reached.                                  *)
(* What remains is a balanced tree again, with the left half in the place  *)
(* of the node; so the length is the number of items found by a walk.      *)
(***************************************************************************)
EXTENDS BTreeAlg

VARIABLES dropped, leaked       \* items that the unwinding drops, items in nodes out of reach
fvars == <<heap, root, seq, pc, op, cur, addr, fresh, hist, dropped, leaked>>

FInit == Init /\ dropped = {} /\ leaked = {}

RECURSIVE Below(_, _)
Below(h, n) == {n} \union UNION { Below(h, c) : c \in Range(h[n].c) }
ItemsOf(h, ns) == UNION { Range(h[n].i) : n \in ns }

Stop(stored) ==
  /\ Rebalancing /\ Overflowing(heap, cur)
  /\ stored => heap[cur].p = 0                 \* only a new root is asked for second
  /\ LET k    == Cnt(heap, cur)
         mid  == (k - 1) \div 2
         med  == heap[cur].i[mid + 1]
         ri   == Range(SubSeq(heap[cur].i, mid + 2, k))
         rc   == IF Leafp(heap, cur) THEN {} ELSE Range(SubSeq(heap[cur].c, mid + 2, k + 1))
         away == UNION { Below(heap, c) : c \in rc }
         ln   == [heap[cur] EXCEPT !.i = SubSeq(@, 1, mid), !.c = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 1, mid + 1)]
         d    == {med} \union (IF stored THEN {} ELSE ri)
         lk   == ItemsOf(heap, away) \union (IF stored THEN ri ELSE {})
     IN /\ heap' = [x \in DOMAIN heap \ away |-> IF x = cur THEN ln ELSE heap[x]]
        /\ dropped' = dropped \union d
        /\ leaked' = leaked \union lk
        /\ seq' = SelectSeq(seq, LAMBDA x : x \notin d \union lk)
        /\ op' = [kind |-> "stopped", gap |-> 0]
  /\ pc' = "idle" /\ cur' = 0 /\ addr' = <<>>
  /\ UNCHANGED <<root, fresh, hist>>

\* The first node of a tree is refused.
StopFirst ==
  /\ pc = "idle" /\ root = 0
  /\ fresh' = fresh + 1 /\ dropped' = dropped \union {fresh'}
  /\ op' = [kind |-> "stopped", gap |-> 0]
  /\ UNCHANGED <<heap, root, seq, pc, cur, addr, hist, leaked>>

FNext == (Next /\ UNCHANGED <<dropped, leaked>>) \/ (\E b \in BOOLEAN : Stop(b)) \/ StopFirst
FSpec == FInit /\ [][FNext]_fvars

\* No item is in two places.
Apart == /\ dropped \cap leaked = {}
         /\ (dropped \union leaked) \cap Range(seq) = {}
         /\ Cardinality(Range(seq)) = Len(seq)
\* None appears from nowhere or vanishes: a stop accounts for all that was there.
Accounted == [][op'.kind = "stopped" /\ pc = "rebalance" =>
                  Range(seq) = Range(seq') \union (dropped' \ dropped) \union (leaked' \ leaked)]_fvars

=============================================================================
