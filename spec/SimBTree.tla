------------------------------ MODULE SimBTree ------------------------------
(***************************************************************************)
(* Long random behaviours of BTreeAlg, growing then shrinking, used to     *)
(* generate histories that reach deep trees for the larger orders.         *)
(* Run with -simulate; prints the history at regular points.               *)
(***************************************************************************)
EXTENDS BTreeAlg

CONSTANTS Period,   \* operations per phase
          Every     \* a history is printed every so many operations

Growing == (Len(hist) \div Period) % 2 = 0
Some1(S) == {RandomElement(S)}   \* bound by \E, so that it is drawn once

SimStart ==
  IF pc # "idle" THEN FALSE
  ELSE IF root = 0 THEN InsertFirst
  ELSE \E b \in Some1(1..10) :
       IF b <= (IF Growing THEN 8 ELSE 2)
       THEN \E n \in Some1({ x \in DOMAIN heap : Leafp(heap, x) }) : \E o \in Some1(0..Cnt(heap, n)) : InsertLeaf(n, o)
       ELSE \E n \in Some1(DOMAIN heap) : \E o \in Some1(0..(Cnt(heap, n) - 1)) :
              IF Leafp(heap, n) THEN RemoveFromLeaf(n, o) ELSE RemoveFromInner(n, o)

SimNext == SimStart \/ Rebalance
SimSpec == Init /\ [][SimNext]_vars

EmitSim == (pc = "idle" /\ Len(hist) > 0 /\ Len(hist) % Every = 0) => PrintT(ToJson([n |-> Len(seq), hist |-> hist]))
=============================================================================
