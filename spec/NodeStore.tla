------------------------------ MODULE NodeStore ------------------------------
(***************************************************************************)
(* The contract between the tree and a node storage.                       *)
(* A store is the set of active identifiers; an identifier becomes active  *)
(* when it is allocated, and inactive when it is released, dropped by a    *)
(* dropper, or destroyed with a storage that needs no dropper.             *)
(*                                                                         *)
(* Events are <<code, id>>:                                                *)
(*   1 allocate   2 release   3 dropped through a dropper                  *)
(*   4 access (read, write, release, drop) through an inactive identifier  *)
(*   7 destroyed with its storage   8 left behind by a destroyed storage   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

StoreStep(st, ev) ==   \* st = [ok, act]
  LET c == ev[1]
      n == ev[2]
  IN CASE c = 1 -> [ok |-> st.ok /\ n \notin st.act, act |-> st.act \union {n}]
       [] c \in {2, 3, 7} -> [ok |-> st.ok /\ n \in st.act, act |-> st.act \ {n}]
       [] c = 8 -> [ok |-> st.ok /\ n \in st.act, act |-> st.act]     \* stays active for ever: a leak
       [] OTHER -> [ok |-> FALSE, act |-> st.act]
ApplyStore(act, evs) == FoldLeft(StoreStep, [ok |-> TRUE, act |-> act], evs)
=============================================================================
