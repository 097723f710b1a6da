------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* The marks of Threads are right: whatever threads do that the marks      *)
(* allow, an item that may not be sent is only ever had to itself by the   *)
(* thread that made it, and an item that may not be shared is never within *)
(* reach of two threads.  And they are enough: if items may go anywhere,   *)
(* so may trees, borrows and iterators.                                    *)
(*                                                                         *)
(* One tree.  What a thread can hold of it: the tree (or the iterator that *)
(* owns it, or a node taken out), a mutable borrow (or mutable iterator),  *)
(* shared borrows, shared iterators; and an iterator half way, for which   *)
(* the rules are those of its kind.                                        *)
(***************************************************************************)
EXTENDS Threads
CONSTANTS T, Home

VARIABLES kind,      \* of the items
          own,       \* who owns the tree: <<thread, "tree" or "into">>
          mut,       \* who has borrowed it mutably: <<>> or <<thread, "ref" or "itermut">>
          refs,      \* who has borrowed it: a set of <<thread, "ref" or "iter">>
          toured     \* threads that have had the tree to themselves
vars == <<kind, own, mut, refs, toured>>

Init == /\ kind \in [send : BOOLEAN, sync : BOOLEAN]
        /\ own = <<Home, "tree">> /\ mut = <<>> /\ refs = {} /\ toured = {Home}

Lent == mut # <<>> \/ refs # {}
MoveOwner == \E u \in T : ~Lent /\ MayMove(own[2], kind) /\ own' = <<u, own[2]>> /\ toured' = toured \union {u}
                          /\ UNCHANGED <<kind, mut, refs>>
Consume == own[2] = "tree" /\ ~Lent /\ own' = <<own[1], "into">> /\ UNCHANGED <<kind, mut, refs, toured>>
Renew == own[2] = "into" /\ ~Lent /\ own' = <<Home, "tree">> /\ toured' = {Home} /\ UNCHANGED <<kind, mut, refs>>   \* another tree
\* &mut X may be moved when X may; &X when X may be shared.
LendMut == ~Lent /\ mut' = <<own[1], "ref">> /\ UNCHANGED <<kind, own, refs, toured>>
MutIter == mut # <<>> /\ own[2] = "tree" /\ mut' = <<mut[1], "itermut">> /\ UNCHANGED <<kind, own, refs, toured>>
MoveMut == \E u \in T : mut # <<>> /\ MayMove(IF mut[2] = "ref" THEN own[2] ELSE "itermut", kind) /\ mut' = <<u, mut[2]>>
                        /\ toured' = toured \union {u} /\ UNCHANGED <<kind, own, refs>>
Lend == mut = <<>> /\ refs' = refs \union {<<own[1], "ref">>} /\ UNCHANGED <<kind, own, mut, toured>>
ShareRef == \E x \in refs : \E u \in T : x[2] = "ref" /\ MayShare(own[2], kind) /\ refs' = refs \union {<<u, "ref">>}
                                        /\ UNCHANGED <<kind, own, mut, toured>>
Iterate == \E x \in refs : x[2] = "ref" /\ own[2] = "tree" /\ refs' = refs \union {<<x[1], "iter">>} /\ UNCHANGED <<kind, own, mut, toured>>
ShareIter == \E x \in refs : \E u \in T : x[2] = "iter" /\ (MayMove("iter", kind) \/ MayShare("iter", kind))
                                         /\ refs' = refs \union {<<u, "iter">>} /\ UNCHANGED <<kind, own, mut, toured>>
Return == \/ \E x \in refs : refs' = refs \ {x} /\ UNCHANGED <<kind, own, mut, toured>>
          \/ mut' = <<>> /\ UNCHANGED <<kind, own, refs, toured>>
Next == MoveOwner \/ Consume \/ Renew \/ LendMut \/ MutIter \/ MoveMut \/ Lend \/ ShareRef \/ Iterate \/ ShareIter \/ Return
Spec == Init /\ [][Next]_vars

\* Who can take items out or change them, and who can see them.
Exclusive == IF mut # <<>> THEN {mut[1]} ELSE IF refs = {} THEN {own[1]} ELSE {}
Seeing == IF refs # {} THEN { x[1] : x \in refs } ELSE Exclusive

StayHome == ~kind.send => Exclusive \subseteq {Home}
NotShared == ~kind.sync => Cardinality(Seeing) <= 1
OneWriter == mut # <<>> => refs = {}

\* The marks that the crate must grant, it may.
Types == Owning \union Sharing \union {"address"}
ASSUME \A t \in Types : \A k \in [send : BOOLEAN, sync : BOOLEAN] : MustMove(t, k) => MayMove(t, k)
ASSUME \A t \in Types : \A k \in [send : BOOLEAN, sync : BOOLEAN] : MustShare(t, k) => MayShare(t, k)
\* An item that may be sent but not shared: the tree moves, and is not shared.
Free == kind.send /\ kind.sync
Unreached == ~(Free /\ toured = T /\ Cardinality({ x[1] : x \in refs }) = Cardinality(T))   \* (to be violated)
=============================================================================
