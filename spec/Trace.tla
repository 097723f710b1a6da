-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions against RawBTree.                     *)
(*                                                                         *)
(* One line of the file named by TRACE is one session: the sequence of     *)
(* events recorded while the harness drove real trees.  Every event must   *)
(* be explained by the action of RawBTree of the same name, with the       *)
(* logged arguments and the logged result, and every observation attached  *)
(* to it (content, length, ends, structure, destroyed items, storage       *)
(* events, other trees) must agree with the state the action leads to.     *)
(* A session that cannot be explained to its end deadlocks.                *)
(***************************************************************************)
EXTENDS ItemArray, NodePrim, Values, NodeStore, Json, IOUtils

Massive == INSTANCE Mass
Unit == INSTANCE Units
Thread == INSTANCE Threads

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr,      \* session
          l,       \* next event
          shape,   \* [handle -> last observed tree value]
          store    \* [act |-> active node ids, reach |-> [handle -> ids of its nodes]]
tvars == <<trees, iters, own, out, tr, l, shape, store>>

Ev == Sessions[tr][l]
MM == Sessions[tr][1].m
Has(f) == f \in DOMAIN Ev

TraceInit ==
  /\ tr \in 1..Len(Sessions) /\ l = 2
  /\ SysInit /\ shape = <<>> /\ store = [act |-> {}, reach |-> <<>>]

(***************************************************************************)
(* Observations: conditions on the state after the action.                 *)
(***************************************************************************)
Put(f, k, v) == (k :> v) @@ f
EndOf(s, i) == IF s = <<>> THEN <<>> ELSE <<s[i]>>
Strictly == Sessions[tr][1].strict      \* whether structures must be balanced, beyond holding the content
TreeSays(t, s) == (IF Strictly THEN WellFormed(t, MM) ELSE Sane(t)) /\ Inorder(t) = s

\* The event just explained; the conditions on it that can be told from the state it led to are invariants (below),
\* which TLC evaluates much faster than conditions of actions.
P == Sessions[tr][l - 1]
Said(f) == f \in DOMAIN P

Result == Has("r") => out'.r = Ev.r
Drops == Has("d") => /\ Len(Ev.d) = Cardinality(out'.d)
                     /\ Range(Ev.d) = out'.d

\* Boxed nodes are only known by the blocks of memory allocated for them.
Boxed == Sessions[tr][1].tag = "box"
Reachable == UNION { Range(store'.reach[h]) : h \in DOMAIN store'.reach }
StoreFrom(reach, h) ==
  LET st == IF Has("g") THEN ApplyStore(store.act, Ev.g) ELSE [ok |-> TRUE, act |-> store.act]
      gone == h \notin DOMAIN trees' /\ \A it \in DOMAIN iters' : iters'[it].src # h \/ iters'[it].kind # "into"
  IN /\ st.ok
     /\ store' = [act |-> st.act,
                  reach |-> IF Has("ri") THEN Put(reach, h, Ev.ri)
                            ELSE IF gone THEN Restrict2(reach, {h}) ELSE reach]
     /\ Has("rbad") => Ev.rbad = FALSE
     /\ (Has("ri") \/ (Has("g") /\ gone)) => IF Boxed THEN store'.act \subseteq Reachable ELSE store'.act = Reachable
     /\ Has("ri") => Cardinality(Range(Ev.ri)) = Len(Ev.ri)

StoreAfter(h) == StoreFrom(store.reach, h)

ShapeAfter(h) ==
  shape' = IF Has("t") THEN Put(shape, h, Ev.t)
           ELSE IF h \in DOMAIN trees' /\ h \in DOMAIN trees /\ trees'[h] = trees[h] THEN shape
           ELSE Restrict2(shape, {h})

Step1(h) == Result /\ Drops /\ StoreAfter(h) /\ ShapeAfter(h)

ItStep(it) ==
  /\ Result /\ Drops
  /\ LET left == IF it \in DOMAIN iters' THEN Len(iters'[it].rem) ELSE 0 IN
     /\ Has("lo") => Ev.lo = left
     /\ Has("hi") => Ev.hi = left
     /\ Has("len") => Ev.len = left

(***************************************************************************)
(* Addresses in the last observed structure.                               *)
(***************************************************************************)
Known(h) == h \in DOMAIN shape
PosAt(h, a) == IF IsItemAddr(shape[h], a) THEN Gap(shape[h], a) + 1 ELSE 0

\* A returned removal address is where an insertion restores the old content.
RemovedFrom(g) == IF Ev.t = <<>> THEN Ev.ra = <<>>
                  ELSE Ev.ra # <<>> /\ IsBackAddr(Ev.t, Ev.ra) /\ Gap(Ev.t, Ev.ra) = g

PostContent == IF Has("s") THEN Ev.s ELSE Inorder(Ev.t)
PostOK == IF Has("s") THEN TRUE ELSE Has("t") /\ Sane(Ev.t)

(***************************************************************************)
(* One event.                                                              *)
(***************************************************************************)
H == Ev.h
\* "px": the call panicked although it should not have.

Pure == UNCHANGED <<trees, iters, own, out, shape, store>>

\* Events that are not about the live trees.
Detached == {"validate", "validate_below", "cost", "mass", "prim", "offpair", "offint", "off", "addr", "item", "pitem", "par", "units", "markers", "threads"}

Consume ==
  CASE Ev.op = "new" -> New(H) /\ Step1(H)
    [] Ev.op = "given" -> \* what became of the items of earlier trees no longer matters
                          /\ LET old == IF H \in DOMAIN trees THEN Ids(trees[H]) ELSE {}
                                 kept == { i \in DOMAIN own : own[i] \in {"tree", "iter"} } \ old
                             IN /\ Ids(Ev.s) \cap kept = {}
                                /\ own' = [i \in kept \union Ids(Ev.s) |-> IF i \in kept THEN own[i] ELSE "tree"]
                          /\ trees' = Put(trees, H, Ev.s)
                          /\ out' = [r |-> None, d |-> {}] /\ UNCHANGED iters
                          /\ shape' = Put(shape, H, Ev.t)
                          /\ store' = IF Has("ri")
                                      THEN [act |-> (store.act \ (IF H \in DOMAIN store.reach THEN Range(store.reach[H]) ELSE {}))
                                                     \union Range(Ev.ri),
                                            reach |-> Put(store.reach, H, Ev.ri)]
                                      ELSE store
    [] Ev.op = "insert" -> InsertKey(H, Ev.x) /\ Step1(H)
    [] Ev.op = "remove" -> RemoveKey(H, Ev.k) /\ Step1(H)
    [] Ev.op = "get" -> GetKey(H, Ev.k) /\ Step1(H)
    [] Ev.op = "gets" -> Readable(H) /\ (Has("d") => Ev.d = <<>>) /\ Pure
    [] Ev.op = "fresh" -> /\ trees[H] = <<>> /\ Ev.noroot /\ Ev.empty /\ Ev.size = 0 /\ Ev.nofirst /\ Ev.count = 0
                          /\ ReadAborted(H) /\ Step1(H)
    [] Ev.op = "getm" -> GetMutKey(H, Ev.k, Ev.w) /\ Step1(H)
    [] Ev.op = "insert_c" -> InsertIn(H, Ev.x, Ev.c) /\ Step1(H)
    [] Ev.op = "remove_c" -> RemoveIn(H, Ev.k, Ev.c) /\ Step1(H)
    [] Ev.op = "get_c" -> GetIn(H, Ev.k, Ev.c) /\ Step1(H)
    [] Ev.op = "getm_c" -> GetMutIn(H, Ev.k, Ev.c, Ev.w) /\ Step1(H)
    [] Ev.op = "addr_of_c" -> (Known(H) \/ Has("t")) /\ ReadAborted(H) /\ Step1(H)
    [] Ev.op = "firstm" -> WriteFirst(H, Ev.w) /\ Step1(H)
    [] Ev.op = "lastm" -> WriteLast(H, Ev.w) /\ Step1(H)
    [] Ev.op = "ends" -> ReadFirst(H) /\ Step1(H) /\ Ev.r2 = EndOf(trees[H], Len(trees[H]))
    [] Ev.op = "addr_of" -> Known(H) /\ ReadAborted(H) /\ Step1(H)
    [] Ev.op = "insert_lax" -> Free(H) /\ PostOK /\ (\E pc \in {PostContent} : InsertLax(H, Ev.x) /\ trees'[H] = pc) /\ Step1(H)
    [] Ev.op = "remove_lax" -> Free(H) /\ PostOK /\ (\E pc \in {PostContent} : RemoveLax(H) /\ trees'[H] = pc) /\ Step1(H)
    [] Ev.op = "get_lax" -> Readable(H) /\ ReadLax(H) /\ out'.r = Ev.r /\ Step1(H)
    [] Ev.op = "insert_p" -> InsertAborted(H, Ev.x) /\ Step1(H)
    [] Ev.op = "insert_f" -> /\ PostOK
                             /\ \E pc \in {PostContent} : InsertKeyCut(H, Ev.x, Range(Ev.d), pc)
                             /\ Step1(H)
    [] Ev.op \in {"insert_at_f", "insert_ex_f"} ->
         /\ Known(H) /\ PostOK
         /\ \E g \in {IF Ev.a = <<>> THEN 0 ELSE Gap(shape[H], Ev.a)} :
            \E pc \in {PostContent} : InsertCut(H, {g}, Ev.x, Range(Ev.d), pc)
         /\ Step1(H)
    [] Ev.op = "insert_refused" -> Known(H) /\ ~IsLeafAddr(shape[H], Ev.a) /\ InsertAborted(H, Ev.x) /\ Step1(H)
    [] Ev.op = "read_p" -> ReadAborted(H) /\ Step1(H)
    [] Ev.op \in {"insert_at", "insert_ex"} ->
         /\ Known(H)
         /\ IF Ev.a = <<>> THEN shape[H] = <<>> /\ InsertPos(H, 0, Ev.x)
            ELSE /\ IsBackAddr(shape[H], Ev.a) /\ (Ev.op = "insert_ex" => IsLeafAddr(shape[H], Ev.a))
                 /\ \E g \in {Gap(shape[H], Ev.a)} : InsertPos(H, g, Ev.x)
         /\ Step1(H)
    [] Ev.op = "remove_at" ->
         /\ Known(H) /\ ValidAddr(shape[H], Ev.a)
         /\ \E p \in {PosAt(H, Ev.a)} :
            /\ RemovePos(H, p) /\ Step1(H)
            /\ IF p = 0 THEN Ev.ra = <<>> ELSE RemovedFrom(p - 1)
    [] Ev.op = "replace_at" ->
         /\ Known(H) /\ IsItemAddr(shape[H], Ev.a) /\ (\E p \in {PosAt(H, Ev.a)} : ReplacePos(H, p, Ev.x)) /\ Step1(H)
         /\ Has("t") => Len(Ev.t) = Len(shape[H])
    [] Ev.op = "write_at" ->
         Known(H) /\ ValidAddr(shape[H], Ev.a) /\ (\E p \in {PosAt(H, Ev.a)} : WritePos(H, p, Ev.w)) /\ Step1(H)
    [] Ev.op = "nav" -> Known(H) /\ Pure
    \* several trees in one storage
    [] Ev.op = "build" -> Given(H, Ev.s) /\ Step1(H)
    [] Ev.op = "addr_below" -> Known(H) /\ ReadAborted(H) /\ Step1(H)
    [] Ev.op = "remove_end" -> RemovePos(H, Len(trees[H])) /\ Step1(H)
    [] Ev.op = "graft" ->
         /\ Known(H) /\ Known(Ev.h2) /\ Has("t")
         /\ \E g \in {IF Ev.a = <<>> THEN Len(trees[H]) ELSE Gap(shape[H], Ev.a)} : Graft(H, g, Ev.x, Ev.h2)
         /\ Result /\ Drops /\ StoreFrom(Restrict2(store.reach, {Ev.h2}), H)
         /\ shape' = Put(Restrict2(shape, {Ev.h2}), H, Ev.t)
    [] Ev.op = "burst" ->
         /\ Known(H) /\ shape[H][1].c # <<>>
         /\ \E ps \in {[j \in 1..Len(shape[H][1].i) |-> Gap(shape[H], <<1, j - 1>>) + 1]} : Burst(H, Ev.hs, ps)
         /\ Result /\ Drops
         /\ LET st == IF Has("g") THEN ApplyStore(store.act, Ev.g) ELSE [ok |-> TRUE, act |-> store.act]
                part(k) == CHOOSE j \in 1..Len(Ev.hs) : Ev.hs[j] = k
            IN /\ st.ok
               /\ shape' = [k \in (DOMAIN shape \ {H}) \union Range(Ev.hs) |->
                             IF k \in Range(Ev.hs) THEN Ev.ts[part(k)] ELSE shape[k]]
               /\ IF Has("ris")
                  THEN /\ store' = [act |-> st.act,
                                    reach |-> [k \in (DOMAIN store.reach \ {H}) \union Range(Ev.hs) |->
                                                IF k \in Range(Ev.hs) THEN Ev.ris[part(k)] ELSE store.reach[k]]]
                       /\ IF Boxed THEN store'.act \subseteq Reachable ELSE store'.act = Reachable
                  ELSE UNCHANGED store
    [] Ev.op \in {"clone", "clone_into"} ->
         /\ Live(H)
         \* each item was cloned exactly once
         /\ Len(Ev.cl) = Len(trees[H])
         /\ LET of(i) == { j \in 1..Len(Ev.cl) : Ev.cl[j][1] = Id(trees[H][i]) }
            IN /\ (\A i \in 1..Len(trees[H]) : Cardinality(of(i)) = 1) = TRUE
               /\ \E new \in {[i \in 1..Len(trees[H]) |-> Ev.cl[CHOOSE j \in of(i) : TRUE][2]]} :
                    IF Ev.op = "clone" THEN Clone(H, Ev.h2, new) ELSE CloneInto(H, Ev.h2, new)
         /\ Step1(Ev.h2)
    [] Ev.op = "clone_p" -> CloneAborted(H, Range(Ev.made), IF Has("d") THEN Range(Ev.d) ELSE {}) /\ Step1(H)
    [] Ev.op = "clone_into_p" -> /\ PostOK /\ (\E pc \in {PostContent} : CloneIntoAborted(H, Ev.h2, Range(Ev.made), Range(Ev.d), pc))
                                 /\ Step1(Ev.h2)
    [] Ev.op = "clear" -> Clear(H) /\ Step1(H)
    [] Ev.op = "forget" -> Forget(H) /\ Step1(H)
    [] Ev.op = "drop" -> DropTree(H) /\ Step1(H)
    [] Ev.op = "clear_p" -> PostOK /\ (\E pc \in {PostContent} : ClearAborted(H, Range(Ev.d), pc)) /\ Step1(H)
    [] Ev.op = "drop_p" -> DropAborted(H, Range(Ev.d)) /\ Step1(H)
    [] Ev.op = "iter" ->
         /\ Iter(H, Ev.it, Ev.kind) /\ ItStep(Ev.it)
         /\ Has("g") => ApplyStore(store.act, Ev.g) = [ok |-> TRUE, act |-> store.act]   \* consuming a tree moves no node
         /\ UNCHANGED <<shape, store>>
    [] Ev.op = "copy" -> IterCopy(Ev.it, Ev.it2) /\ ItStep(Ev.it2) /\ UNCHANGED <<shape, store>>
    [] Ev.op \in {"next", "back"} ->
         /\ Step(Ev.it, Ev.op = "next", IF Has("w") THEN Ev.w ELSE 0) /\ ItStep(Ev.it)
         /\ Has("g") => ApplyStore(store.act, Ev.g) = [ok |-> TRUE, act |-> store.act]
         /\ shape' = IF iters[Ev.it].kind = "mut" THEN Restrict2(shape, {iters[Ev.it].src}) ELSE shape   \* written to
         /\ UNCHANGED store
    [] Ev.op = "bulk" ->
         /\ Bulk(Ev.it, Ev.how, Ev.k, Ev.w) /\ ItStep(Ev.it) /\ out'.num = Ev.num
         /\ IF iters[Ev.it].kind = "into" /\ Ev.it \notin DOMAIN iters'
            THEN StoreAfter(iters[Ev.it].src)
            ELSE /\ Has("g") => ApplyStore(store.act, Ev.g) = [ok |-> TRUE, act |-> store.act]
                 /\ UNCHANGED store
         /\ shape' = IF iters[Ev.it].kind = "mut" THEN Restrict2(shape, {iters[Ev.it].src}) ELSE shape
    [] Ev.op = "ileak" ->
         /\ IterLeak(Ev.it)
         /\ store' = IF iters[Ev.it].kind = "into" /\ Ev.h \in DOMAIN store.reach
                     THEN [act |-> store.act \ Range(store.reach[Ev.h]), reach |-> Restrict2(store.reach, {Ev.h})]
                     ELSE store
         /\ UNCHANGED shape
    [] Ev.op = "late" -> LateWrite(H, Ev.i, Ev.w) /\ shape' = Restrict2(shape, {H}) /\ UNCHANGED store
    [] Ev.op = "idrop" ->
         /\ IterDrop(Ev.it) /\ ItStep(Ev.it)
         /\ IF iters[Ev.it].kind = "into" THEN Step1(iters[Ev.it].src) ELSE UNCHANGED <<shape, store>>
    [] Ev.op = "idrop_p" -> IterDropAborted(Ev.it, Range(Ev.d)) /\ Drops /\ Step1(iters[Ev.it].src)
    \* item arrays
    [] Ev.op = "a_given" -> Given(H, Ev.s) /\ Step1(H)
    [] Ev.op = "a_push" -> APush(H, Ev.x, MM + 1, Ev.pk) /\ Step1(H)
    [] Ev.op = "a_insert" -> AInsert(H, Ev.i, Ev.x, MM + 1, Ev.pk) /\ Step1(H)
    [] Ev.op = "a_pop" -> APop(H) /\ Step1(H)
    [] Ev.op = "a_remove" -> ARemove(H, Ev.i) /\ Step1(H)
    [] Ev.op = "a_append" -> AAppend(H, Ev.h2, MM + 1, Ev.pk) /\ Step1(H)
    [] Ev.op = "a_extend" -> AExtend(H, Ev.xs, MM + 1, Ev.pk) /\ Step1(H)
    [] Ev.op = "a_extend_p" -> PostOK /\ (\E pc \in {PostContent} : AExtendAborted(H, Ev.xs, Range(Ev.d), pc)) /\ Step1(H)
    [] Ev.op = "a_collect" -> ACollect(H, Ev.xs, MM + 1, Ev.pk) /\ Step1(H)
    [] Ev.op = "a_parts" -> AParts(H) /\ Ev.num = Len(trees[H]) /\ Step1(H)
    [] Ev.op = "a_write" -> (IF Ev.i < Len(trees[H]) THEN WritePos(H, Ev.i + 1, Ev.w) ELSE ReadAborted(H)) /\ Step1(H)
    [] Ev.op = "a_drain" -> /\ IF Ev.pk THEN ADrainRefused(H, Ev.lo1, Ev.hi1)
                               ELSE IF Ev.lo1 > Ev.hi1 \/ Ev.hi1 > Len(trees[H]) THEN ADrainNone(H, Ev.it, Ev.lo1, Ev.hi1)
                               ELSE ADrain(H, Ev.it, Ev.lo1, Ev.hi1)
                            /\ ItStep(Ev.it) /\ UNCHANGED <<shape, store>>
    [] Ev.op = "a_dleak" -> ADrainLeak(Ev.it, Ev.s) /\ Step1(H)
    [] Ev.op = "a_ddrop_p" -> ADrainAborted(Ev.it, Range(Ev.d), Ev.s) /\ Drops /\ Step1(H)
    [] Ev.op = "noop" -> ReadAborted(H) /\ Step1(H)
    \* views of the last observed structure, values, nodes: see Told
    [] Ev.op \in {"visit", "visit_below", "visit_cut", "views", "dot", "dotcut"} -> Known(H) /\ ReadAborted(H) /\ Step1(H)
    [] Ev.op \in Detached -> Pure
    [] Ev.op = "end" -> Pure
    [] OTHER -> FALSE

TraceNext ==
  \/ /\ l <= Len(Sessions[tr])
     /\ ~Has("px")
     /\ Consume
     /\ l' = l + 1 /\ UNCHANGED tr
  \/ l = Len(Sessions[tr]) + 1 /\ UNCHANGED tvars      \* explained to the end

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(***************************************************************************)
(* What the event said about the state it led to.                          *)
(***************************************************************************)
PH == IF P.op \in {"clone", "clone_into", "clone_into_p"} THEN P.h2 ELSE P.h

\* The tree operated upon.
Observed ==
  Said("h") /\ PH \in DOMAIN trees =>
    LET s == trees[PH] IN
    /\ Said("n") => P.n = Len(s)
    /\ Said("e") => P.e = (s = <<>>)
    /\ Said("f") => P.f = EndOf(s, 1) /\ P.fm = P.f
    /\ Said("l") => P.l = EndOf(s, Len(s)) /\ P.lm = P.l
    /\ Said("s") => P.s = s
    /\ Said("s2") => P.s2 = s
    /\ Said("sd") => P.sd = s
    /\ Said("ok") => P.ok = Sorted(s)      \* the validator's verdict on a tree that is balanced
    /\ Said("t") => TreeSays(P.t, s)

\* The other trees keep their content, and their structure.
OthersSame ==
  Said("o") => \A j \in 1..Len(P.o) :
                 LET k == P.o[j][1]
                     t == P.o[j][2]
                 IN k # PH => /\ k \in DOMAIN trees
                              /\ IF Known(k) THEN t = shape[k] ELSE TreeSays(t, trees[k])

\* A returned insertion address designates the new item in the new structure.
InsertedAt == P.op \in {"insert_at", "insert_ex", "graft"} /\ Said("ra") /\ Said("t") => IsItemAddr(P.t, P.ra) /\ ItemAt(P.t, P.ra) = P.x

\* What read-only calls said.
Told ==
  CASE P.op = "given" -> Said("ks") => P.ks = [i \in 1..Len(P.s) |-> P.s[i][1]]      \* what its history left
    [] P.op = "nav" -> NavOK(shape[P.h], P.tab) /\ P.fst = FirstItemAddr(shape[P.h])
    [] P.op = "gets" -> /\ Len(P.ks) = Len(P.rs)
                        /\ \A j \in 1..Len(P.ks) : P.rs[j] = LET q == PosOf(trees[P.h], P.ks[j]) IN
                                                             IF q = 0 THEN None ELSE Some(trees[P.h][q])
    [] P.op = "addr_of" -> SearchOK(shape[P.h], P.k, P.hit, P.a)
    [] P.op = "burst" -> /\ Len(P.ts) = Len(P.hs)
                         /\ \A j \in 1..Len(P.hs) : TreeSays(P.ts[j], trees[P.hs[j]])
    [] P.op = "addr_below" -> \A j \in 1..Len(P.rows) : SearchBelowOK(shape[P.h], P.rows[j])
    [] P.op = "addr_of_c" -> SearchInOK(shape[P.h], P.k, P.c, P.hit, P.a, Class)
    [] P.op = "visit" -> VisitOK(shape[P.h], P.ord) /\ VisitMutOK(shape[P.h], P.mut)
    [] P.op = "visit_below" -> /\ Len(P.subs) = Len(shape[P.h])
                               /\ \A n \in 1..Len(P.subs) : SubVisitOK(shape[P.h], n, P.subs[n])
    [] P.op = "visit_cut" -> \A j \in 1..Len(P.rows) : VisitCutOK(shape[P.h], P.rows[j])
    [] P.op = "views" -> /\ Len(P.vs) = Len(shape[P.h])
                         /\ Len(P.eqs) = Len(P.vs) /\ \A j \in 1..Len(P.eqs) : IdentOK(j, P.eqs[j])
                         /\ Len(P.ms) = Len(P.vs) /\ \A j \in 1..Len(P.ms) : ViewMutOK(shape[P.h][j], P.ms[j], P.keys)
                         /\ LET all == [x \in 1..Len(shape[P.h]) |-> x] IN
                            \A j \in 1..Len(P.vs) : ViewOK(shape[P.h][j], P.vs[j], P.keys, all, MM)
    [] P.op = "dot" -> DotOK(shape[P.h], P.st)
    [] P.op = "dotcut" -> DotCutOK(P.size, P.cuts)
    \* a structure of any kind, and the verdict of the validator on it
    [] P.op = "validate" -> P.ok = Validates(P.t, MM)
    [] P.op = "validate_below" -> \A j \in 1..Len(P.rows) : ValidateRowOK(P.t, P.rows[j], MM)
    [] P.op = "cost" -> CostOK(P.calls, P.ht, MM) /\ HeightOK(P.ht, P.sz, MM)
    [] P.op = "units" -> Unit!UnitsOK(P)
    [] P.op \in {"markers", "threads"} -> Thread!ThreadsOK(P)
    [] P.op = "mass" -> Massive!MassOK(P)
    \* values and nodes
    [] P.op = "prim" -> PrimOK(P, MM) /\ Len(P.d) = Cardinality(PrimDrops(P)) /\ Range(P.d) = PrimDrops(P)
    [] P.op = "offpair" -> OffsetPairOK(P)
    [] P.op = "offint" -> OffsetIntOK(P)
    [] P.op = "off" -> OffsetOK(P)
    [] P.op = "addr" -> AddressOK(P)
    [] P.op = "item" -> ItemOK(P)
    [] P.op = "pitem" -> PItemOK(P)
    \* the same event recorded over several storages
    [] P.op = "par" -> \A j \in 1..Len(P.evs) : P.evs[j] = P.evs[1]
    [] OTHER -> TRUE

Observation == l > 2 => (IF P.op \in Detached THEN TRUE ELSE Observed /\ OthersSame /\ InsertedAt) /\ Told

\* The invariants of the design hold along the real executions too.
DesignInv == Linear /\ Borrows

\* Of recordings altered on purpose: none may be explained to its end.
NotExplained == l <= Len(Sessions[tr]) \/ ~Observation

\* What is shown of a rejected session.
Where == [session |-> tr, event |-> l]
=============================================================================
