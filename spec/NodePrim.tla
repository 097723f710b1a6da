------------------------------ MODULE NodePrim ------------------------------
(***************************************************************************)
(* The public primitives of one node, as functions on node values          *)
(*    [p |-> parent or 0, i |-> items, c |-> children (<<>> for a leaf)].  *)
(* Offsets are 0-based as in the code.                                     *)
(***************************************************************************)
EXTENDS Views

PIns(s, o, x) == SubSeq(s, 1, o) \o <<x>> \o SubSeq(s, o + 1, Len(s))
PDel(s, o) == SubSeq(s, 1, o) \o SubSeq(s, o + 2, Len(s))
IsLeaf(nd) == nd.c = <<>>
Upd(nd, i2, c2) == [p |-> nd.p, i |-> i2, c |-> c2]
OptC(nd, c) == IF IsLeaf(nd) THEN <<>> ELSE <<c>>
Min1(m) == MinItems(m)

(***************************************************************************)
(* PrimOK(e, m): event e = [f, a (node before), b (node after), ...]       *)
(*    x item given, ch child given, o offset given, r result               *)
(***************************************************************************)
PrimOK(e, m) ==
  LET a == e.a
      n == Len(a.i)
      same == e.b = a
  IN CASE e.f = "insert" ->       \* at offset o; the child goes to the right of the item
            e.b = Upd(a, PIns(a.i, e.o, e.x), IF IsLeaf(a) THEN <<>> ELSE PIns(a.c, e.o + 1, e.ch))
       [] e.f = "push_left" ->
            e.b = Upd(a, <<e.x>> \o a.i, IF IsLeaf(a) THEN <<>> ELSE <<e.ch>> \o a.c)
       [] e.f = "push_right" ->
            /\ e.b = Upd(a, Append(a.i, e.x), IF IsLeaf(a) THEN <<>> ELSE Append(a.c, e.ch))
            /\ e.r = n
       [] e.f = "pop_left" ->     \* r = <<>> if refused, else <<item, child or 0>>
            IF n - 1 < Min1(m) THEN e.r = <<>> /\ same
            ELSE /\ e.r = <<Head(a.i), IF IsLeaf(a) THEN 0 ELSE Head(a.c)>>
                 /\ e.b = Upd(a, Tail(a.i), IF IsLeaf(a) THEN <<>> ELSE Tail(a.c))
       [] e.f = "pop_right" ->    \* r = <<>> if refused, else <<offset, item, child or 0>>
            IF n - 1 < Min1(m) THEN e.r = <<>> /\ same
            ELSE /\ e.r = <<n - 1, a.i[n], IF IsLeaf(a) THEN 0 ELSE a.c[n + 1]>>
                 /\ e.b = Upd(a, SubSeq(a.i, 1, n - 1), IF IsLeaf(a) THEN <<>> ELSE SubSeq(a.c, 1, n))
       [] e.f = "split" ->        \* of an overfull node; r = <<length, median, right node>>
            LET len == e.r[1]
                right == e.r[3]
            IN /\ len = Len(e.b.i)
               /\ e.b.i \o <<e.r[2]>> \o right.i = a.i
               /\ e.b.c \o right.c = a.c
               /\ ~IsLeaf(a) => Len(e.b.c) = len + 1
               /\ len >= Min1(m) /\ Len(right.i) >= Min1(m)
               /\ e.b.p = a.p
       [] e.f = "merge" ->        \* of the children o and o + 1; r = <<offset, left, right, separator, balance>>
            /\ e.r[1] = e.o /\ e.r[2] = a.c[e.o + 1] /\ e.r[3] = a.c[e.o + 2] /\ e.r[4] = a.i[e.o + 1]
            /\ e.b = Upd(a, PDel(a.i, e.o), PDel(a.c, e.o + 1))
            /\ e.r[5] = BalanceOf(FALSE, n - 1, m)
       [] e.f = "append" ->       \* of node y, after separator x; r = offset of the separator
            /\ e.r = n
            /\ e.b = Upd(a, a.i \o <<e.x>> \o e.y.i, a.c \o e.y.c)
       [] e.f = "leaf_remove" ->  \* r = <<1, item>>, <<2, left child>> or <<>>
            IF e.o < 0 \/ e.o >= n THEN e.r = <<>> /\ same
            ELSE IF IsLeaf(a) THEN e.r = <<1, a.i[e.o + 1]>> /\ e.b = Upd(a, PDel(a.i, e.o), <<>>)
            ELSE e.r = <<2, a.c[e.o + 1]>> /\ same
       [] e.f = "remove" ->       \* r = <<item>> for a leaf, <<left child, item, right child>> for an internal node
            IF IsLeaf(a) THEN e.r = <<a.i[e.o + 1]>> /\ e.b = Upd(a, PDel(a.i, e.o), <<>>)
            ELSE e.r = <<a.c[e.o + 1], a.i[e.o + 1], a.c[e.o + 2]>> /\ e.b = Upd(a, PDel(a.i, e.o), PDel(a.c, e.o + 1))
       [] e.f = "remove_last" ->
            e.r = <<a.i[n]>> /\ e.b = Upd(a, SubSeq(a.i, 1, n - 1), <<>>)
       [] e.f = "remove_rightmost_leaf" ->
            IF IsLeaf(a) THEN e.r = <<1, a.i[n]>> /\ e.b = Upd(a, SubSeq(a.i, 1, n - 1), <<>>)
            ELSE e.r = <<2, a.c[n + 1]>> /\ same
       [] e.f = "replace" ->
            e.r = a.i[e.o + 1] /\ e.b = Upd(a, [a.i EXCEPT ![e.o + 1] = e.x], a.c)
       [] e.f = "item_mut" ->     \* writes the value w
            IF e.o < 0 \/ e.o >= n THEN e.r = <<>> /\ same
            ELSE /\ e.r = <<a.i[e.o + 1]>>
                 /\ e.b = Upd(a, [a.i EXCEPT ![e.o + 1] = <<@[1], @[2], e.w>>], a.c)
       [] e.f = "get_mut" ->      \* by key, writes the value w; r = <<1, item>>, <<0, child>> or <<>>
            LET g == Smaller(a.i, e.k)
                hit == g < n /\ a.i[g + 1][1] = e.k
            IN IF hit THEN /\ e.r = <<1, a.i[g + 1]>>
                           /\ e.b = Upd(a, [a.i EXCEPT ![g + 1] = <<@[1], @[2], e.w>>], a.c)
               ELSE /\ e.r = IF IsLeaf(a) THEN <<>> ELSE <<0, a.c[g + 1]>>
                    /\ same
       [] e.f = "insert_by_key" ->  \* r = <<offset, replaced item or nothing>>, or <<-1, child offset, child, item>>
            LET g == Smaller(a.i, e.x[1])
                hit == g < n /\ a.i[g + 1][1] = e.x[1]
            IN IF hit THEN /\ e.r = <<g, <<a.i[g + 1]>> >>
                           /\ e.b = Upd(a, [a.i EXCEPT ![g + 1] = e.x], a.c)
               ELSE IF IsLeaf(a) THEN e.r = <<g, <<>> >> /\ e.b = Upd(a, PIns(a.i, g, e.x), <<>>)
               ELSE e.r = <<-1, g, a.c[g + 1], e.x>> /\ same
       [] e.f = "forget" ->       \* the items are gone without being dropped
            e.b.i = <<>>
       [] e.f = "set_parent" -> e.b = [a EXCEPT !.p = e.o]
       [] e.f = "new_leaf" -> e.b = [p |-> e.o, i |-> <<e.x>>, c |-> <<>>]
       [] e.f = "new_binary" -> e.b = [p |-> e.o, i |-> <<e.x>>, c |-> e.cs]
       [] e.f = "view" -> same /\ ViewOK(a, e.v, e.keys, e.ids, m)
       [] e.f = "drop" -> TRUE
       [] OTHER -> FALSE

\* Destructors that may run during a primitive: none, except when the node itself is dropped.
PrimDrops(e) == IF e.f = "drop" THEN { e.a.i[j][2] : j \in 1..Len(e.a.i) } ELSE {}
=============================================================================
