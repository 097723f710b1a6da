------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Trees and threads.                                                      *)
(*                                                                         *)
(* 1. What may be handed to another thread or shared between threads.      *)
(*    Items are of a kind: [send, sync].  A type is marked [send, sync]    *)
(*    too; the marks must forbid enough (MayMove, MayShare; MCThreads      *)
(*    shows that this keeps every item where it may be) and, where items   *)
(*    may go anywhere, forbid nothing (MustMove, MustShare).               *)
(* 2. Executions in which trees are handed from thread to thread, read by  *)
(*    many threads at once and used while others are: each tree is as if   *)
(*    it were alone, and each reader as if it were the only one.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Owning == {"tree", "into", "itermut", "node", "leaf", "inner"}    \* give access to items, exclusive to who holds them
Sharing == {"iter", "seps"}                                       \* references that can be copied
\* (an address alone gives no access)

MayMove(type, k) == CASE type \in Owning -> k.send
                      [] type \in Sharing -> k.sync
                      [] OTHER -> TRUE
MayShare(type, k) == IF type \in Owning \union Sharing THEN k.sync ELSE TRUE
MustMove(type, k) == IF type \in Owning THEN k.send ELSE k.send /\ k.sync
MustShare(type, k) == IF type \in Owning THEN k.sync ELSE k.send /\ k.sync

\* A row: <<type, item may be sent, item may be shared, the same for the type>>.
MarkOK(row) ==
  LET k == [send |-> row[2] = 1, sync |-> row[3] = 1] IN
  /\ row[4] = 1 => MayMove(row[1], k)
  /\ row[5] = 1 => MayShare(row[1], k)
  /\ MustMove(row[1], k) => row[4] = 1
  /\ MustShare(row[1], k) => row[5] = 1

(***************************************************************************)
(* A tree is a sequence of <<key, value>>, ascending.                      *)
(***************************************************************************)
Less(c, k) == Cardinality({ j \in DOMAIN c : c[j][1] < k })
Find(c, k) == LET j == Less(c, k) + 1 IN IF j <= Len(c) /\ c[j][1] = k THEN <<c[j]>> ELSE <<>>
Pre(c, k) == SubSeq(c, 1, Less(c, k))
Post(c, k) == SubSeq(c, Less(c, k) + 1 + Len(Find(c, k)), Len(c))
Up(c) == [j \in DOMAIN c |-> <<c[j][1], c[j][2] + 10000>>]
From(c, n) == SubSeq(c, n + 1, Len(c))
Rev(c) == [j \in 1..Len(c) |-> c[Len(c) + 1 - j]]
\* Taken from both ends in turn.
Both(c) == [j \in 1..Len(c) |-> IF j % 2 = 1 THEN c[(j + 1) \div 2] ELSE c[Len(c) + 1 - (j \div 2)]]

\* One thing read: <<what, argument, items>>.
ReadOK(c, w) ==
  CASE w[1] = "get" -> w[3] = Find(c, w[2])
    [] w[1] \in {"all", "copy"} -> w[3] = c
    [] w[1] = "rev" -> w[3] = Rev(c)
    [] w[1] = "both" -> w[3] = Both(c)
    [] w[1] = "len" -> w[2] = (IF c = <<>> THEN -1 ELSE Len(c))
    [] w[1] = "ends" -> w[3] = (IF c = <<>> THEN <<>> ELSE <<c[1], c[Len(c)]>>)
    [] w[1] = "after" -> w[3] = SubSeq(c, Less(c, w[2]) + 1, IF Less(c, w[2]) < Len(c) THEN Less(c, w[2]) + 1 ELSE 0)
    [] w[1] = "front" -> w[3] = SubSeq(c, 1, IF w[2] < Len(c) THEN w[2] ELSE Len(c))
    [] w[1] = "rest" -> w[3] = From(c, w[2])
    [] OTHER -> FALSE

RowOK(c, row) ==
  LET op == row[1]   a == row[2]   b == row[3]   r == row[4]   d == row[5]   n == Len(c) IN
  CASE op \in {"put", "del"} -> r[1][3] = Find(c, a) /\ d = Len(Find(c, a))
    [] op = "read" -> (\A j \in DOMAIN r : ReadOK(c, r[j])) /\ d = b * n
    [] op = "write" -> a = n /\ d = 0
    [] op \in {"swap", "clear"} -> d = n
    [] op = "forget" -> d = 0
    [] op = "into" -> LET m == IF a + b > n THEN n - a ELSE b IN
                      r[1][3] = SubSeq(c, 1, a) /\ r[2][3] = SubSeq(Rev(c), 1, m) /\ d = n
    [] op = "drop" -> ReadOK(c, r[1]) /\ d = n
    [] OTHER -> FALSE

NextContent(c, row) ==
  CASE row[1] = "put" -> Pre(c, row[2]) \o <<<<row[2], row[3]>>>> \o Post(c, row[2])
    [] row[1] = "del" -> Pre(c, row[2]) \o Post(c, row[2])
    [] row[1] = "write" -> Up(c)
    [] row[1] \in {"clear", "forget", "into", "drop"} -> <<>>
    [] OTHER -> c

Grow == [ok |-> TRUE, c |-> <<>>]
HistoryOK(rows) ==
  LET end == FoldLeft(LAMBDA s, row : IF ~s.ok THEN s ELSE IF RowOK(s.c, row) THEN [ok |-> TRUE, c |-> NextContent(s.c, row)]
                                      ELSE [ok |-> FALSE, c |-> s.c], Grow, rows)
  IN end.ok /\ rows[Len(rows)][1] = "drop"

ThreadsOK(P) == IF P.op = "markers" THEN \A j \in DOMAIN P.rows : MarkOK(P.rows[j]) ELSE HistoryOK(P.rows)
=============================================================================
