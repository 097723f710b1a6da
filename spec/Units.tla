-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Containers of items that cannot be told from each other: all there is   *)
(* to say is how many they hold, how many are handed out and how many are  *)
(* destroyed.  This is the image of RawBTree (and ItemArray) under         *)
(* counting; it is what remains to be checked for items without size, or   *)
(* of another size and alignment than those of the other families.         *)
(*                                                                         *)
(* A row: <<operation, a, b, result, length, items seen forwards, items    *)
(* seen backwards, destroyed>>, what was handed out being destroyed by the *)
(* caller within the row.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Least(x, y) == IF x < y THEN x ELSE y
Gives(n, r, d) == [n |-> n, r |-> r, d |-> d]

After(n, op, a, b) ==
  CASE op = "given" -> Gives(a, 0, 0)
    [] op = "add" -> Gives(n + 1, 0, 0)
    [] op = "put" -> IF n = 0 THEN Gives(1, 0, 0) ELSE Gives(n, 1, 1)      \* under an order where all are equal
    [] op = "del" -> IF n = 0 THEN Gives(0, 0, 0) ELSE Gives(n - 1, 1, 1)
    [] op = "take" -> Gives(n - 1, 1, 1)
    [] op = "get" -> Gives(n, IF n = 0 THEN 0 ELSE 1, 0)
    [] op = "clone" -> Gives(n, n, n)                                      \* the copy is dropped
    [] op = "clear" -> Gives(0, 0, n)
    [] op = "forget" -> Gives(0, 0, 0)
    [] op = "into" -> Gives(0, Least(a, n), n)
    [] op = "drain" -> Gives(n - (b - a), b - a, b - a)
    [] op = "extend" -> Gives(n + a, 0, 0)
    [] op = "drop" -> Gives(0, n, n)

RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(rows, counted, j, n) ==
  IF j > Len(rows) THEN n = 0
  ELSE LET row == rows[j]
           s == After(n, row[1], row[2], row[3])
       IN /\ row[4] = s.r
          /\ row[5] = s.n /\ row[6] = s.n /\ row[7] = s.n
          /\ counted => row[8] = s.d
          /\ RunsFrom(rows, counted, j + 1, s.n)

UnitsOK(P) == RunsFrom(P.rows, P.counted, 1, 0)
=============================================================================
