------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* The representation of offsets by machine words, the greatest of which   *)
(* stands for "before": transcribed from the code and checked to agree     *)
(* with the reading of Values (the integers from -1).  Words have 2^B      *)
(* values here.  Two offsets, so that all pairs are compared; and items,   *)
(* whose comparison is checked to be a total preorder by key.              *)
(***************************************************************************)
EXTENDS Values, FiniteSets
CONSTANT W                       \* the greatest word

VARIABLES x, y,                  \* two offsets, as words
          n, m                   \* the integers they stand for
vars == <<x, y, n, m>>

\* The code.
BeforeR == W
IsBeforeR(a) == a = W
CmpR(a, b) ==
  IF a = W \/ b = W
  THEN IF a = W /\ b = W THEN 0 ELSE IF a = W THEN -1 ELSE 1
  ELSE Ord(a, b)
EqIntR(a, i) == a # W /\ a = i
CmpIntR(a, i) == IF a = W THEN -1 ELSE Ord(a, i)
IncrR(a) == IF a = W THEN 0 ELSE a + 1
DecrR(a) == IF a = 0 THEN W ELSE a - 1
DisplayR(a) == IF a = W THEN "-1" ELSE ToString(a)

Init == x = BeforeR /\ y = BeforeR /\ n = -1 /\ m = -1
\* the greatest offset is not stepped beyond (debug builds panic)
Next ==
  \/ n < W - 1 /\ x' = IncrR(x) /\ n' = n + 1 /\ UNCHANGED <<y, m>>
  \/ m < W - 1 /\ y' = IncrR(y) /\ m' = m + 1 /\ UNCHANGED <<x, n>>
  \/ n > -1 /\ x' = DecrR(x) /\ n' = n - 1 /\ UNCHANGED <<y, m>>
  \/ m > -1 /\ y' = DecrR(y) /\ m' = m - 1 /\ UNCHANGED <<x, n>>
  \/ n >= 0 /\ x' = x /\ y' = x /\ n' = n /\ m' = n          \* conversion there and back
Spec == Init /\ [][Next]_vars

Reads == /\ IsBeforeR(x) <=> n = -1
         /\ n >= 0 => x = n
         /\ DisplayR(x) = ToString(n)
\* What the harness would record of these two offsets satisfies Values.
Pairs ==
  LET r == [a |-> n, b |-> m, cmp |-> CmpR(x, y), pcmp |-> <<CmpR(x, y)>>,
            eq |-> Bool(x = y), ne |-> Bool(x # y),
            rel |-> <<Bool(CmpR(x, y) < 0), Bool(CmpR(x, y) <= 0), Bool(CmpR(x, y) > 0), Bool(CmpR(x, y) >= 0)>>,
            max |-> IF CmpR(x, y) > 0 THEN n ELSE m, min |-> IF CmpR(x, y) > 0 THEN m ELSE n,
            mid |-> 1, clamp |-> (LET l == IF CmpR(x, y) > 0 THEN y ELSE x  h == IF CmpR(x, y) > 0 THEN x ELSE y
                                      v == IF CmpR(1, l) < 0 THEN l ELSE IF CmpR(1, h) > 0 THEN h ELSE 1 IN IF v = W THEN -1 ELSE v),
            hash |-> Bool(x = y), int |-> m >= 0,
            ieq |-> Bool(EqIntR(x, m)), ine |-> Bool(~EqIntR(x, m)), ipcmp |-> <<CmpIntR(x, m)>>,
            irel |-> <<Bool(CmpIntR(x, m) < 0), Bool(CmpIntR(x, m) <= 0), Bool(CmpIntR(x, m) > 0), Bool(CmpIntR(x, m) >= 0)>>]
  IN OffsetPairOK(r)
\* The greatest word, as a plain integer, is above every offset.
Above == CmpIntR(x, W) = -1 /\ ~EqIntR(x, W)

(***************************************************************************)
(* Items: comparing keys first and values never.                           *)
(***************************************************************************)
Items == (0..2) \X (0..1)
CmpI(a, b) == Ord(a[1], b[1])
ASSUME \A a, b \in Items : /\ CmpI(a, b) = -CmpI(b, a)
                           /\ (CmpI(a, b) = 0) <=> (a[1] = b[1])
                           /\ \A c \in Items : CmpI(a, b) <= 0 /\ CmpI(b, c) <= 0 => CmpI(a, c) <= 0
\* Inserting items one by one, the value last given to a key is found: a set of items, one for each key, is a map.
Put(s, it) == { b \in s : CmpI(b, it) # 0 } \cup {it}
ASSUME \A s \in SUBSET Items : (\A a, b \in s : CmpI(a, b) = 0 => a = b) =>
         \A it \in Items : /\ Cardinality({ b \in Put(s, it) : CmpI(b, it) = 0 }) = 1
                           /\ \A k \in 0..2 : { b[2] : b \in { c \in Put(s, it) : c[1] = k } } =
                                 IF k = it[1] THEN {it[2]} ELSE { b[2] : b \in { c \in s : c[1] = k } }
=============================================================================
