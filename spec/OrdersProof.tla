---------------------------- MODULE OrdersProof ----------------------------
\* `tlapm OrdersProof.tla' proves it (23 obligations, seconds).
EXTENDS Orders, TLAPS

THEOREM Orders == \A m \in Order : Sound(m)
<1> TAKE m \in Order
<1> PICK h \in Nat, r \in {0, 1} : m = 2 * h + r /\ m \div 2 = h
  BY Z3 DEF Order
<1>1. h >= 2
  BY Z3 DEF Order
<1>2. Arms(m)
  BY <1>1, Z3 DEF Arms, Least
<1>3. ASSUME NEW leaf \in BOOLEAN PROVE SplitFits(m, leaf)
  BY <1>1, Z3 DEF SplitFits, Fits, Over, Under, Most, Least, Median
<1>4. ASSUME NEW leaf \in BOOLEAN, NEW k \in 0..m PROVE RotateFits(m, leaf, k)
  BY <1>1, Z3 DEF RotateFits, Would, Fits, Over, Under, Most, Least
<1>5. ASSUME NEW leaf \in BOOLEAN, NEW k \in 0..m PROVE MergeFits(m, leaf, k)
  BY <1>1, Z3 DEF MergeFits, Would, Fits, Over, Under, Most, Least
<1> QED
  BY <1>2, <1>3, <1>4, <1>5 DEF Sound
=============================================================================
