-------------------------------- MODULE Mass --------------------------------
(***************************************************************************)
(* Very large trees.  Their content is kept to an arithmetic progression,  *)
(* keys 10 * i for i in (a + 1)..(n - b): n keys inserted in any order,    *)
(* then the a least and the b greatest removed.  What every accessor must  *)
(* say follows from <<n, a, b>>, whatever the size, without writing the    *)
(* content down.  MassAgrees: the same answers as those of the sequence.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

Count(n, a, b) == n - a - b
At(n, a, b, i) == IF i \in 1..Count(n, a, b) THEN <<10 * (a + i)>> ELSE <<>>      \* the i-th item
Find(n, a, b, k) == IF k % 10 = 0 /\ k \div 10 \in (a + 1)..(n - b) THEN <<k>> ELSE <<>>
\* the distinct differences between neighbours
Gaps(c, d) == IF c <= 1 THEN <<>> ELSE <<d>>

\* A walk, described by the number of items met, the first and the last, and the distinct differences.
WalkOK(w, n, a, b, up) ==
  LET c == Count(n, a, b)
      x == At(n, a, b, 1)
      y == At(n, a, b, c)
  IN w = IF up THEN <<c, x, y, Gaps(c, 10)>> ELSE <<c, y, x, Gaps(c, -10)>>

MassOK(P) ==
  LET n == P.n
      a == P.a
      b == P.b
      c == Count(n, a, b)
      say(f) == f \in DOMAIN P
  IN /\ say("len") => P.len = c /\ P.e = (c = 0)
     /\ say("f") => P.f = At(n, a, b, 1) /\ P.fm = P.f
     /\ say("l") => P.l = At(n, a, b, c) /\ P.lm = P.l
     /\ say("up") => WalkOK(P.up, n, a, b, TRUE) /\ WalkOK(P.down, n, a, b, FALSE)
     \* an iterator after x steps from the front and y from the back
     /\ say("hints") => \A j \in 1..Len(P.hints) :
                          LET h == P.hints[j]
                              left == c - h[1] - h[2]
                          IN h[1] + h[2] <= c => h[3] = left /\ h[4] = left
                                                 /\ h[5] = (IF left = 0 THEN <<>> ELSE At(n, a, b, h[1] + 1))
     /\ say("nth") => \A j \in 1..Len(P.nth) :
                          /\ P.nth[j][2] = At(n, a, b, P.nth[j][1] + 1)
                          /\ P.nth[j][3] = At(n, a, b, c - P.nth[j][1])
     /\ say("gets") => \A j \in 1..Len(P.gets) : \A x \in 2..Len(P.gets[j]) : P.gets[j][x] = Find(n, a, b, P.gets[j][1])
     \* removals that led here took what they were told to take: the number, the first, the last, the differences
     /\ say("took") => P.took = <<a - P.a0, At(n, P.a0, 0, 1), At(n, P.a0, n - a, a - P.a0), Gaps(a - P.a0, 10)>>
     /\ say("tookb") => P.tookb = <<b - P.b0, <<10 * (n - P.b0)>>, <<10 * (n - b + 1)>>, Gaps(b - P.b0, -10)>>
     /\ say("valid") => P.valid
     /\ say("cl") => WalkOK(P.cl, n, a, b, TRUE) /\ P.cllen = c /\ P.clmade = <<c, c>>
     \* what was destroyed (how many, how many different): all but the x items handed out
     /\ say("d") => P.d = <<c - P.x, c - P.x>>
     /\ say("after") => P.after = <<0, TRUE, <<>>, 0>>        \* length, emptiness, first, count of a cleared tree
     /\ say("nodes") => P.nodes = 0 /\ P.nbad = 0             \* nodes left, misuses

(***************************************************************************)
(* The abstraction, against the sequence itself.                           *)
(***************************************************************************)
Stretch(n, a, b) == SubSeq([i \in 1..n |-> 10 * i], a + 1, n - b)
OptOf(s, i) == IF i \in 1..Len(s) THEN <<s[i]>> ELSE <<>>
MassAgrees ==
  \A n \in 0..8 : \A a \in 0..n : \A b \in 0..(n - a) :
    LET s == Stretch(n, a, b) IN
    /\ Count(n, a, b) = Len(s)
    /\ \A i \in 0..10 : At(n, a, b, i) = OptOf(s, i)
    /\ \A k \in 0..95 : Find(n, a, b, k) = IF k \in Range(s) THEN <<k>> ELSE <<>>
    /\ WalkOK(<<Len(s), OptOf(s, 1), OptOf(s, Len(s)), SetToSeq({ s[i + 1] - s[i] : i \in 1..(Len(s) - 1) })>>, n, a, b, TRUE)
ASSUME MassAgrees
=============================================================================
