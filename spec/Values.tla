------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Offsets are the integers from -1; addresses are pairs; items compare    *)
(* by key.  The harness logs tables over sample values; large offsets are  *)
(* represented by their rank in the ascending list of samples.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Ord(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Bool(b) == IF b THEN 1 ELSE 0

\* An offset and a plain integer, which may exceed every offset (b is then a rank beyond the samples).
OffsetIntOK(r) ==
  /\ r.ieq = Bool(r.a = r.b) /\ r.ine = Bool(r.a # r.b)
  /\ r.ipcmp = <<Ord(r.a, r.b)>>
  /\ r.irel = <<Bool(r.a < r.b), Bool(r.a <= r.b), Bool(r.a > r.b), Bool(r.a >= r.b)>>

\* r: one pair of samples; a, b their ranks; ab, bb whether they are the before offset.
OffsetPairOK(r) ==
  /\ r.cmp = Ord(r.a, r.b)
  /\ r.pcmp = <<Ord(r.a, r.b)>>
  /\ r.eq = Bool(r.a = r.b) /\ r.ne = Bool(r.a # r.b)
  /\ r.rel = <<Bool(r.a < r.b), Bool(r.a <= r.b), Bool(r.a > r.b), Bool(r.a >= r.b)>>
  /\ r.max = (IF r.a > r.b THEN r.a ELSE r.b) /\ r.min = (IF r.a < r.b THEN r.a ELSE r.b)
  /\ r.clamp = (IF r.mid < r.min THEN r.min ELSE IF r.mid > r.max THEN r.max ELSE r.mid)
  /\ r.hash = 1 \/ r.a # r.b                      \* equal offsets hash equally
  \* with a plain integer (b is not the before offset)
  /\ r.int => OffsetIntOK(r)

\* r: one sample; a its rank (1 = the before offset), n the number of samples, dec its decimal representation.
\* up/down: whether the next/previous sample is adjacent to it.
OffsetOK(r) ==
  /\ r.before = Bool(r.a = 1)
  /\ r.value = IF r.a = 1 THEN <<>> ELSE <<r.a>>        \* rank of value()
  /\ r.unwrap = IF r.a = 1 THEN <<>> ELSE <<r.a>>       \* <<>>: panics
  /\ r.from = r.a
  /\ r.disp = r.dec /\ r.dbg = r.dec
  /\ r.up => r.incr = r.a + 1
  /\ r.down => r.decr = r.a - 1

\* Two addresses <<node, offset>>.
AddressOK(r) ==
  /\ r.eq = Bool(r.a = r.b) /\ r.ne = Bool(r.a # r.b)
  /\ r.disp = "@" \o ToString(r.a[1]) \o ":" \o ToString(r.a[2])
  /\ r.dbg = "@" \o ToString(r.a[1]) \o ":" \o ToString(r.a[2])
  /\ r.node = r.a[1] /\ r.off = r.a[2]

\* Two items <<key, value>>.
ItemOK(r) ==
  /\ r.eq = Bool(r.a[1] = r.b[1]) /\ r.ne = Bool(r.a[1] # r.b[1])
  /\ r.cmp = Ord(r.a[1], r.b[1]) /\ r.pcmp = <<Ord(r.a[1], r.b[1])>>
  /\ r.rel = <<Bool(r.a[1] < r.b[1]), Bool(r.a[1] <= r.b[1]), Bool(r.a[1] > r.b[1]), Bool(r.a[1] >= r.b[1])>>
  /\ r.max = (IF r.a[1] > r.b[1] THEN 1 ELSE IF r.a[1] < r.b[1] THEN 2 ELSE r.max)
  /\ r.min = (IF r.a[1] < r.b[1] THEN 1 ELSE IF r.a[1] > r.b[1] THEN 2 ELSE r.min)
  \* item <<1, 77>> between the two
  /\ LET l == IF r.a[1] < r.b[1] THEN r.a[1] ELSE r.b[1]
         h == IF r.a[1] < r.b[1] THEN r.b[1] ELSE r.a[1] IN
     r.clamp[1] = (IF 1 < l THEN l ELSE IF 1 > h THEN h ELSE 1)
  /\ r.kcmp = Ord(r.a[1], r.b[1])
  /\ r.pair = r.a /\ r.into = r.a /\ r.clone = r.a /\ r.field = r.a /\ r.asref = r.a
  /\ r.disp = "(" \o ToString(r.a[1]) \o ", " \o ToString(r.a[2]) \o ")"
\* Partially ordered keys (floats with NaN): rank 0 stands for the incomparable key.
PItemOK(r) ==
  LET inc == r.a = 0 \/ r.b = 0 IN
  /\ r.eq = Bool(~inc /\ r.a = r.b) /\ r.ne = 1 - r.eq
  /\ r.rel = IF inc THEN <<0, 0, 0, 0>>
             ELSE <<Bool(r.a < r.b), Bool(r.a <= r.b), Bool(r.a > r.b), Bool(r.a >= r.b)>>
  /\ r.pcmp = IF inc THEN <<>> ELSE <<Ord(r.a, r.b)>>
=============================================================================
