------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* The arithmetic of nodes, for every order: when a node fits, and that    *)
(* splits, rotations and merges of nodes that are off by one item make     *)
(* nodes that fit.  It is what the rest of the specification, which TLC    *)
(* checks for a few orders only, takes from the order.  `OrdersProof'      *)
(* proves `Sound' for all of them; TLC evaluates it for the first few      *)
(* hundred (mc_orders.cfg); BTreeAlg checks that its transitions use this  *)
(* arithmetic, and that its nodes are never off by more than one item.     *)
(***************************************************************************)
EXTENDS Integers

Order == { m \in Nat : m >= 4 }

Least(m) == m \div 2 - 1                     \* items of a node other than the root, at least
Most(m, leaf) == IF leaf THEN m ELSE m - 1   \* at most
Over(m, leaf, k) == k > Most(m, leaf)
Under(m, k) == k < Least(m)
Fits(m, leaf, k) == ~Over(m, leaf, k) /\ ~Under(m, k)
Would(m, k) == k < m \div 2                  \* gives nothing away
Median(k) == (k - 1) \div 2

\* A node that overflows, by the one item more that an insertion brings, is split into two that fit.
SplitFits(m, leaf) ==
  LET k == Most(m, leaf) + 1 IN
  /\ Fits(m, leaf, Median(k)) /\ Fits(m, leaf, k - Median(k) - 1)
  /\ Median(k) >= 1                          \* an inner node keeps a separator

\* A node that underflows lacks one item.  A neighbour that can give one still fits, and so does the node.
RotateFits(m, leaf, k) ==
  ~Would(m, k) /\ ~Over(m, leaf, k) => Fits(m, leaf, k - 1) /\ Fits(m, leaf, Least(m) - 1 + 1)

\* With a neighbour that cannot, it makes one node that fits, separator included.
MergeFits(m, leaf, k) ==
  Would(m, k) /\ ~Under(m, k) => Fits(m, leaf, (Least(m) - 1) + k + 1)

\* A merge in an inner node that fits leaves it one item less: it fits or lacks one; an emptied root is no longer needed.
\* The least inner node has two children.
Arms(m) == Least(m) >= 1

Sound(m) ==
  /\ Arms(m)
  /\ \A leaf \in BOOLEAN : SplitFits(m, leaf) /\ \A k \in 0..m : RotateFits(m, leaf, k) /\ MergeFits(m, leaf, k)
=============================================================================
