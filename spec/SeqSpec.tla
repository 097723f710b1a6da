------------------------------- MODULE SeqSpec -------------------------------
(* What a tree is to a user of positions: a sequence, one change at a time. *)
EXTENDS Naturals, Sequences
VARIABLE content
Insert == \E g \in 0..Len(content) : \E x \in {Len(content')} :
             /\ Len(content') = Len(content) + 1
             /\ SubSeq(content', 1, g) = SubSeq(content, 1, g)
             /\ SubSeq(content', g + 2, Len(content')) = SubSeq(content, g + 1, Len(content))
Remove == \E g \in 0..(Len(content) - 1) :
             /\ Len(content') = Len(content) - 1
             /\ SubSeq(content', 1, g) = SubSeq(content, 1, g)
             /\ SubSeq(content', g + 1, Len(content')) = SubSeq(content, g + 2, Len(content))
Spec == content = <<>> /\ [][Insert \/ Remove]_content
=============================================================================
