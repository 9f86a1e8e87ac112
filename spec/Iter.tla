-------------------------------- MODULE Iter --------------------------------
(* Iteration.  FoldLeft is evaluated in place by TLC, so long inputs do not  *)
(* nest evaluation contexts.                                                 *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, seq) == FoldLeft(op, base, seq)
\* position of the first element from position i on that satisfies T, Len(s) + 1 if there is none
FirstAt(s, i, T(_)) == LET k == SelectInSeq(SubSeq(s, i, Len(s)), T) IN IF k = 0 THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE i + k - 1
=============================================================================
