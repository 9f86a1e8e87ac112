INIT Init
NEXT Next
INVARIANT Lemma
CHECK_DEADLOCK FALSE
