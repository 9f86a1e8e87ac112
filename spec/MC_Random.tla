------------------------------- MODULE MC_Random -------------------------------
(* C14: a random file is a stable, 1-based sequence of independent records.    *)
(* Abstract state: the sequence recs, whether it is open, the address, the      *)
(* three variables; it is related to the machine after every entry.             *)
EXTENDS Hist
SetupDef == <<"DECLARE x : INTEGER", "DECLARE a : INTEGER", "DECLARE b : INTEGER", "a <- 10", "b <- 20">>
AlphDef == <<"OPENFILE \"f\" FOR RANDOM", "CLOSEFILE \"f\"", "PUTRECORD \"f\", a", "PUTRECORD \"f\", b",
             "GETRECORD \"f\", x", "SEEK \"f\", 1", "SEEK \"f\", 2", "SEEK \"f\", 3", "SEEK \"f\", 4", "SEEK \"f\", 0",
             "@restart">>
ProbeDef == <<"OPENFILE \"f\" FOR RANDOM", "SEEK \"f\", 1", "GETRECORD \"f\", x", "x", "SEEK \"f\", 2", "GETRECORD \"f\", x", "x",
             "SEEK \"f\", 3", "GETRECORD \"f\", x", "x", "SEEK \"f\", 4", "GETRECORD \"f\", x", "SEEK \"f\", 5", "CLOSEFILE \"f\"", "x">>
MAXR == 3
F == Codes("f")

VARIABLE abs   \* [open, pos, recs, x, made]
vars == <<hvars, abs>>
Fail0 == [abs EXCEPT !.ok = FALSE]
Good(s) == [s EXCEPT !.ok = TRUE]
AbsStep(i) ==
  LET n == Len(abs.recs)
      put(v) == IF ~abs.open THEN Fail0
                ELSE Good([abs EXCEPT !.recs = IF abs.pos <= n THEN [@ EXCEPT ![abs.pos] = v] ELSE Append(@, v)])
      seek(k) == IF ~abs.open \/ k < 1 \/ k > n + 1 THEN Fail0 ELSE Good([abs EXCEPT !.pos = k])
  IN CASE i = 1 -> IF abs.open THEN Fail0 ELSE Good([abs EXCEPT !.open = TRUE, !.pos = 1, !.made = TRUE])
       [] i = 2 -> IF abs.open THEN Good([abs EXCEPT !.open = FALSE, !.pos = 0]) ELSE Fail0
       [] i = 3 -> put(10)
       [] i = 4 -> put(20)
       [] i = 5 -> IF abs.open /\ abs.pos <= n THEN Good([abs EXCEPT !.x = abs.recs[abs.pos]]) ELSE Fail0
       [] i \in 6..9 -> seek(i - 5)
       [] i = 10 -> seek(0)
       [] i = 11 -> Good([abs EXCEPT !.open = FALSE, !.pos = 0, !.x = 0])

View == HState(hm)
Init == HInit /\ abs = [open |-> FALSE, pos |-> 0, recs |-> <<>>, x |-> 0, made |-> FALSE, ok |-> TRUE]
Next == /\ Len(hh) < DEPTH
        /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == Len(abs.recs) <= MAXR
\* the machine implements the abstract file
Refines ==
  /\ ho.ok = abs.ok
  /\ abs.open = (F \in DOMAIN hm.hs)
  /\ abs.open => hm.hs[F].pos = abs.pos
  /\ abs.made = (F \in DOMAIN hm.dir)
  /\ abs.made => hm.dir[F].rs = [k \in 1..Len(abs.recs) |-> VI(ZOf(abs.recs[k]))]
  /\ HVal(hm, "x") = VI(ZOf(abs.x))
Always == [][Refines']_vars
\* C14 in its own words
Stated == [][/\ (ho'.i = 3 \/ ho'.i = 4) /\ ho'.ok =>
                  \A k \in 1..Len(abs.recs) : k # abs.pos => abs'.recs[k] = abs.recs[k]
             /\ ho'.i \in {1, 2, 5, 6, 7, 8, 9, 10, 11} => abs'.recs = abs.recs]_vars
================================================================================
