------------------------------- MODULE MC_Files --------------------------------
(* C16: the handle state machine.  Two files; every statement in every state.   *)
(* Abstract state per file: how it is open, what the directory holds.           *)
EXTENDS Hist
SetupDef == <<"DECLARE x : STRING", "DECLARE r : INTEGER", "r <- 5">>
OPSDEF(f) == <<"OPENFILE " \o f \o " FOR READ", "OPENFILE " \o f \o " FOR WRITE", "OPENFILE " \o f \o " FOR APPEND",
               "OPENFILE " \o f \o " FOR RANDOM", "CLOSEFILE " \o f, "READFILE " \o f \o ", x", "OUTPUT EOF(" \o f \o ")",
               "WRITEFILE " \o f \o ", \"w\"", "SEEK " \o f \o ", 1", "GETRECORD " \o f \o ", r", "PUTRECORD " \o f \o ", r">>
AlphDef == OPSDEF("\"f\"") \o OPSDEF("\"g\"") \o <<"@restart">>
ProbeDef == <<"CLOSEFILE \"f\"", "CLOSEFILE \"g\"", "x", "r">>
NOPS == 11
MAXL == 1
Name == <<Codes("f"), Codes("g")>>

\* per file: md "-" R W A N, k "none" | "text" | "rec", n: lines or records, pos (lines read, address)
VARIABLE abs
vars == <<hvars, abs>>
A0 == [md |-> "-", k |-> "none", n |-> 0, pos |-> 0]
Legal(s, o) ==
  CASE o = 1 -> s.md = "-" /\ s.k # "none"
    [] o = 2 -> s.md = "-"
    [] o = 3 -> s.md = "-" /\ s.k # "none"
    [] o = 4 -> s.md = "-"
    [] o = 5 -> s.md # "-"
    [] o \in {6, 7} -> s.md = "R"
    [] o = 8 -> s.md \in {"W", "A"}
    [] o = 9 -> s.md = "N"
    [] o = 10 -> s.md = "N" /\ s.pos <= s.n
    [] o = 11 -> s.md = "N"
Effect(s, o) ==
  CASE o = 1 -> [s EXCEPT !.md = "R", !.pos = 0]
    [] o = 2 -> [md |-> "W", k |-> "text", n |-> 0, pos |-> 0]
    [] o = 3 -> [s EXCEPT !.md = "A", !.pos = 0]
    [] o = 4 -> IF s.k = "rec" THEN [s EXCEPT !.md = "N", !.pos = 1] ELSE [md |-> "N", k |-> "rec", n |-> 0, pos |-> 1]
    [] o = 5 -> [s EXCEPT !.md = "-", !.pos = 0]
    [] o = 6 -> [s EXCEPT !.pos = @ + 1]
    [] o = 8 -> [s EXCEPT !.n = @ + 1]
    [] o = 9 -> [s EXCEPT !.pos = 1]
    [] o = 11 -> IF s.pos > s.n THEN [s EXCEPT !.n = @ + 1] ELSE s
    [] OTHER -> s
AbsStep(i) ==
  IF i > 2 * NOPS THEN [j \in 1..2 |-> [abs[j] EXCEPT !.md = "-", !.pos = 0]]
  ELSE LET j == IF i > NOPS THEN 2 ELSE 1
           o == i - (j - 1) * NOPS
       IN IF Legal(abs[j], o) THEN [abs EXCEPT ![j] = Effect(@, o)] ELSE abs
AbsOk(i) == i > 2 * NOPS \/ LET j == IF i > NOPS THEN 2 ELSE 1 IN Legal(abs[j], i - (j - 1) * NOPS)
\* reading past the last line is not part of the property
PastEnd(i) == \E j \in 1..2 : i = (j - 1) * NOPS + 6 /\ abs[j].md = "R" /\ abs[j].pos = abs[j].n

View == HState(hm)
Init == HInit /\ abs = <<A0, A0>>
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : ~PastEnd(i) /\ HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == \A j \in 1..2 : abs[j].n <= MAXL
W == Codes("w")
Ws(n) == CASE n = 0 -> <<>> [] n = 1 -> W \o <<NL>> [] OTHER -> W \o <<NL>> \o W \o <<NL>>
Mode == [R |-> "READ", W |-> "WRITE", A |-> "APPEND", N |-> "RANDOM"]
Refines ==
  \A j \in 1..2 : LET s == abs[j]
                      f == Name[j]
                  IN /\ (s.md # "-") = (f \in DOMAIN hm.hs)
                     /\ s.md # "-" => hm.hs[f].md = Mode[s.md]
                     /\ (s.k = "none") = (f \notin DOMAIN hm.dir)
                     /\ s.k = "text" => hm.dir[f].k = "text" /\ hm.dir[f].b = Ws(s.n)
                     /\ s.k = "rec" => hm.dir[f].k = "rec" /\ Len(hm.dir[f].rs) = s.n
                     /\ s.md = "N" => hm.hs[f].pos = s.pos
Always == [][Refines']_vars
\* C16: a statement succeeds exactly in a legal state; otherwise files and handles are as they were
Stated == [][/\ ho'.ok = AbsOk(ho'.i)
             /\ ~ho'.ok => hm'.hs = hm.hs /\ hm'.dir = hm.dir /\ hm' = hm]_vars
================================================================================
