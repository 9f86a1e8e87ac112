-------------------------------- MODULE MC_Repl --------------------------------
(* C12: a failing entry never disturbs what earlier entries established, and a   *)
(* failing atomic entry has no effect at all.                                     *)
EXTENDS Hist
SetupDef == <<>>
GOOD == <<"DECLARE x : INTEGER", "x <- 1", "x <- x + 1", "CONSTANT K = 3", "TYPE E = (ea, eb)", "DECLARE e : E", "e <- eb",
          "PROCEDURE p()|x <- x * 2|ENDPROCEDURE", "CALL p()", "x", "OUTPUT x, K", "OPENFILE \"f\" FOR WRITE", "WRITEFILE \"f\", \"l\"", "CLOSEFILE \"f\"">>
\* entries that mostly fail: a single call-free assignment, declaration, constant definition or file statement
ATOMIC == <<"x <- \"s\"", "x <- 1 DIV 0", "y <- nothing + 1", "DECLARE z : NoType", "CONSTANT E2 = ", "x <-", "OPENFILE \"none\" FOR READ",
            "READFILE \"f\", x", "DECLARE : INTEGER", "e <- 5", "WRITEFILE \"g\", 1", "SEEK \"f\", 0", "x[1] <- 2", "x.f <- 2", "x <- @">>
\* other entries that fail whatever the state
FAILING == <<"IF TRUE THEN|x <- 9|OUTPUT 1 DIV 0|ENDIF", "WHILE 1 DO|x <- 7|ENDWHILE", "CALL nothing(1)", "OUTPUT (", "TYPE T2|DECLARE q : NoType|ENDTYPE|DECLARE v : T2",
             "FOR i <- 1 TO \"z\"|x <- 5|NEXT i", "PROCEDURE q(", "OUTPUT undefined1", "RETURN 3", "BREAK">>
AlphDef == GOOD \o ATOMIC \o FAILING
ProbeDef == <<"x", "K", "e", "OUTPUT x, K", "CALL p()", "x", "CLOSEFILE \"f\"", "undefined1", "y">>
Atomic(i) == i \in (Len(GOOD) + 1)..(Len(GOOD) + Len(ATOMIC)) \/ i \in {1, 2, 3, 4, 6, 7, 12, 13, 14}

\* what has been established: declared names and constants, procedures, open files
VARIABLE abs
vars == <<hvars, abs>>
Names(m) == DOMAIN m.fr[m.g].vs
Est(m) == [vs |-> [n \in Names(m) |-> [t |-> TypeOf(m.fr[m.g].vs[n].v), c |-> m.fr[m.g].vs[n].c]],
           ty |-> m.fr[m.g].ty, en |-> m.fr[m.g].en, pr |-> m.pr, hs |-> DOMAIN m.hs]
View == HState(hm)
Init == HInit /\ abs = Est(hm)
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = Est(hm') /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == /\ ("x" \in Names(hm) /\ TypeOf(HVal(hm, "x")) = TI) => ZCmp(HVal(hm, "x").z, ZOf(4)) < 0
         /\ Codes("f") \in DOMAIN hm.dir => Len(hm.dir[Codes("f")].b) < 4
Refines == TRUE
Sub(f, h) == DOMAIN f \subseteq DOMAIN h /\ \A x \in DOMAIN f : h[x] = f[x]
\* a failing entry leaves everything established; constants keep their value
Always == [][/\ Sub(abs.vs, abs'.vs) /\ Sub(abs.ty, abs'.ty) /\ Sub(abs.en, abs'.en) /\ Sub(abs.pr, abs'.pr)
             /\ ~ho'.ok => abs.hs = abs'.hs /\ hm'.dir = hm.dir
             /\ \A n \in Names(hm) : hm.fr[hm.g].vs[n].c => HVal(hm', n) = HVal(hm, n)]_vars
Stated == [][(Atomic(ho'.i) /\ ~ho'.ok) => hm' = hm /\ ho'.out = <<>>]_vars
================================================================================
