-------------------------------- MODULE MC_Const -------------------------------
(* C08: nothing changes a constant after its definition.                          *)
EXTENDS Hist
SetupDef == <<"DECLARE v : INTEGER", "v <- 1", "DECLARE t : STRING", "TYPE PI = ^INTEGER", "DECLARE p : PI", "DECLARE q : PI",
              "PROCEDURE inc(BYREF z : INTEGER)|z <- z + 1|ENDPROCEDURE",
              "PROCEDURE deep(BYREF z : INTEGER)|CALL inc(z)|ENDPROCEDURE",
              "PROCEDURE byval(z : INTEGER)|z <- z + 1|OUTPUT z|ENDPROCEDURE",
              "PROCEDURE direct()|K <- 99|ENDPROCEDURE",
              "PROCEDURE shadow()|DECLARE K : INTEGER|K <- 50|OUTPUT K|ENDPROCEDURE",
              "PROCEDURE loop()|FOR K <- 1 TO 2|OUTPUT K|NEXT K|ENDPROCEDURE",
              "PROCEDURE inp()|INPUT K|ENDPROCEDURE",
              "PROCEDURE setp(BYREF z : INTEGER)|p <- ^z|ENDPROCEDURE",
              "OPENFILE \"t\" FOR WRITE", "WRITEFILE \"t\", \"55\"", "CLOSEFILE \"t\"", "OPENFILE \"t\" FOR READ",
              "OPENFILE \"r\" FOR RANDOM", "PUTRECORD \"r\", v", "SEEK \"r\", 1">>
WRITES == <<"K <- 8", "K <- K", "INPUT K~9", "FOR K <- 1 TO 2|OUTPUT K|NEXT K", "FOR K <- 7 TO 6|NEXT K", "READFILE \"t\", S", "GETRECORD \"r\", K",
            "CALL inc(K)", "CALL deep(K)", "CALL direct()", "CALL loop()", "CALL inp()~4", "CONSTANT K = 8", "DECLARE K : INTEGER", "TYPE K = (k1, k2)",
            "S <- \"other\"", "INPUT S~text">>
\* may succeed, but not by changing a constant
OTHERS == <<"p <- ^K", "p <- ^v", "q <- p", "p^ <- 9", "q^ <- 10", "CALL inc(p^)", "CALL setp(K)", "CALL setp(v)", "CALL shadow()", "CALL byval(K)", "v <- K", "INPUT v~6",
            "GETRECORD \"r\", v", "FOR v <- 1 TO K|NEXT v", "K", "OUTPUT K, S", "PUTRECORD \"r\", K">>
AlphDef == <<"CONSTANT K = 7", "CONSTANT S = \"str\"">> \o WRITES \o OTHERS
ProbeDef == <<"K", "S", "v", "OUTPUT K, S, v", "CALL byval(K)">>
VARIABLE abs     \* which constants have been defined
vars == <<hvars, abs>>
Def(m, n) == n \in DOMAIN m.fr[m.g].vs /\ m.fr[m.g].vs[n].c
View == <<HState(hm), abs>>
Init == HInit /\ abs = {}
\* only histories that define the constant first: before, K may become a variable
Next == /\ Len(hh) < DEPTH
        /\ \E i \in 1..Len(Alph) : /\ IF Len(hh) = 0 THEN i = 1 ELSE IF Len(hh) = 1 THEN i = 2 ELSE TRUE
                                   /\ HNext(i)
        /\ abs' = {n \in {"K", "S"} : Def(hm', n)}
        /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == ZCmp(HVal(hm, "v").z, ZOf(12)) < 0 /\ Len(hm.dir[Codes("r")].rs) < 3
Refines == /\ "K" \in abs => HVal(hm, "K") = VI(ZOf(7))
           /\ "S" \in abs => HVal(hm, "S") = HStr("str")
Always == [][Refines']_vars
\* every attempt is an error, and what is defined stays defined
Stated == [][/\ abs \subseteq abs'
             /\ (Len(hh) > 2 /\ ho'.i \in 3..(2 + Len(WRITES))) => ~ho'.ok]_vars
================================================================================
