-------------------------------- MODULE LM_Ped ---------------------------------
(* C20: every program of up to LEN lines of an alphabet, with and without           *)
(* --pedantic: the option rejects exactly the programs that use a construct of the  *)
(* list, before anything runs or at the construct, and changes nothing else.        *)
EXTENDS Exec
LEN == atoi(IOEnv.LEN)
LINES == <<"DECLARE x : INTEGER", "x <- 1", "y <- 2", "OUTPUT 5", "OUTPUT x", "INPUT x", "INPUT z", "x <- INTEGER(\"3\")", "IF x = 1 THEN", "ELSE IF TRUE THEN", "ELSE", "ENDIF",
           "FOR i <- 1 TO 2", "NEXT i", "BREAK", "CONTINUE", "x <- 1.5", "DECLARE i : INTEGER", "CALL P()", "OUTPUT \"BREAK\" // CONTINUE", "x <- ", "OUTPUT 1 / 0">>
\* constructs the lexer or parser recognises
PARSED == {8, 10, 15, 16}
PROC == <<"PROCEDURE P()", "q <- 4", "OUTPUT q", "ENDPROCEDURE">>
VARIABLE pp
Init == pp = <<>>
Next == Len(pp) < LEN /\ \E k \in 1..Len(LINES) : pp' = Append(pp, k)
Prog == PROC \o [i \in 1..Len(pp) |-> LINES[pp[i]]]
Uses == \E i \in 1..Len(pp) : pp[i] \in PARSED
INP == <<55, NL, 56, NL, 57, NL>>
NoPed(m) == [m EXCEPT !.ped = FALSE]
Pre(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Lemma ==
  \E t \in {XText(Prog)} : \E n \in {Parse(t, FALSE)}, p \in {Parse(t, TRUE)} :
    IF ~n.ok THEN ~p.ok /\ (~Uses => (p.k = n.k /\ p.l = n.l))
    ELSE /\ p.ok = ~Uses
         /\ ~p.ok => (p.k = "pedantic" /\ \E i \in 1..Len(pp) : pp[i] \in PARSED /\ p.l = i + Len(PROC))
         /\ p.ok => /\ p.b = n.b
                    /\ \E a \in {XProg(n.b, INP, FALSE)}, b \in {XProg(p.b, INP, TRUE)} :
                         IF b.st = "err" /\ b.er.k = "ped"
                         THEN \* stopped at a store into an undeclared variable: a prefix of the other run
                              /\ Pre(b.em, a.em) /\ b.ii <= a.ii
                              /\ b.er.con = "undeclared"
                              /\ \E l \in b.er.top : LET k == IF l <= Len(PROC) THEN 3 ELSE pp[l - Len(PROC)] IN k \in {2, 3, 6, 7, 17}
                         ELSE NoPed(b) = a /\ b.st # "ped"
================================================================================
