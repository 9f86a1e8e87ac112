-------------------------------- MODULE MC_Call --------------------------------
(* C04: BYVAL isolates, BYREF aliases, locals belong to one activation.            *)
EXTENDS Hist
SetupDef == <<"TYPE R|DECLARE f : INTEGER|ENDTYPE", "DECLARE g : INTEGER", "DECLARE h : INTEGER", "DECLARE a : ARRAY[1:2] OF INTEGER", "DECLARE r : R",
              "PROCEDURE val(x : INTEGER)|x <- x + 1|OUTPUT x|ENDPROCEDURE",
              "PROCEDURE ref(BYREF x : INTEGER)|x <- x + 1|OUTPUT x|ENDPROCEDURE",
              "PROCEDURE two(BYREF x, y : INTEGER)|x <- x + 1|y <- y + 1|ENDPROCEDURE",                     \* the mode carries over
              "PROCEDURE mix(BYREF x : INTEGER, BYVAL y, z : INTEGER)|x <- x + 1|y <- y + 1|z <- z + 5|ENDPROCEDURE",
              "PROCEDURE back(x : INTEGER, BYREF y : INTEGER)|x <- x + 1|y <- y + 1|ENDPROCEDURE",
              "PROCEDURE swap(BYREF x : INTEGER, BYREF y : INTEGER)|DECLARE t : INTEGER|t <- x|x <- y|y <- t|ENDPROCEDURE",
              "PROCEDURE pass(BYREF x : INTEGER)|CALL ref(x)|OUTPUT x|ENDPROCEDURE",
              "PROCEDURE drop(x : INTEGER)|CALL ref(x)|OUTPUT x|ENDPROCEDURE",
              "PROCEDURE seen(BYREF x : INTEGER)|x <- x + 1|OUTPUT x, g|ENDPROCEDURE",                     \* immediately visible
              "PROCEDURE inner()|l <- 7|g <- g + 1|ENDPROCEDURE",
              "PROCEDURE outer()|DECLARE l : INTEGER|l <- 3|CALL inner()|OUTPUT l|ENDPROCEDURE",           \* inner does not see l
              "PROCEDURE shade()|DECLARE g : INTEGER|g <- 50|CALL ref(g)|CALL inner()|OUTPUT g|ENDPROCEDURE",
              "PROCEDURE down(n : INTEGER, BYREF x : INTEGER)|DECLARE m : INTEGER|m <- n|IF n > 0 THEN|CALL down(n - 1, x)|ELSE|x <- x + 1|ENDIF|IF m <> n THEN|OUTPUT \"lost\"|ENDIF|ENDPROCEDURE",
              "FUNCTION inc(x : INTEGER) RETURNS INTEGER|x <- x + 1|RETURN x|g <- 99|ENDFUNCTION",
              "FUNCTION incr(BYREF x : INTEGER) RETURNS INTEGER|x <- x + 1|RETURN x * 10|ENDFUNCTION",
              "FUNCTION first(n : INTEGER) RETURNS INTEGER|FOR i <- 1 TO 5|IF i >= n THEN|RETURN i|ENDIF|NEXT i|ENDFUNCTION",
              "FUNCTION sum(n : INTEGER) RETURNS INTEGER|IF n = 0 THEN|RETURN 0|ENDIF|RETURN sum(n - 1) + n|ENDFUNCTION">>
\* letter: text, meaning: <<"add", cells that grow by one, text printed ("" none)>>
TX(x) == ToString(x)
LETTERS == <<
  <<"CALL val(g)", {}>>, <<"CALL val(a[1])", {}>>, <<"CALL ref(g)", {"g"}>>, <<"CALL ref(a[1])", {"a"}>>, <<"CALL ref(r.f)", {"r"}>>, <<"CALL two(g, h)", {"g", "h"}>>, <<"CALL two(a[1], r.f)", {"a", "r"}>>,
  <<"CALL mix(g, h, h)", {"g"}>>, <<"CALL mix(h, h, 1)", {"h"}>>, <<"CALL back(g, h)", {"h"}>>, <<"CALL back(g, g)", {"g"}>>, <<"CALL pass(g)", {"g"}>>, <<"CALL pass(a[1])", {"a"}>>, <<"CALL drop(g)", {}>>,
  <<"CALL seen(g)", {"g"}>>, <<"CALL outer()", {"g"}>>, <<"CALL shade()", {"g"}>>, <<"CALL down(3, h)", {"h"}>>, <<"CALL down(2, r.f)", {"r"}>>,
  <<"OUTPUT inc(g)", {}>>, <<"OUTPUT incr(g)", {"g"}>>, <<"OUTPUT incr(h) + incr(h)", {"h2"}>>, <<"OUTPUT first(3)", {}>>, <<"OUTPUT sum(4)", {}>>, <<"CALL swap(g, h)", {"swap"}>>,
  <<"OUTPUT first(9)", {"bad"}>>, <<"CALL ref(5)", {"bad"}>>, <<"CALL ref(g + 1)", {"bad"}>>, <<"CALL val()", {"bad"}>>, <<"CALL val(1, 2)", {"bad"}>>, <<"CALL val(\"x\")", {"bad"}>>, <<"CALL ref(a[3])", {"bad"}>>,
  <<"RETURN 5", {"bad"}>>, <<"OUTPUT inc(\"x\")", {"bad"}>>, <<"OUTPUT l", {"bad"}>>, <<"OUTPUT x", {"bad"}>>, <<"CALL val(r)", {"bad"}>>, <<"CALL nosuch(1)", {"bad"}>>, <<"OUTPUT incr(3)", {"bad"}>>, <<"CALL two(g)", {"bad"}>>, <<"CALL two(g, 1)", {"bad"}>> >>
AlphDef == [i \in 1..Len(LETTERS) |-> LETTERS[i][1]]
ProbeDef == <<"OUTPUT g, h, a[1], a[2], r.f", "l", "x", "m">>
VARIABLE abs     \* values of g, h, a[1], r.f
vars == <<hvars, abs>>
View == abs
CELLS == {"g", "h", "a", "r"}
Does(i) == LETTERS[i][2]
AbsStep(i) ==
  LET d == Does(i)
  IN IF "swap" \in d THEN [abs EXCEPT !.g = abs.h, !.h = abs.g]
     ELSE IF "h2" \in d THEN [abs EXCEPT !.h = @ + 2]
     ELSE [x \in CELLS |-> IF x \in d THEN abs[x] + 1 ELSE abs[x]]
Out(i) ==
  LET G == abs.g
      H == abs.h
      N == "|"
  IN CASE i = 1 -> TX(G + 1) \o N
       [] i = 2 -> TX(abs.a + 1) \o N
       [] i = 3 -> TX(G + 1) \o N
       [] i = 4 -> TX(abs.a + 1) \o N
       [] i = 5 -> TX(abs.r + 1) \o N
       [] i = 12 -> TX(G + 1) \o N \o TX(G + 1) \o N
       [] i = 13 -> TX(abs.a + 1) \o N \o TX(abs.a + 1) \o N
       [] i = 14 -> TX(G + 1) \o N \o TX(G + 1) \o N
       [] i = 15 -> TX(G + 1) \o TX(G + 1) \o N
       [] i = 16 -> TX(3) \o N
       [] i = 17 -> TX(51) \o N \o TX(51) \o N
       [] i = 20 -> TX(G + 1) \o N
       [] i = 21 -> TX((G + 1) * 10) \o N
       [] i = 22 -> TX((H + 1) * 10 + (H + 2) * 10) \o N
       [] i = 23 -> TX(3) \o N
       [] i = 24 -> TX(10) \o N
       [] OTHER -> ""
Init == HInit /\ abs = [x \in CELLS |-> 0]
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == \A x \in CELLS : abs[x] < 3
Refines == /\ HVal(hm, "g") = VI(ZOf(abs.g)) /\ HVal(hm, "h") = VI(ZOf(abs.h)) /\ HVal(hm, "a").e = <<VI(ZOf(abs.a)), VI(Z0)>>
           /\ HVal(hm, "r").f["f"] = VI(ZOf(abs.r)) /\ DOMAIN hm.fr = {hm.g} /\ DOMAIN hm.fr[hm.g].vs = {"g", "h", "a", "r"}
Always == [][Refines']_vars
Stated == [][/\ ho'.ok = ("bad" \notin Does(ho'.i))
             /\ ho'.out = HTxt(Out(ho'.i))]_vars
================================================================================
