-------------------------------- MODULE MC_Arr ---------------------------------
(* C06: arrays are bounds-checked total maps with independent elements.            *)
EXTENDS Hist
SetupDef == <<"DECLARE a : ARRAY[0:1] OF INTEGER", "DECLARE b : ARRAY[0:1] OF INTEGER", "DECLARE c : ARRAY[1:2] OF INTEGER",
              "DECLARE m : ARRAY[0:0, -1:0] OF INTEGER", "DECLARE h : ARRAY[0:1] OF REAL", "DECLARE w : ARRAY[0:1, 0:0] OF INTEGER",
              "DECLARE k : INTEGER", "k <- 1",
              "PROCEDURE setk(BYREF z : INTEGER)|z <- 2|ENDPROCEDURE",
              "PROCEDURE keep(z : INTEGER)|z <- 3|ENDPROCEDURE">>
\* letter: text, then its meaning: <<"set", array, cell, value>>, <<"cell", to, from>>, <<"all", to, from>>, <<"nop">>, <<"bad">>
LETTERS == <<
  <<"a[0] <- 1", <<"set", "a", 1, 1>> >>, <<"a[k] <- 2", <<"set", "a", 2, 2>> >>, <<"b[1] <- 1", <<"set", "b", 2, 1>> >>,
  <<"m[0, -1] <- 1", <<"set", "m", 1, 1>> >>, <<"m[k - 1, 0] <- 2", <<"set", "m", 2, 2>> >>,
  <<"CALL setk(a[0])", <<"set", "a", 1, 2>> >>, <<"CALL setk(m[0, 0])", <<"set", "m", 2, 2>> >>, <<"CALL keep(a[1])", <<"nop">> >>,
  <<"a[1] <- a[0]", <<"cell", "a", 2, "a", 1>> >>, <<"b[0] <- a[1]", <<"cell", "b", 1, "a", 2>> >>, <<"c[2] <- b[0]", <<"cell", "c", 2, "b", 1>> >>,
  <<"m[0, 0] <- c[2]", <<"cell", "m", 2, "c", 2>> >>, <<"a[a[0] - a[0]] <- 0", <<"set", "a", 1, 0>> >>,
  <<"a <- b", <<"all", "a", "b">> >>, <<"b <- a", <<"all", "b", "a">> >>, <<"a <- a", <<"nop">> >>,
  <<"a <- c", <<"bad">> >>, <<"c <- a", <<"bad">> >>, <<"a <- h", <<"bad">> >>, <<"h <- a", <<"bad">> >>, <<"a <- w", <<"bad">> >>, <<"w <- a", <<"bad">> >>, <<"a <- m", <<"bad">> >>,
  <<"a[2] <- 9", <<"bad">> >>, <<"a[-1] <- 9", <<"bad">> >>, <<"c[0] <- 9", <<"bad">> >>, <<"m[1, 0] <- 9", <<"bad">> >>, <<"m[0, 1] <- 9", <<"bad">> >>, <<"m[0, -2] <- 9", <<"bad">> >>,
  <<"a[1, 1] <- 9", <<"bad">> >>, <<"m[0] <- 9", <<"bad">> >>, <<"a[\"0\"] <- 9", <<"bad">> >>, <<"a[0.0] <- 9", <<"bad">> >>, <<"a[TRUE] <- 9", <<"bad">> >>, <<"a[k * 2] <- a[0]", <<"bad">> >>,
  <<"a[0] <- a[2]", <<"bad">> >>, <<"a[0] <- 1.5", <<"bad">> >>, <<"a[1] <- \"x\"", <<"bad">> >>, <<"a <- 5", <<"bad">> >>, <<"k <- a", <<"bad">> >>, <<"CALL setk(a[2])", <<"bad">> >>,
  <<"OUTPUT a[2]", <<"bad">> >>, <<"OUTPUT m[0, 5]", <<"bad">> >>, <<"OUTPUT c[k - 1]", <<"bad">> >> >>
AlphDef == [i \in 1..Len(LETTERS) |-> LETTERS[i][1]]
ProbeDef == <<"OUTPUT a[0], a[1], b[0], b[1], c[1], c[2], m[0, -1], m[0, 0], h[0], h[1], w[0, 0], w[1, 0]">>
VARIABLE abs     \* array -> cell -> value
vars == <<hvars, abs>>
View == abs
Meaning(i) == LETTERS[i][2]
AbsStep(i) ==
  LET q == Meaning(i)
  IN CASE q[1] = "set" -> [abs EXCEPT ![q[2]][q[3]] = q[4]]
       [] q[1] = "cell" -> [abs EXCEPT ![q[2]][q[3]] = abs[q[4]][q[5]]]
       [] q[1] = "all" -> [abs EXCEPT ![q[2]] = abs[q[3]]]
       [] OTHER -> abs
Init == HInit /\ abs = [x \in {"a", "b", "c", "m"} |-> <<0, 0>>]
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == TRUE
Refines == /\ \A x \in {"a", "b", "c", "m"} : \A j \in 1..2 : HVal(hm, x).e[j] = VI(ZOf(abs[x][j]))
           /\ \A x \in {"h", "w"} : \A j \in 1..2 : HVal(hm, x).e[j] = (IF x = "h" THEN ROfZ(Z0) ELSE VI(Z0))
           /\ HVal(hm, "k") = VI(ZOf(1))
Always == [][Refines']_vars
Stated == [][ho'.ok = (Meaning(ho'.i)[1] # "bad")]_vars
================================================================================
