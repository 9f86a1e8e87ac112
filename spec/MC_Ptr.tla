-------------------------------- MODULE MC_Ptr ---------------------------------
(* C09: pointers alias exactly their live target.  Abstract state: the target of  *)
(* each pointer and the value of every variable.                                  *)
EXTENDS Hist
SetupDef == <<"TYPE PI = ^INTEGER", "TYPE PS = ^STRING", "TYPE R|DECLARE f : INTEGER|ENDTYPE",
              "DECLARE u : INTEGER", "DECLARE a : ARRAY[1:2] OF INTEGER", "DECLARE r : R", "DECLARE s : STRING",
              "DECLARE p : PI", "DECLARE q : PI", "DECLARE t : PS",
              "PROCEDURE loc()|DECLARE l : INTEGER|l <- 5|p <- ^l|OUTPUT p^|ENDPROCEDURE",
              "PROCEDURE val(z : INTEGER)|q <- ^z|q^ <- 6|ENDPROCEDURE",
              "PROCEDURE ref(BYREF z : INTEGER)|q <- ^z|q^ <- 6|ENDPROCEDURE",
              "PROCEDURE own(z : PI)|z^ <- 5|z <- ^u|ENDPROCEDURE">>
AlphDef == <<"p <- ^u", "p <- ^a[1]", "p <- ^r.f", "q <- p", "p <- q", "p^ <- 5", "q^ <- 6",          \* 1..7
             "p^", "q^", "CALL loc()", "CALL val(u)", "CALL ref(a[1])", "CALL own(p)",                 \* 8..13
             "t <- ^u", "p <- ^s", "p <- t", "p <- ^a", "p <- 5", "t^",                               \* 14..19
             "CALL ref(q^)", "u", "a[1]", "r.f", "u <- p^", "p <- ^a[3]">>                             \* 20..25
ProbeDef == <<"u", "a[1]", "a[2]", "r.f", "s", "p^", "q^", "t^", "u <- 8", "p^", "q^">>
VARIABLE abs     \* [p, q: "nil" | "dead" | "u" | "a" | "r", v: values of u, a, r, ok, e: value shown]
vars == <<hvars, abs>>
Fail0 == [abs EXCEPT !.ok = FALSE, !.e = 0]
Good(x) == [x EXCEPT !.ok = TRUE, !.e = 0]
Show(n) == [abs EXCEPT !.ok = TRUE, !.e = n]
Targets == {"u", "a", "r"}
AbsStep(i) ==
  LET rd(x) == IF x \in Targets THEN Show(abs.v[x]) ELSE Fail0
      wr(x, n) == IF x \in Targets THEN Good([abs EXCEPT !.v[x] = n]) ELSE Fail0
      pt(x) == Good([abs EXCEPT !.p = x])
  IN CASE i = 1 -> pt("u")
       [] i = 2 -> pt("a")
       [] i = 3 -> pt("r")
       [] i = 4 -> Good([abs EXCEPT !.q = abs.p])
       [] i = 5 -> Good([abs EXCEPT !.p = abs.q])
       [] i = 6 -> wr(abs.p, 5)
       [] i = 7 -> wr(abs.q, 6)
       [] i = 8 -> rd(abs.p)
       [] i = 9 -> rd(abs.q)
       [] i = 10 -> [pt("dead") EXCEPT !.e = 5]
       [] i = 11 -> Good([abs EXCEPT !.q = "dead"])
       [] i = 12 -> Good([abs EXCEPT !.q = "a", !.v["a"] = 6])
       [] i = 13 -> wr(abs.p, 5)
       [] i \in 14..19 \cup {25} -> Fail0
       [] i = 20 -> wr(abs.q, 6)
       [] i = 21 -> Show(abs.v["u"])
       [] i = 22 -> Show(abs.v["a"])
       [] i = 23 -> Show(abs.v["r"])
       [] i = 24 -> IF abs.p \in Targets THEN Good([abs EXCEPT !.v["u"] = abs.v[abs.p]]) ELSE Fail0
\* which dead activation a pointer names does not matter
View == [abs EXCEPT !.ok = TRUE, !.e = 0]
Init == HInit /\ abs = [p |-> "nil", q |-> "nil", v |-> [x \in Targets |-> 0], ok |-> TRUE, e |-> 0]
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == TRUE
Cell1(x) == CASE x = "u" -> HVal(hm, "u") [] x = "a" -> HVal(hm, "a").e[1] [] x = "r" -> HVal(hm, "r").f["f"]
Where(x) == CASE x = "u" -> [a |-> hm.g, n |-> "u", p |-> <<>>]
              [] x = "a" -> [a |-> hm.g, n |-> "a", p |-> << <<"i", 1>> >>]
              [] x = "r" -> [a |-> hm.g, n |-> "r", p |-> << <<"f", "f">> >>]
Points(n, x) == LET r == HVal(hm, n).r
                IN CASE x = "nil" -> r = NOREF [] x = "dead" -> r # NOREF /\ ~Live(hm, r) [] OTHER -> r = Where(x)
Refines == /\ \A x \in Targets : Cell1(x) = VI(ZOf(abs.v[x]))
           /\ Points("p", abs.p) /\ Points("q", abs.q) /\ Points("t", "nil")
           /\ HVal(hm, "a").e[2] = VI(ZOf(0)) /\ HVal(hm, "s") = VS(<<>>)
           /\ ho.ok = abs.ok
           /\ ho.i \in {8, 9, 10, 21, 22, 23} /\ ho.ok => ho.out = IntText(abs.e) \o <<NL>>
Always == [][Refines']_vars
\* a failed use reads and writes nothing
Stated == [][~ho'.ok => hm'.fr = hm.fr /\ ho'.out = <<>>]_vars
================================================================================
