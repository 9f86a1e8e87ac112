-------------------------------- MODULE MC_Rec ---------------------------------
(* C07: records are values.  Abstract state: every record a tuple <<n, i, a1, a2>> *)
EXTENDS Hist
SetupDef == <<"TYPE In|DECLARE i : INTEGER|DECLARE a : ARRAY[1:2] OF INTEGER|ENDTYPE",
              "TYPE Out|DECLARE n : INTEGER|DECLARE r : In|ENDTYPE",
              "TYPE Other|DECLARE n : INTEGER|DECLARE r : In|ENDTYPE",
              "DECLARE p, q : Out", "DECLARE s : ARRAY[1:2] OF Out", "DECLARE v : In", "DECLARE o : Other", "DECLARE k : INTEGER",
              "PROCEDURE clobber(z : Out)|z.n <- 9|z.r.i <- 9|z.r.a[1] <- 9|z.r.a[2] <- 9|ENDPROCEDURE",
              "PROCEDURE set(BYREF z : Out)|z.r.i <- 2|z.r.a[2] <- 2|ENDPROCEDURE",
              "FUNCTION change(z : Out) RETURNS Out|z.r.a[1] <- 2|RETURN z|ENDFUNCTION",
              "FUNCTION giveq() RETURNS Out|RETURN q|ENDFUNCTION",
              "PROCEDURE locals()|DECLARE l : Out|l <- p|l.r.a[1] <- 9|l.n <- 9|ENDPROCEDURE">>
\* records: "p" "q" "s1" "s2" (Out), "v" (In: <<0, i, a1, a2>>)
\* meanings: <<"set", rec, part, value>>, <<"all", to, from>>, <<"in", to, from>> (the nested record only), <<"arr", to, from>> (its array)
LETTERS == <<
  <<"p.n <- 1", <<"set", "p", 1, 1>> >>, <<"p.r.i <- 1", <<"set", "p", 2, 1>> >>, <<"p.r.a[1] <- 1", <<"set", "p", 3, 1>> >>, <<"q.r.a[2] <- 1", <<"set", "q", 4, 1>> >>,
  <<"s[1].r.a[1] <- 1", <<"set", "s1", 3, 1>> >>, <<"s[2].n <- 1", <<"set", "s2", 1, 1>> >>, <<"v.a[2] <- 1", <<"set", "v", 4, 1>> >>, <<"v.i <- 1", <<"set", "v", 2, 1>> >>,
  <<"q <- p", <<"all", "q", "p">> >>, <<"p <- q", <<"all", "p", "q">> >>, <<"s[1] <- p", <<"all", "s1", "p">> >>, <<"q <- s[1]", <<"all", "q", "s1">> >>, <<"s[2] <- s[1]", <<"all", "s2", "s1">> >>,
  <<"p <- p", <<"nop">> >>, <<"v <- p.r", <<"in", "v", "p">> >>, <<"q.r <- v", <<"in", "q", "v">> >>, <<"s[2].r <- p.r", <<"in", "s2", "p">> >>,
  <<"q.r.a <- p.r.a", <<"arr", "q", "p">> >>, <<"v.a <- s[1].r.a", <<"arr", "v", "s1">> >>,
  <<"CALL clobber(p)", <<"nop">> >>, <<"CALL clobber(s[1])", <<"nop">> >>, <<"CALL set(p)", <<"two", "p">> >>, <<"CALL set(s[2])", <<"two", "s2">> >>,
  <<"q <- change(p)", <<"chg", "q", "p">> >>, <<"p <- giveq()", <<"all", "p", "q">> >>, <<"s[1] <- change(s[1])", <<"chg", "s1", "s1">> >>, <<"CALL locals()", <<"nop">> >>,
  <<"p.zz <- 1", <<"bad">> >>, <<"OUTPUT p.r.zz", <<"bad">> >>, <<"p.n <- \"x\"", <<"bad">> >>, <<"p.n <- 1.5", <<"bad">> >>, <<"p <- o", <<"bad">> >>, <<"o <- p", <<"bad">> >>, <<"p <- v", <<"bad">> >>,
  <<"p.r <- q", <<"bad">> >>, <<"v <- p", <<"bad">> >>, <<"p <- 1", <<"bad">> >>, <<"k <- p", <<"bad">> >>, <<"p.r.a[3] <- 1", <<"bad">> >>, <<"p.n.n <- 1", <<"bad">> >>, <<"CALL clobber(v)", <<"bad">> >>, <<"CALL clobber(o)", <<"bad">> >>, <<"v <- change(p)", <<"bad">> >> >>
AlphDef == [i \in 1..Len(LETTERS) |-> LETTERS[i][1]]
ProbeDef == <<"OUTPUT p.n, p.r.i, p.r.a[1], p.r.a[2]", "OUTPUT q.n, q.r.i, q.r.a[1], q.r.a[2]", "OUTPUT s[1].n, s[1].r.i, s[1].r.a[1], s[1].r.a[2]",
              "OUTPUT s[2].n, s[2].r.i, s[2].r.a[1], s[2].r.a[2]", "OUTPUT v.i, v.a[1], v.a[2]", "OUTPUT o.n, o.r.i, o.r.a[1], k">>
RECS == {"p", "q", "s1", "s2", "v"}
VARIABLE abs
vars == <<hvars, abs>>
View == abs
Meaning(i) == LETTERS[i][2]
Nested(to, from) == [j \in 1..4 |-> IF j = 1 THEN to[1] ELSE from[j]]
AbsStep(i) ==
  LET q == Meaning(i)
  IN CASE q[1] = "set" -> [abs EXCEPT ![q[2]][q[3]] = q[4]]
       [] q[1] = "all" -> [abs EXCEPT ![q[2]] = abs[q[3]]]
       [] q[1] = "in" -> [abs EXCEPT ![q[2]] = Nested(@, abs[q[3]])]
       [] q[1] = "arr" -> [abs EXCEPT ![q[2]] = <<@[1], @[2], abs[q[3]][3], abs[q[3]][4]>>]
       [] q[1] = "two" -> [abs EXCEPT ![q[2]][2] = 2, ![q[2]][4] = 2]
       [] q[1] = "chg" -> [abs EXCEPT ![q[2]] = [abs[q[3]] EXCEPT ![3] = 2]]
       [] OTHER -> abs
Init == HInit /\ abs = [x \in RECS |-> <<0, 0, 0, 0>>]
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == TRUE
InT(v) == <<v.f["i"], v.f["a"].e[1], v.f["a"].e[2]>>
OutT(v) == <<v.f["n"]>> \o InT(v.f["r"])
Val(x) == CASE x = "p" -> OutT(HVal(hm, "p")) [] x = "q" -> OutT(HVal(hm, "q")) [] x = "s1" -> OutT(HVal(hm, "s").e[1])
            [] x = "s2" -> OutT(HVal(hm, "s").e[2]) [] x = "v" -> <<VI(Z0)>> \o InT(HVal(hm, "v"))
Refines == /\ \A x \in RECS : Val(x) = [j \in 1..4 |-> VI(ZOf(abs[x][j]))]
           /\ OutT(HVal(hm, "o")) = [j \in 1..4 |-> VI(Z0)] /\ HVal(hm, "k") = VI(Z0)
Always == [][Refines']_vars
Stated == [][ho'.ok = (Meaning(ho'.i)[1] # "bad")]_vars
================================================================================
