-------------------------------- MODULE MC_Enum --------------------------------
(* C19: enumerated values cycle through their declared order and keep their type. *)
EXTENDS Hist
SetupDef == <<"TYPE E = (ea, eb, ec)", "TYPE G = (ga)", "DECLARE e : E", "DECLARE f : E", "DECLARE g : G", "DECLARE i : INTEGER">>
OFFS == <<0, 1, 2, 3, 4, 7, -1, -2, -3, -4, -7, 1000000, -1000001>>
ZTX(n) == IF n < 0 THEN "0 - " \o ToString(-n) ELSE ToString(n)
AlphDef == [j \in 1..Len(OFFS) |-> "e <- e + (" \o ZTX(OFFS[j]) \o ")"]
        \o [j \in 1..Len(OFFS) |-> "e <- e - (" \o ZTX(OFFS[j]) \o ")"]
        \o <<"e <- ea", "e <- eb", "e <- ec", "f <- e", "e <- f",
             "e <- g", "g <- e", "e <- ga", "g <- eb", "e <- 1", "i <- e", "e <- \"ea\"", "e <- e + 1.0", "e <- e + f", "e <- e * 2",
             "OUTPUT e", "OUTPUT e = f, e <> f", "OUTPUT e = eb", "g <- g + 5", "OUTPUT g - 3", "e <- -e", "OUTPUT e = g">>
NO == Len(OFFS)
ProbeDef == <<"OUTPUT e, f, g, i", "e = ea", "f">>
VARIABLE abs     \* positions of e and f
vars == <<hvars, abs>>
View == abs
Names3 == <<"ea", "eb", "ec">>
B2T(b) == IF b THEN "TRUE" ELSE "FALSE"
AbsStep(j) == CASE j <= NO -> [abs EXCEPT !.e = (@ + OFFS[j]) % 3]
                [] j <= 2 * NO -> [abs EXCEPT !.e = (@ - OFFS[j - NO]) % 3]
                [] j <= 2 * NO + 3 -> [abs EXCEPT !.e = j - 2 * NO - 1]
                [] j = 2 * NO + 4 -> [abs EXCEPT !.f = abs.e]
                [] j = 2 * NO + 5 -> [abs EXCEPT !.e = abs.f]
                [] OTHER -> abs
Out(j) == CASE j = 2 * NO + 16 -> Names3[abs.e + 1]
            [] j = 2 * NO + 17 -> B2T(abs.e = abs.f) \o B2T(abs.e # abs.f)
            [] j = 2 * NO + 18 -> B2T(abs.e = 1)
            [] j = 2 * NO + 20 -> "ga"
            [] j = 2 * NO + 22 -> "FALSE"
Refused(j) == j \in (2 * NO + 6)..(2 * NO + 15) \/ j = 2 * NO + 21
Init == HInit /\ abs = [e |-> 0, f |-> 0]
Next == Len(hh) < DEPTH /\ \E j \in 1..Len(Alph) : HNext(j) /\ abs' = AbsStep(j) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == TRUE
Refines == /\ HVal(hm, "e") = [k |-> "E", t |-> <<"E", "E", hm.g>>, i |-> abs.e]
           /\ HVal(hm, "f").i = abs.f /\ HVal(hm, "g").i = 0 /\ HVal(hm, "i") = VI(Z0)
Always == [][Refines']_vars
Stated == [][/\ ho'.ok = ~Refused(ho'.i)
             /\ ho'.i \in {2 * NO + 16, 2 * NO + 17, 2 * NO + 18, 2 * NO + 20, 2 * NO + 22} => ho'.out = Codes(Out(ho'.i)) \o <<NL>>]_vars
================================================================================
