-------------------------------- MODULE MC_Vars --------------------------------
(* C05 / C19: a variable keeps its declared type; a store of another type, unless *)
(* one of the three documented conversions applies, fails without effect.          *)
EXTENDS Hist
VARSOF == <<"i", "r", "b", "c", "s", "d", "e", "g">>
TYPEOFV == <<"INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "E", "G">>
SetupDef == <<"TYPE E = (ea, eb, ec)", "TYPE G = (ga, gb)">>
            \o [k \in 1..8 |-> "DECLARE " \o VARSOF[k] \o " : " \o TYPEOFV[k]]
            \o [k \in 1..8 |-> "PROCEDURE p" \o VARSOF[k] \o "(z : " \o TYPEOFV[k] \o ")|" \o VARSOF[k] \o " <- z|ENDPROCEDURE"]
            \o [k \in 1..8 |-> "FUNCTION f" \o VARSOF[k] \o "(n : INTEGER) RETURNS " \o TYPEOFV[k] \o
                               "|CASE OF n|1 : RETURN i|2 : RETURN r|3 : RETURN b|4 : RETURN c|5 : RETURN s|6 : RETURN d|7 : RETURN e|8 : RETURN g|ENDCASE|ENDFUNCTION"]
            \o <<"d <- 1/2/2003">>
SETS == <<"i <- 3", "r <- 1.5", "c <- 'k'", "s <- \"x\"", "s <- \"ab\"", "s <- \"\"", "e <- eb", "g <- gb", "b <- TRUE">>
\* letters: all pairs assigned, passed, returned
PAIR(k) == <<((k - 1) \div 8) + 1, ((k - 1) % 8) + 1>>
AlphDef == SETS \o [k \in 1..64 |-> VARSOF[PAIR(k)[1]] \o " <- " \o VARSOF[PAIR(k)[2]]]
                \o [k \in 1..64 |-> "CALL p" \o VARSOF[PAIR(k)[1]] \o "(" \o VARSOF[PAIR(k)[2]] \o ")"]
                \o [k \in 1..64 |-> VARSOF[PAIR(k)[1]] \o " <- f" \o VARSOF[PAIR(k)[1]] \o "(" \o SubSeq("12345678", PAIR(k)[2], PAIR(k)[2]) \o ")"]
ProbeDef == <<"OUTPUT i, r, b, c, s, d, e, g", "i + 1", "r + 1", "c & s">>
VARIABLE abs     \* the values
vars == <<hvars, abs>>
View == HState(hm)
Vals(m) == [k \in 1..8 |-> HVal(m, VARSOF[k])]
TYS == [k \in 1..8 |-> TypeOf(HVal(hm, VARSOF[k]))]
\* the store allowed: to variable t from variable f
Allowed(t, f) == \/ t = f
                 \/ t = 2 /\ f = 1
                 \/ t = 4 /\ f = 5 /\ Len(abs[5].s) = 1
                 \/ t = 5 /\ f = 4
Stored(t, f) == IF t = f THEN abs[f] ELSE IF t = 2 THEN ROfZ(abs[1].z) ELSE IF t = 4 THEN VC(abs[5].s[1]) ELSE VS(<<abs[4].c>>)
Init == HInit /\ abs = Vals(hm)
Next == Len(hh) < DEPTH /\ \E i \in 1..Len(Alph) : HNext(i) /\ abs' = Vals(hm') /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
\* keeps the graph small
Bound == ~(HVal(hm, "b").b /\ HVal(hm, "g").i = 1)
Refines == \A k \in 1..8 : HVal(hm, VARSOF[k]).k = <<"I", "R", "B", "C", "S", "D", "E", "E">>[k]
Always == [][Refines' /\ TYS' = TYS]_vars
Stated == [][LET n == Len(SETS)
                 x == PAIR(((ho'.i - n - 1) % 64) + 1)
             IN ho'.i > n =>
                  IF Allowed(x[1], x[2]) THEN ho'.ok /\ abs' = [abs EXCEPT ![x[1]] = Stored(x[1], x[2])]
                  ELSE ~ho'.ok /\ HState(hm') = HState(hm)]_vars
================================================================================
