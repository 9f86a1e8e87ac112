------------------------------- MODULE LM_Trace --------------------------------
(* C11: the lines a run-time error names, for every call chain of up to DEPTH      *)
(* calls, each a CALL, a function in an expression, a condition, a loop body or an  *)
(* argument, over failing statements of several kinds.                              *)
EXTENDS Exec
DEPTH == atoi(IOEnv.DEPTH)
KINDS == 1..6
FAULTS == <<"x <- 1 / 0", "OUTPUT undef", "CALL nosuch()", "a[9] <- 1", "DECLARE x : STRING", "IF 5 THEN", "x <- LEFT(\"a\", 7)", "OUTPUT F0(1, 2)">>
\* built-ins may name the call itself as well
VARIABLE pp     \* <<fault, kind of the innermost call, ..., of the outermost>>
Init == pp \in {<<f>> : f \in 1..Len(FAULTS)}
Next == Len(pp) <= DEPTH /\ \E k \in KINDS : pp' = Append(pp, k)
Name(d) == "F" \o XNum(d)
\* [h: lines, at: the line of the call in it]
CallLines(d, k) ==
  CASE k = 1 -> [h |-> <<"CALL P" \o XNum(d) \o "()">>, at |-> 1]
    [] k = 2 -> [h |-> <<"y <- 1 + " \o Name(d) \o "()">>, at |-> 1]
    [] k = 3 -> [h |-> <<"IF FALSE THEN", "y <- 2", "ELSE IF " \o Name(d) \o "() = 1 THEN", "y <- 3", "ENDIF">>, at |-> 3]
    [] k = 4 -> [h |-> <<"FOR i <- 1 TO 2", "y <- i", "CALL P" \o XNum(d) \o "()", "NEXT i">>, at |-> 3]
    [] k = 5 -> [h |-> <<"OUTPUT \"\" & LENGTH(\"a\" & " \o Name(d) \o "())">>, at |-> 1]
    [] k = 6 -> [h |-> <<"REPEAT", "y <- 1", "UNTIL " \o Name(d) \o "() = 2">>, at |-> 3]
IsF(k) == k \in {2, 3, 5, 6}
Opening(d, k) == IF IsF(k) THEN <<"FUNCTION " \o Name(d) \o "() RETURNS INTEGER">> ELSE <<"PROCEDURE P" \o XNum(d) \o "()">>
Closing(k) == IF IsF(k) THEN <<"RETURN 1", "ENDFUNCTION">> ELSE <<"ENDPROCEDURE">>
FAULTLINES == IF pp[1] = 6 THEN <<FAULTS[6], "ENDIF">> ELSE <<FAULTS[pp[1]]>>
Decl == IF pp[1] = 5 THEN <<"DECLARE x : INTEGER">> ELSE IF pp[1] = 4 THEN <<"DECLARE a : ARRAY[1:3] OF INTEGER">> ELSE <<>>
\* definitions, innermost first; activation d (1: the failing one) is called with kind pp[d + 1]
\* [ls, at: the failing / call line of each activation, innermost first]
RECURSIVE Build(_, _, _)
Build(d, ls, at) ==
  IF d = Len(pp)
  THEN IF d = 1 THEN [ls |-> ls \o Decl \o FAULTLINES, at |-> <<Len(ls) + Len(Decl) + 1>>]
       ELSE LET c == CallLines(d - 1, pp[d]) IN [ls |-> ls \o <<"", "// main">> \o c.h, at |-> Append(at, Len(ls) + 2 + c.at)]
  ELSE LET k == pp[d + 1]
           body == IF d = 1 THEN [h |-> Decl \o FAULTLINES, at |-> Len(Decl) + 1] ELSE CallLines(d - 1, pp[d])
       IN Build(d + 1, ls \o Opening(d, k) \o body.h \o Closing(k), Append(at, Len(ls) + 1 + body.at))
Lemma ==
  \E b \in {Build(1, <<>>, <<>>)} : \E m \in {XRun(b.ls, <<>>, FALSE)} :
     /\ m.st = "err" /\ m.er.k = "rt" /\ m.em = <<>>
     /\ Len(b.at) = Len(pp)
     /\ m.er.top = {} \/ b.at[1] \in m.er.top
     /\ m.er.ch = Tail(b.at)
     /\ m.er.b = (pp[1] = 7)
================================================================================
