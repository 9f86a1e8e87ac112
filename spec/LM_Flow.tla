-------------------------------- MODULE LM_Flow --------------------------------
(* C03: the machine runs every loop, selection and BREAK / CONTINUE of a family   *)
(* exactly as the closed forms of the documentation say.                           *)
EXTENDS Exec
RG == atoi(IOEnv.RANGE)
VARIABLE pp     \* the program's parameters: <<family, ...>>
SMALLS == -RG..RG
Init == pp \in {<<k, x>> : k \in {"for", "forbrk", "forcont", "forset", "while", "repeat", "nest"}, x \in SMALLS}
        \cup {<<"if", x>> : x \in 1..3} \cup {<<"case", x>> : x \in 1..8}
TRUTHS == {<<i, j, k>> : i, j, k \in {0, 1}}
Next == /\ Len(pp) = 2
        /\ \/ pp[1] \in {"for", "forset"} /\ \E y \in SMALLS, z \in (-RG..RG) \ {0} : pp' = pp \o <<y, z>>
           \/ pp[1] \in {"forbrk", "forcont"} /\ \E y \in SMALLS, z \in {-2, -1, 1, 2}, t \in SMALLS : pp' = pp \o <<y, z, t>>
           \/ pp[1] \in {"while", "repeat"} /\ \E y \in SMALLS, z \in 1..3 : pp' = pp \o <<y, z>>
           \/ pp[1] = "nest" /\ \E y \in 1..3, k \in {"BREAK", "CONTINUE"}, w \in {"for", "while", "repeat"} : pp' = pp \o <<y, k, w>>
           \/ pp[1] = "if" /\ \E t \in TRUTHS, e \in 0..1 : pp' = pp \o <<t, e>>
           \/ pp[1] = "case" /\ \E y, z \in 0..8, v \in 0..4, o \in 0..1 : pp' = pp \o <<y, z, v, o>>

Nm(n) == XNum(n)
\* the values a FOR loop runs its body for
RECURSIVE Vals(_, _, _)
Vals(x, stop, step) == IF (step > 0 /\ x > stop) \/ (step < 0 /\ x < stop) THEN <<>> ELSE <<x>> \o Vals(x + step, stop, step)
Count(x, stop, step) == LET n == IF step > 0 THEN stop - x ELSE x - stop
                            k == IF step > 0 THEN step ELSE -step
                        IN IF n < 0 THEN 0 ELSE n \div k + 1
After(x, stop, step) == x + Count(x, stop, step) * step
RECURSIVE Upto(_, _)    \* the values before the first t
Upto(xs, t) == IF xs = <<>> \/ xs[1] = t THEN <<>> ELSE <<xs[1]>> \o Upto(Tail(xs), t)
Without(xs, t) == SelectSeq(xs, LAMBDA x : x # t)
Has(xs, t) == \E i \in 1..Len(xs) : xs[i] = t

ForHead == "FOR i <- " \o Nm(pp[2]) \o " TO " \o Nm(pp[3]) \o " STEP " \o Nm(pp[4])
ForVals == Vals(pp[2], pp[3], pp[4])
CLAUSE == <<"1 : OUTPUT 101", "2 : OUTPUT 102", "1 TO 3 : OUTPUT 103", "3 TO 1 : OUTPUT 104", "0 : OUTPUT 105", "2 TO 2 : OUTPUT 106", "4 TO 9 : OUTPUT 107", "-1 TO 0 : OUTPUT 108">>
Hit(c, v) == CASE c = 1 -> v = 1 [] c = 2 -> v = 2 [] c = 3 -> v \in 1..3 [] c = 4 -> FALSE [] c = 5 -> v = 0 [] c = 6 -> v = 2 [] c = 7 -> v \in 4..9 [] c = 8 -> v \in -1..0
TF(b) == IF b = 1 THEN "TRUE" ELSE "1 = 2"
\* [ls: the program's lines, out: the integers it prints]
Case ==
  CASE pp[1] = "for" ->
         [ls |-> <<ForHead, "OUTPUT i", "NEXT i", "OUTPUT i">>, out |-> ForVals \o <<After(pp[2], pp[3], pp[4])>>]
    [] pp[1] = "forset" ->     \* start, stop and step are evaluated once
         [ls |-> <<"s <- " \o Nm(pp[4]), "b <- " \o Nm(pp[3]), "a <- " \o Nm(pp[2]), "FOR i <- a TO b STEP s", "OUTPUT i", "b <- b + 1", "s <- s + 1", "a <- 0", "NEXT", "OUTPUT i">>,
          out |-> ForVals \o <<After(pp[2], pp[3], pp[4])>>]
    [] pp[1] = "forbrk" ->
         [ls |-> <<ForHead, "IF i = " \o Nm(pp[5]) \o " THEN", "BREAK", "ENDIF", "OUTPUT i", "NEXT i", "OUTPUT i">>,
          out |-> Upto(ForVals, pp[5]) \o <<IF Has(ForVals, pp[5]) THEN pp[5] ELSE After(pp[2], pp[3], pp[4])>>]
    [] pp[1] = "forcont" ->
         [ls |-> <<ForHead, "IF i = " \o Nm(pp[5]) \o " THEN", "CONTINUE", "ENDIF", "OUTPUT i", "NEXT i", "OUTPUT i">>,
          out |-> Without(ForVals, pp[5]) \o <<After(pp[2], pp[3], pp[4])>>]
    [] pp[1] = "while" ->
         [ls |-> <<"x <- " \o Nm(pp[2]), "WHILE x < " \o Nm(pp[3]) \o " DO", "OUTPUT x", "x <- x + " \o Nm(pp[4]), "ENDWHILE", "OUTPUT x">>,
          out |-> LET vs == Vals(pp[2], pp[3] - 1, pp[4]) IN vs \o <<After(pp[2], pp[3] - 1, pp[4])>>]
    [] pp[1] = "repeat" ->
         [ls |-> <<"x <- " \o Nm(pp[2]), "REPEAT", "OUTPUT x", "x <- x + " \o Nm(pp[4]), "UNTIL x >= " \o Nm(pp[3]), "OUTPUT x">>,
          out |-> LET vs == <<pp[2]>> \o Vals(pp[2] + pp[4], pp[3] - 1, pp[4]) IN vs \o <<vs[Len(vs)] + pp[4]>>]
    [] pp[1] = "nest" ->       \* BREAK / CONTINUE leave the outer loop alone
         LET inner == CASE pp[5] = "for" -> <<"FOR j <- 1 TO 3", "IF j = " \o Nm(pp[3]) \o " THEN", pp[4], "ENDIF", "OUTPUT j", "NEXT j">>
                        [] pp[5] = "while" -> <<"j <- 0", "WHILE j < 3 DO", "j <- j + 1", "IF j = " \o Nm(pp[3]) \o " THEN", pp[4], "ENDIF", "OUTPUT j", "ENDWHILE">>
                        [] pp[5] = "repeat" -> <<"j <- 0", "REPEAT", "j <- j + 1", "IF j = " \o Nm(pp[3]) \o " THEN", pp[4], "ENDIF", "OUTPUT j", "UNTIL j >= 3">>
             vs == IF pp[4] = "BREAK" THEN Upto(<<1, 2, 3>>, pp[3]) ELSE Without(<<1, 2, 3>>, pp[3])
         IN [ls |-> <<"FOR i <- 7 TO 8">> \o inner \o <<"OUTPUT i", "NEXT i", "OUTPUT 99">>,
             out |-> vs \o <<7>> \o vs \o <<8, 99>>]
    [] pp[1] = "if" ->
         LET n == pp[2]
             t == pp[3]
             first == {k \in 1..n : t[k] = 1 /\ \A q \in 1..(k - 1) : t[q] = 0}
             head == <<"IF " \o TF(t[1]) \o " THEN", "OUTPUT 1">>
             mid == IF n >= 2 THEN <<"ELSE IF " \o TF(t[2]) \o " THEN", "OUTPUT 2">> ELSE <<>>
             mid2 == IF n = 3 THEN <<"ELSE IF " \o TF(t[3]) \o " THEN", "OUTPUT 3">> ELSE <<>>
             els == IF pp[4] = 1 THEN <<"ELSE", "OUTPUT 4">> ELSE <<>>
         IN [ls |-> head \o mid \o mid2 \o els \o <<"ENDIF", "OUTPUT 9">>,
             out |-> (IF first # {} THEN <<CHOOSE k \in first : TRUE>> ELSE IF pp[4] = 1 THEN <<4>> ELSE <<>>) \o <<9>>]
    [] pp[1] = "case" ->
         LET cs == SelectSeq(<<pp[2], pp[3], pp[4]>>, LAMBDA c : c > 0)
             v == pp[5]
             hits == {k \in 1..Len(cs) : Hit(cs[k], v)}
         IN [ls |-> <<"v <- " \o Nm(v), "CASE OF v">> \o [k \in 1..Len(cs) |-> CLAUSE[cs[k]]] \o (IF pp[6] = 1 THEN <<"OTHERWISE : OUTPUT 200">> ELSE <<>>) \o <<"ENDCASE", "OUTPUT 9">>,
             out |-> (IF hits # {} THEN <<100 + cs[CHOOSE k \in hits : \A q \in hits : k <= q]>> ELSE IF pp[6] = 1 THEN <<200>> ELSE <<>>) \o <<9>>]
\* the two forms of the definition of FOR agree
ForForms == pp[1] = "for" => (Len(ForVals) = Count(pp[2], pp[3], pp[4]) /\ \A i \in 1..Len(ForVals) : ForVals[i] = pp[2] + (i - 1) * pp[4])
Lemma == Len(pp) > 2 =>
  /\ ForForms
  /\ \E c \in {Case} : \E m \in {XRun(c.ls, <<>>, FALSE)} : m.st = "done" /\ m.em = XLines(c.out)
================================================================================
