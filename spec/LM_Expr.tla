-------------------------------- MODULE LM_Expr --------------------------------
(* C02: the tree of every expression of up to LEN operators, each operand plain,   *)
(* negated or with NOT, is the one the precedence table gives: split at the last   *)
(* operator of the loosest level.                                                  *)
EXTENDS Parser, IOUtils
LEN == atoi(IOEnv.LEN)
BINOPS == IF LEN <= 2 THEN <<"AND", "OR", "=", "<>", "<", ">", "<=", ">=", "&", "+", "-", "*", "/", "DIV", "MOD">>
          ELSE <<"AND", "<>", "&", "+", "-", "MOD">>
LEVEL == IF LEN <= 2 THEN <<1, 1, 2, 2, 2, 2, 2, 2, 3, 4, 4, 5, 5, 5, 5>> ELSE <<1, 2, 3, 4, 4, 5>>
\* w: alternately an operand (1: n, 2: -n, 3: (n)) and an operator; tight: at least one blank is left out
VARIABLE w
Init == w \in {<<k>> : k \in 1..2}
Next == Len(w) < 2 * LEN /\ \E o \in 1..Len(BINOPS), k \in {IF Len(w) = 1 THEN 2 ELSE 1, IF Len(w) = 3 THEN 3 ELSE 1} : w' = w \o <<o, k>>
NAMES == <<"a", "b", "c", "d", "e", "f">>
Oper(i) == LET n == Codes(NAMES[(i + 1) \div 2]) IN CASE w[i] = 1 -> n [] w[i] = 2 -> <<45>> \o n [] w[i] = 3 -> <<40>> \o n \o <<41>>
RECURSIVE Text0(_, _, _)
Text0(i, j, sp) == IF i > j THEN <<>>
                   ELSE IF i % 2 = 1 THEN Oper(i) \o Text0(i + 1, j, sp)
                   ELSE <<32>> \o Codes(BINOPS[w[i]]) \o <<32>> \o Text0(i + 1, j, sp)
Leaf(i) == LET v == <<"get", NAMES[(i + 1) \div 2]>> IN CASE w[i] = 1 -> v [] w[i] = 2 -> <<"-", v>> [] w[i] = 3 -> <<"par", v>>
\* the tree of w[i..j] (both odd)
RECURSIVE Tree(_, _)
Tree(i, j) ==
  IF i = j THEN Leaf(i)
  ELSE LET ops == {k \in i..j : k % 2 = 0}
           lo == CHOOSE n \in 1..5 : (\E k \in ops : LEVEL[w[k]] = n) /\ \A k \in ops : LEVEL[w[k]] >= n
           at == CHOOSE k \in ops : LEVEL[w[k]] = lo /\ \A q \in ops : LEVEL[w[q]] = lo => q <= k
       IN <<BINOPS[w[at]], Tree(i, at - 1), Tree(at + 1, j)>>
\* the same tree written with parentheses everywhere
RECURSIVE Full(_, _)
Full(i, j) ==
  IF i = j THEN Oper(i)
  ELSE LET ops == {k \in i..j : k % 2 = 0}
           lo == CHOOSE n \in 1..5 : (\E k \in ops : LEVEL[w[k]] = n) /\ \A k \in ops : LEVEL[w[k]] >= n
           at == CHOOSE k \in ops : LEVEL[w[k]] = lo /\ \A q \in ops : LEVEL[w[q]] = lo => q <= k
       IN <<40>> \o Full(i, at - 1) \o <<32>> \o Codes(BINOPS[w[at]]) \o <<32>> \o Full(at + 1, j) \o <<41>>
RECURSIVE Shape(_)
Shape(e) == CASE e.t = "bin" -> <<e.o, Shape(e.a), Shape(e.b)>>
              [] e.t = "un" -> <<e.o, Shape(e.e)>>
              [] e.t = "par" -> <<"par", Shape(e.e)>>
              [] OTHER -> <<"get", e.p.n>>
ExprOf(c) == LET p == Parse(Codes("x <- ") \o c, FALSE) IN IF p.ok THEN Shape(p.b[1].e) ELSE <<"error">>
Lemma ==
  /\ ExprOf(Text0(1, Len(w), TRUE)) = Tree(1, Len(w))
  /\ ExprOf(Full(1, Len(w))) = Tree(1, Len(w))
  \* NOT takes a whole comparison: NOT x = y is NOT (x = y), and ends before AND / OR
  /\ ExprOf(Codes("NOT ") \o Text0(1, Len(w), TRUE))
       = LET ops == {k \in 1..Len(w) : k % 2 = 0 /\ LEVEL[w[k]] = 1}
             m == CHOOSE k \in ops \cup {Len(w) + 1} : \A q \in ops : k <= q
             RECURSIVE Rest(_, _)
             Rest(acc, k) == IF k > Len(w) THEN acc
                             ELSE LET nx == CHOOSE q \in {x \in ops : x > k} \cup {Len(w) + 1} : \A x \in ops : x > k => q <= x
                                  IN Rest(<<BINOPS[w[k]], acc, Tree(k + 1, nx - 1)>>, nx)
         IN Rest(<<"NOT", Tree(1, m - 1)>>, m)
================================================================================
