------------------------------- MODULE LM_Layout -------------------------------
(* C10: the token sequence of a text does not depend on its layout, for every      *)
(* text of up to LEN pieces and every layout of a list.                            *)
EXTENDS Parser, IOUtils
LEN == atoi(IOEnv.LEN)
CODEN == CODE1 @@ ("\n" :> 10)
Txt(x) == TLCEval([i \in 1..Len(x) |-> CODEN[SubSeq(x, i, i)]])
PIECES == <<"x", "OUTPUT", "12", "1.5", "3/4/2001", "\"a //\tb\"", "\"p\nq\"", "'/'", "'\"'", "<-", "<", "-", "=", "(", "/", "NOT", "IF", "\n">>
P0 == TLCEval([i \in 1..Len(PIECES) |-> IF PIECES[i] = "\"a //\tb\"" THEN <<34, 97, 32, 47, 47, 9, 98, 34>> ELSE Txt(PIECES[i])])
NLI == Len(PIECES)
VARIABLE w
Init == w = <<>>
Next == Len(w) < LEN /\ \E i \in 1..Len(PIECES) : w' = Append(w, i)

\* a layout: separator between pieces of a line, before a line break, after one, and at the very end
BL == <<32>>
CMT == Codes("// \"IF ' <- /* ")
LAYOUTS == << [sep |-> BL, pre |-> <<>>, post |-> <<>>, fin |-> <<>>],
              [sep |-> <<9>>, pre |-> <<9, 32>>, post |-> <<32, 32>>, fin |-> <<32>>],
              [sep |-> <<32, 9, 32>>, pre |-> <<13>>, post |-> <<>>, fin |-> <<13>>],
              [sep |-> BL, pre |-> BL \o CMT, post |-> <<9>>, fin |-> BL \o CMT],
              [sep |-> BL, pre |-> CMT \o <<13>>, post |-> <<>>, fin |-> CMT],
              [sep |-> <<13, 32>>, pre |-> <<32, 32>>, post |-> BL, fin |-> <<9>>] >>
\* (a comment directly after '/' would begin there)
Away(acc) == IF acc # <<>> /\ acc[Len(acc)] = 47 THEN BL ELSE <<>>
RECURSIVE Lay(_, _, _)
Lay(L, i, acc) ==
  IF i > Len(w) THEN acc \o Away(acc) \o L.fin
  ELSE LET p == P0[w[i]]
           brk == w[i] = NLI
           gap == IF i = 1 \/ w[i - 1] = NLI \/ brk THEN <<>> ELSE L.sep
       IN Lay(L, i + 1, acc \o gap \o (IF brk THEN Away(acc) \o L.pre \o p \o L.post ELSE p))
\* with blank lines and comment lines after every line break
RECURSIVE Spread(_, _)
Spread(i, acc) ==
  IF i > Len(w) THEN acc
  ELSE Spread(i + 1, acc \o BL \o P0[w[i]] \o (IF w[i] = NLI THEN <<32, NL>> \o CMT \o <<NL, NL>> ELSE <<>>))
\* no separator where none is needed
Glue(p, q) == LET a == p[Len(p)]
                  b == q[1]
              IN /\ ~((IsWord(a) \/ a = 46) /\ (IsWord(b) \/ b = 46))
                 /\ ~(a \in {60, 62, 61, 47} /\ b \in {60, 61, 62, 45, 47})
                 /\ ~(a = 47 /\ IsDigit(b)) /\ ~(IsDigit(a) /\ b = 47)
                 /\ ~(b = 40 /\ p = Txt("OUTPUT"))
RECURSIVE Dense(_, _)
Dense(i, acc) ==
  IF i > Len(w) THEN acc
  ELSE Dense(i + 1, acc \o (IF i = 1 \/ Glue(P0[w[i - 1]], P0[w[i]]) THEN <<>> ELSE BL) \o P0[w[i]])

TOP == Codes("// top") \o <<NL, 32, 13, NL, NL>>
\* tokens without positions, line breaks collapsed
TV(t) == <<t.t, t.v>>
RECURSIVE Flat(_, _, _)
Flat(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF ts[i].t = "NL" /\ (acc = <<>> \/ acc[Len(acc)][1] = "NL") THEN Flat(ts, i + 1, acc)
  ELSE Flat(ts, i + 1, Append(acc, TV(ts[i])))
SameExact(x, y) == x.ok = y.ok /\ (x.ok => [i \in 1..Len(x.toks) |-> TV(x.toks[i])] = [i \in 1..Len(y.toks) |-> TV(y.toks[i])]
                                             /\ [i \in 1..Len(x.toks) |-> x.toks[i].l] = [i \in 1..Len(y.toks) |-> y.toks[i].l])
                          /\ (~x.ok => x.kind = y.kind /\ x.l = y.l)
\* (bound by \E so that TLC computes every tokenization once)
Lemma ==
  \E t0 \in {Lay(LAYOUTS[1], 1, <<>>)}, t1 \in {Dense(1, <<>>)} :
  \E base \in {Lex(t0, FALSE)} :
     /\ \A k \in 2..Len(LAYOUTS) : \E t \in {Lay(LAYOUTS[k], 1, <<>>)} : \E o \in {Lex(t, FALSE)} : SameExact(base, o)
     /\ \E o \in {Lex(t1, FALSE)} : SameExact(base, o)
     /\ \E t \in {Spread(1, <<>>)} : \E o \in {Lex(t, FALSE)} : o.ok = base.ok /\ (o.ok => Flat(base.toks, 1, <<>>) = Flat(o.toks, 1, <<>>))
     \* lines inserted above move every line number by their number, and nothing else
     /\ \E t \in {TOP \o t0} : \E up \in {Lex(t, FALSE)} :
           /\ up.ok = base.ok
           \* (which is what a program that starts on line 4 means)
           /\ \E at \in {LexAt(t0, FALSE, 4)} :
                 /\ at.ok = up.ok
                 /\ at.ok => at.toks = [i \in 1..Len(base.toks) |-> up.toks[i + 3]]
                 /\ ~at.ok => (at.kind = up.kind /\ at.l = up.l /\ at.c = up.c)
           /\ base.ok => /\ Len(up.toks) = Len(base.toks) + 3
                         /\ \A i \in 1..Len(base.toks) : [up.toks[i + 3] EXCEPT !.l = @ - 3] = base.toks[i]
           /\ ~base.ok => (up.kind = base.kind /\ up.l = base.l + 3 /\ up.c = base.c)
     \* the parser sees no more than that
     /\ \E a \in {Parse(t0, FALSE)}, d \in {Parse(t1, FALSE)} :
          a.ok = d.ok /\ (a.ok => a.b = d.b) /\ (~a.ok => a.k = d.k /\ a.l = d.l)
================================================================================
