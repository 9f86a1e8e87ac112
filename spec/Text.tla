-------------------------------- MODULE Text --------------------------------
(* Characters are codes 0..255, texts are sequences of codes; names of       *)
(* variables, types, ... are TLA+ strings.                                   *)
EXTENDS Integers, Sequences, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CHR1 == TLCEval([c \in 32..126 |-> SubSeq(ASCII, c - 31, c - 31)])
CODE1 == TLCEval([s \in {CHR1[c] : c \in 32..126} |-> CHOOSE c \in 32..126 : CHR1[c] = s])

Codes(s) == TLCEval([i \in 1..Len(s) |-> CODE1[SubSeq(s, i, i)]])

RECURSIVE NameFrom(_, _, _)
\* the codes src[i..j] (all printable) as a TLA+ string
NameFrom(src, i, j) ==
  IF i > j THEN ""
  ELSE IF i = j THEN CHR1[src[i]]
  ELSE LET h == (i + j) \div 2 IN NameFrom(src, i, h) \o NameFrom(src, h + 1, j)
NameOf(cs) == NameFrom(cs, 1, Len(cs))

NL == 10
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsWord(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
MapC(F(_), s) == TLCEval([i \in 1..Len(s) |-> F(s[i])])

IntText(n) == IF n = 0 THEN <<48>>
              ELSE LET RECURSIVE P(_)
                       P(x) == IF x = 0 THEN <<>> ELSE P(x \div 10) \o <<48 + (x % 10)>>
                   IN IF n < 0 THEN <<45>> \o P(-n) ELSE P(n)

\* is p a prefix of the text starting at position i of s
StartsAt(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                     /\ \A j \in 1..Len(p) : s[i + j - 1] = p[j]
Contains(s, c) == \E i \in 1..Len(s) : s[i] = c
=============================================================================
