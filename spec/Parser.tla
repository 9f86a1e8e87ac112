------------------------------- MODULE Parser -------------------------------
(* Token sequence -> syntax tree.  Every parsing operator takes P = [ts, ped] *)
(* and a position and returns [i, x]: the position after the construct and   *)
(* its tree, or i = 0 and x = [k, l, c] (k: "syntax", "pedantic", "unspec").  *)
(* Parse(src, ped) = [ok |-> TRUE, b |-> block] or [ok |-> FALSE, k, l, c].   *)
EXTENDS Lexer, Num

T(P, i) == P.ts[i].t
LineAt(P, i) == P.ts[i].l
R(i, x) == [i |-> i, x |-> x]
Bad(P, i) == [i |-> 0, x |-> [k |-> "syntax", l |-> P.ts[i].l, c |-> P.ts[i].c]]
BadPed(P, i, con) == [i |-> 0, x |-> [k |-> "pedantic", l |-> P.ts[i].l, c |-> P.ts[i].c, con |-> con]]
BadK(P, i, kind) == [i |-> 0, x |-> [k |-> kind, l |-> P.ts[i].l, c |-> P.ts[i].c]]

OPS == << {"AND", "OR"}, {"=", "<>", "<", ">", "<=", ">="}, {"&"}, {"+", "-"}, {"*", "/", "DIV", "MOD"} >>
LITS == {"INT", "REAL", "TRUE", "FALSE", "CHR", "STR"}
STOPS == {"END", "ENDIF", "OTHERWISE", "ENDCASE", "ELSE", "ENDWHILE", "UNTIL", "NEXT", "ENDPROCEDURE", "ENDFUNCTION"}
ISTYPE == {"TY", "ID"}

VI(z) == [k |-> "I", z |-> z]
VB(b) == [k |-> "B", b |-> b]
VC(c) == [k |-> "C", c |-> c]
VS(s) == [k |-> "S", s |-> s]

RECURSIVE SkipNL(_, _)
SkipNL(P, i) == IF T(P, i) = "NL" THEN SkipNL(P, i + 1) ELSE i

Lit(P, i) ==
  LET k == P.ts[i]
      n(v) == R(i + 1, [t |-> "lit", l |-> k.l, v |-> v])
  IN CASE k.t = "INT" -> LET a == NOfDigits(k.v)
                         IN IF NCmp(a, MAX63) > 0 THEN BadK(P, i, "unspec") ELSE n(VI(ZMk(1, a)))
       [] k.t = "REAL" -> LET x == ROfDigits(k.v[1], k.v[2])
                          IN IF x.k = "U" THEN BadK(P, i, "unspec") ELSE n(x)
       [] k.t = "TRUE" -> n(VB(TRUE))
       [] k.t = "FALSE" -> n(VB(FALSE))
       [] k.t = "CHR" -> n(VC(k.v))
       [] k.t = "STR" -> n(VS(k.v))

TyOf(P, i) == <<P.ts[i].t, P.ts[i].v>>

RECURSIVE PExp(_, _, _), PRest(_, _, _), PAtom(_, _), PPath(_, _), PSteps(_, _, _), PList(_, _, _, _), PArgs(_, _)

\* a comma separated list of expressions of level n
PList(P, i, n, acc) ==
  LET r == PExp(P, i, n)
  IN IF r.i = 0 THEN r
     ELSE IF T(P, r.i) = "," THEN PList(P, r.i + 1, n, Append(acc, r.x))
     ELSE R(r.i, Append(acc, r.x))

\* i is at '('
PArgs(P, i) ==
  IF T(P, i + 1) = ")" THEN R(i + 2, <<>>)
  ELSE LET r == PList(P, i + 1, 1, <<>>)
       IN IF r.i = 0 THEN r ELSE IF T(P, r.i) # ")" THEN Bad(P, r.i) ELSE R(r.i + 1, r.x)

PSteps(P, i, acc) ==
  CASE T(P, i) = "." -> IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
                        ELSE PSteps(P, i + 2, Append(acc, <<"f", LineAt(P, i), P.ts[i + 1].v>>))
    [] T(P, i) = "^" -> PSteps(P, i + 1, Append(acc, <<"d", LineAt(P, i)>>))
    [] T(P, i) = "[" -> LET r == PList(P, i + 1, 4, <<>>)
                        IN IF r.i = 0 THEN r
                           ELSE IF T(P, r.i) # "]" THEN Bad(P, r.i)
                           ELSE PSteps(P, r.i + 1, Append(acc, <<"i", LineAt(P, i), r.x>>))
    [] OTHER -> R(i, acc)

PPath(P, i) ==
  IF T(P, i) # "ID" THEN Bad(P, i)
  ELSE LET r == PSteps(P, i + 1, <<>>)
       IN IF r.i = 0 THEN r ELSE R(r.i, [n |-> P.ts[i].v, l |-> LineAt(P, i), s |-> r.x])

PAtom(P, i) ==
  LET t == T(P, i)
      l == LineAt(P, i)
  IN
  IF t \in LITS THEN Lit(P, i)
  ELSE IF t = "DATE" THEN R(i + 1, [t |-> "date", l |-> l, v |-> P.ts[i].v])
  ELSE IF t = "ID" /\ T(P, i + 1) = "("
       THEN LET r == PArgs(P, i + 1)
            IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "call", l |-> l, n |-> P.ts[i].v, a |-> r.x])
  ELSE IF t = "ID"
       THEN LET r == PPath(P, i)
            IN IF r.i = 0 THEN r
               ELSE IF T(P, r.i) # "<-" THEN R(r.i, [t |-> "get", l |-> l, p |-> r.x])
               ELSE IF T(P, r.i + 1) = "^"
                    THEN LET q == PPath(P, r.i + 2)
                         IN IF q.i = 0 THEN q
                            ELSE R(q.i, [t |-> "pasg", l |-> LineAt(P, r.i + 1), p |-> r.x, q |-> q.x])
                    ELSE LET q == PExp(P, r.i + 1, 1)
                         IN IF q.i = 0 THEN q
                            ELSE R(q.i, [t |-> "asg", l |-> LineAt(P, r.i), p |-> r.x, e |-> q.x])
  ELSE IF t = "("
       THEN LET r == PExp(P, i + 1, 1)
            IN IF r.i = 0 THEN r ELSE IF T(P, r.i) # ")" THEN Bad(P, r.i)
               ELSE R(r.i + 1, IF r.x.t = "get" THEN [t |-> "par", l |-> r.x.l, e |-> r.x] ELSE r.x)
  ELSE IF t = "TY"
       THEN IF P.ped THEN BadPed(P, i, "cast")
            ELSE IF T(P, i + 1) # "(" THEN Bad(P, i + 1)
            ELSE LET r == PExp(P, i + 2, 1)
                 IN IF r.i = 0 THEN r ELSE IF T(P, r.i) # ")" THEN Bad(P, r.i)
                    ELSE R(r.i + 1, [t |-> "cast", l |-> l, ty |-> P.ts[i].v, e |-> r.x])
  ELSE IF t \in {"MOD", "DIV"} /\ T(P, i + 1) = "("
       THEN LET r == PExp(P, i + 2, 1)
            IN IF r.i = 0 THEN r
               ELSE IF T(P, r.i) # "," THEN Bad(P, r.i)
               ELSE LET q == PExp(P, r.i + 1, 1)
                    IN IF q.i = 0 THEN q
                       ELSE IF T(P, q.i) # ")" THEN Bad(P, q.i)
                       ELSE R(q.i + 1, [t |-> "bin", o |-> t, l |-> l, a |-> r.x, b |-> q.x])
  ELSE Bad(P, i)

\* levels: 1 AND OR   2 comparisons   3 &   4 + -   5 * / DIV MOD   6 unary minus
PExp(P, i, n) ==
  IF n = 6
  THEN IF T(P, i) = "-"
       THEN LET r == PAtom(P, i + 1)
            IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "un", o |-> "-", l |-> LineAt(P, i), e |-> r.x])
       ELSE PAtom(P, i)
  ELSE IF n = 2 /\ T(P, i) = "NOT"
       THEN LET r == PExp(P, i + 1, 2)
            IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "un", o |-> "NOT", l |-> LineAt(P, i), e |-> r.x])
  ELSE PRest(P, PExp(P, i, n + 1), n)

PRest(P, r, n) ==
  IF r.i = 0 THEN r
  ELSE IF T(P, r.i) \notin OPS[n] THEN r
  ELSE LET q == PExp(P, r.i + 1, n + 1)
       IN IF q.i = 0 THEN q
          ELSE PRest(P, R(q.i, [t |-> "bin", o |-> T(P, r.i), l |-> LineAt(P, r.i), a |-> r.x, b |-> q.x]), n)

PEval(P, i) == PExp(P, i, 1)
PStr(P, i) == PExp(P, i, 3)
PArith(P, i) == PExp(P, i, 4)

----------------------------------------------------------------------------
RECURSIVE PIds(_, _, _), PBounds(_, _, _)
PIds(P, i, acc) ==
  IF T(P, i) # "ID" THEN Bad(P, i)
  ELSE LET a == Append(acc, P.ts[i].v)
       IN IF T(P, i + 1) = "," THEN PIds(P, i + 2, a) ELSE R(i + 1, a)

PBounds(P, i, acc) ==
  LET r == PArith(P, i)
  IN IF r.i = 0 THEN r
     ELSE IF T(P, r.i) # ":" THEN Bad(P, r.i)
     ELSE LET q == PArith(P, r.i + 1)
          IN IF q.i = 0 THEN q
             ELSE LET a == acc \o <<r.x, q.x>>
                  IN IF T(P, q.i) = "," THEN PBounds(P, q.i + 1, a) ELSE R(q.i, a)

PDeclare(P, i) ==
  LET l == LineAt(P, i)
      r == PIds(P, i + 1, <<>>)
  IN IF r.i = 0 THEN r
     ELSE IF T(P, r.i) # ":" THEN Bad(P, r.i)
     ELSE LET j == r.i + 1
          IN IF T(P, j) \in ISTYPE THEN R(j + 1, [t |-> "decl", l |-> l, ns |-> r.x, ty |-> TyOf(P, j)])
             ELSE IF T(P, j) # "ARRAY" THEN Bad(P, j)
             ELSE IF T(P, j + 1) # "[" THEN Bad(P, j + 1)
             ELSE LET b == PBounds(P, j + 2, <<>>)
                  IN IF b.i = 0 THEN b
                     ELSE IF T(P, b.i) # "]" THEN Bad(P, b.i)
                     ELSE IF T(P, b.i + 1) # "OF" THEN Bad(P, b.i + 1)
                     ELSE IF T(P, b.i + 2) \notin ISTYPE THEN Bad(P, b.i + 2)
                     ELSE R(b.i + 3, [t |-> "arr", l |-> l, ns |-> r.x, b |-> b.x, ty |-> TyOf(P, b.i + 2)])

PConst(P, i) ==
  LET l == LineAt(P, i)
  IN IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
     ELSE IF T(P, i + 2) \notin {"=", "<-"} THEN Bad(P, i + 2)
     ELSE LET neg == T(P, i + 3) = "-"
              j == IF neg THEN i + 4 ELSE i + 3
          IN IF T(P, j) \notin LITS THEN Bad(P, j)
             ELSE LET r == Lit(P, j)
                  IN IF r.i = 0 THEN r
                     ELSE R(r.i, [t |-> "const", l |-> l, n |-> P.ts[i + 1].v,
                            e |-> IF neg THEN [t |-> "un", o |-> "-", l |-> LineAt(P, i + 3), e |-> r.x] ELSE r.x])

RECURSIVE PFields(_, _, _)
PFields(P, i0, acc) ==
  LET i == SkipNL(P, i0)
  IN IF T(P, i) = "DECLARE"
     THEN LET r == PDeclare(P, i)
          IN IF r.i = 0 THEN r
             ELSE IF T(P, r.i) # "NL" THEN Bad(P, r.i)
             ELSE PFields(P, r.i + 1, Append(acc, r.x))
     ELSE IF T(P, i) = "ENDTYPE" THEN R(i + 1, acc) ELSE Bad(P, i)

PType(P, i) ==
  LET l == LineAt(P, i)
      j == SkipNL(P, i + 1)
  IN IF T(P, j) # "ID" THEN Bad(P, j)
     ELSE LET n == P.ts[j].v
          IN CASE T(P, j + 1) = "NL" ->
                    LET r == PFields(P, j + 2, <<>>)
                    IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "rtype", l |-> l, n |-> n, b |-> r.x])
               [] T(P, j + 1) = "=" /\ T(P, j + 2) = "^" ->
                    IF T(P, j + 3) \in ISTYPE
                    THEN R(j + 4, [t |-> "ptype", l |-> l, n |-> n, ty |-> TyOf(P, j + 3)])
                    ELSE Bad(P, j + 3)
               [] T(P, j + 1) = "=" /\ T(P, j + 2) = "(" ->
                    LET r == PIds(P, j + 3, <<>>)
                    IN IF r.i = 0 THEN r ELSE IF T(P, r.i) # ")" THEN Bad(P, r.i)
                       ELSE R(r.i + 1, [t |-> "etype", l |-> l, n |-> n, vs |-> r.x])
               [] T(P, j + 1) = "=" -> Bad(P, j + 2)
               [] OTHER -> Bad(P, j + 1)

\* parameter list; i is after '('.  A mode, once written, holds for the following parameters.
RECURSIVE PParams(_, _, _, _, _)
PParams(P, i0, acc, pend, byref) ==
  IF T(P, i0) = ")" THEN IF pend = <<>> THEN R(i0 + 1, acc) ELSE Bad(P, i0)
  ELSE LET first == acc = <<>> /\ pend = <<>>
           i == IF first THEN i0 ELSE i0 + 1
       IN IF ~first /\ T(P, i0) # "," THEN Bad(P, i0)
          ELSE LET m == T(P, i) \in {"BYREF", "BYVAL"}
                   br == IF m THEN T(P, i) = "BYREF" ELSE byref
                   j == IF m THEN i + 1 ELSE i
               IN IF T(P, j) # "ID" THEN Bad(P, j)
                  ELSE LET p2 == Append(pend, <<P.ts[j].v, br>>)
                       IN IF T(P, j + 1) = "," THEN PParams(P, j + 1, acc, p2, br)
                          ELSE IF T(P, j + 1) # ":" THEN Bad(P, j + 1)
                          ELSE IF T(P, j + 2) \notin ISTYPE THEN Bad(P, j + 2)
                          ELSE PParams(P, j + 3,
                                 acc \o TLCEval([q \in 1..Len(p2) |-> [n |-> p2[q][1], r |-> p2[q][2], ty |-> TyOf(P, j + 2)]]),
                                 <<>>, br)

----------------------------------------------------------------------------
RECURSIVE PBlock(_, _, _, _), PStmt(_, _), PElse(_, _, _, _), PCases(_, _, _, _, _), ColonAhead(_, _)

ColonAhead(P, i) == IF i > Len(P.ts) THEN FALSE
                    ELSE IF T(P, i) = ":" THEN TRUE
                    ELSE IF T(P, i) = "NL" THEN FALSE
                    ELSE ColonAhead(P, i + 1)

\* bt: "main", "case", "other"
PBlock(P, i0, bt, acc) ==
  LET i == SkipNL(P, i0)
  IN IF T(P, i) \in STOPS THEN R(i, acc)
     ELSE IF bt = "case" /\ T(P, i) # "DECLARE" /\ ColonAhead(P, i + 1) THEN R(i, acc)
     ELSE IF T(P, i) \in {"PROCEDURE", "FUNCTION"} /\ bt # "main" THEN Bad(P, i)
     ELSE LET r == PStmt(P, i)
          IN IF r.i = 0 THEN r
             ELSE IF T(P, r.i) \notin {"NL", "END"} THEN Bad(P, r.i)
             ELSE PBlock(P, r.i, bt, Append(acc, r.x))

Body(P, i) == PBlock(P, i, "other", <<>>)

\* after "IF cond": THEN block {ELSE IF ...} [ELSE block] ENDIF
PElse(P, i0, l, acc) ==
  LET r == PEval(P, i0)
      i == SkipNL(P, r.i)
      b == Body(P, i + 1)
      cs == Append(acc, [c |-> r.x, b |-> b.x])
  IN IF r.i = 0 THEN r
     ELSE IF T(P, i) # "THEN" THEN Bad(P, i)
     ELSE IF b.i = 0 THEN b
     ELSE IF T(P, b.i) = "ENDIF" THEN R(b.i + 1, [t |-> "if", l |-> l, cs |-> cs, e |-> <<>>])
     ELSE IF T(P, b.i) # "ELSE" THEN Bad(P, b.i)
     ELSE IF T(P, b.i + 1) = "IF"
          THEN IF P.ped THEN BadPed(P, b.i + 1, "ELSE IF") ELSE PElse(P, b.i + 2, l, cs)
          ELSE LET e == Body(P, b.i + 1)
               IN IF e.i = 0 THEN e
                  ELSE IF T(P, e.i) # "ENDIF" THEN Bad(P, e.i)
                  ELSE R(e.i + 1, [t |-> "if", l |-> l, cs |-> cs, e |-> e.x])

PCases(P, i, l, v, acc) ==
  IF T(P, i) = "ENDCASE" THEN R(i + 1, [t |-> "case", l |-> l, v |-> v, cs |-> acc])
  ELSE IF T(P, i) = "OTHERWISE"
       THEN IF T(P, i + 1) # ":" THEN Bad(P, i + 1)
            ELSE LET b == PBlock(P, i + 2, "case", <<>>)
                 IN IF b.i = 0 THEN b
                    ELSE IF T(P, b.i) # "ENDCASE" THEN Bad(P, b.i)
                    ELSE R(b.i + 1, [t |-> "case", l |-> l, v |-> v, cs |-> Append(acc, [k |-> "oth", b |-> b.x])])
  ELSE LET r == PEval(P, i)
       IN IF r.i = 0 THEN r
          ELSE LET rng == T(P, r.i) = "TO"
                   q == IF rng THEN PEval(P, r.i + 1) ELSE r
               IN IF q.i = 0 THEN q
                  ELSE IF T(P, q.i) # ":" THEN Bad(P, q.i)
                  ELSE LET b == PBlock(P, q.i + 1, "case", <<>>)
                       IN IF b.i = 0 THEN b
                          ELSE PCases(P, b.i, l, v,
                                 Append(acc, IF rng THEN [k |-> "rng", lo |-> r.x, hi |-> q.x, b |-> b.x]
                                                    ELSE [k |-> "eq", e |-> r.x, b |-> b.x]))

\* "KEYWORD filename , ID"
PFileVar(P, i, t) ==
  LET f == PStr(P, i + 1)
  IN IF f.i = 0 THEN f
     ELSE IF T(P, f.i) # "," THEN Bad(P, f.i)
     ELSE IF T(P, f.i + 1) # "ID" THEN Bad(P, f.i + 1)
     ELSE R(f.i + 2, [t |-> t, l |-> LineAt(P, i), f |-> f.x, n |-> P.ts[f.i + 1].v])
PFileExp(P, i, t) ==
  LET f == PStr(P, i + 1)
  IN IF f.i = 0 THEN f
     ELSE IF T(P, f.i) # "," THEN Bad(P, f.i)
     ELSE LET e == PEval(P, f.i + 1)
          IN IF e.i = 0 THEN e ELSE R(e.i, [t |-> t, l |-> LineAt(P, i), f |-> f.x, e |-> e.x])

PStmt(P, i) ==
  LET t == T(P, i)
      l == LineAt(P, i)
  IN
  CASE t = "DECLARE" -> PDeclare(P, i)
    [] t = "CONSTANT" -> PConst(P, i)
    [] t = "TYPE" -> PType(P, i)
    [] t = "IF" -> PElse(P, i + 1, l, <<>>)
    [] t = "CASE" ->
         IF T(P, i + 1) # "OF" THEN Bad(P, i + 1)
         ELSE IF T(P, i + 2) # "ID" THEN Bad(P, i + 2)
         ELSE PCases(P, SkipNL(P, i + 3), l,
                [t |-> "get", l |-> LineAt(P, i + 2), p |-> [n |-> P.ts[i + 2].v, l |-> LineAt(P, i + 2), s |-> <<>>]], <<>>)
    [] t = "WHILE" ->
         LET r == PEval(P, i + 1)
         IN IF r.i = 0 THEN r
            ELSE LET j0 == SkipNL(P, r.i)
                     j == IF T(P, j0) = "DO" THEN j0 + 1 ELSE j0
                     b == Body(P, j)
                 IN IF b.i = 0 THEN b
                    ELSE IF T(P, b.i) # "ENDWHILE" THEN Bad(P, b.i)
                    ELSE R(b.i + 1, [t |-> "while", l |-> l, c |-> r.x, b |-> b.x])
    [] t = "REPEAT" ->
         LET b == Body(P, i + 1)
         IN IF b.i = 0 THEN b
            ELSE IF T(P, b.i) # "UNTIL" THEN Bad(P, b.i)
            ELSE LET r == PEval(P, b.i + 1)
                 IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "repeat", l |-> l, c |-> r.x, b |-> b.x])
    [] t = "FOR" ->
         IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
         ELSE IF T(P, i + 2) # "<-" THEN Bad(P, i + 2)
         ELSE LET a == PArith(P, i + 3)
              IN IF a.i = 0 THEN a
                 ELSE IF T(P, a.i) # "TO" THEN Bad(P, a.i)
                 ELSE LET z == PArith(P, a.i + 1)
                      IN IF z.i = 0 THEN z
                         ELSE LET st == T(P, z.i) = "STEP"
                                  s == IF st THEN PArith(P, z.i + 1) ELSE R(z.i, [t |-> "lit", l |-> l, v |-> VI(Z1)])
                              IN IF s.i = 0 THEN s
                                 ELSE LET b == Body(P, s.i)
                                      IN IF b.i = 0 THEN b
                                         ELSE IF T(P, b.i) # "NEXT" THEN Bad(P, b.i)
                                         ELSE IF T(P, b.i + 1) = "ID" /\ P.ts[b.i + 1].v # P.ts[i + 1].v THEN Bad(P, b.i + 1)
                                         ELSE R(IF T(P, b.i + 1) = "ID" THEN b.i + 2 ELSE b.i + 1,
                                                [t |-> "for", l |-> l, n |-> P.ts[i + 1].v, a |-> a.x, z |-> z.x, s |-> s.x, b |-> b.x])
    [] t = "CALL" ->
         IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
         ELSE LET r == IF T(P, i + 2) = "(" THEN PArgs(P, i + 2) ELSE R(i + 2, <<>>)
              IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "callp", l |-> l, n |-> P.ts[i + 1].v, a |-> r.x])
    [] t = "PROCEDURE" ->
         IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
         ELSE LET ps == IF T(P, i + 2) = "(" THEN PParams(P, i + 3, <<>>, <<>>, FALSE) ELSE R(i + 2, <<>>)
              IN IF ps.i = 0 THEN ps
                 ELSE LET b == Body(P, ps.i)
                      IN IF b.i = 0 THEN b
                         ELSE IF T(P, b.i) # "ENDPROCEDURE" THEN Bad(P, b.i)
                         ELSE R(b.i + 1, [t |-> "proc", l |-> l, n |-> P.ts[i + 1].v, ps |-> ps.x, b |-> b.x])
    [] t = "FUNCTION" ->
         IF T(P, i + 1) # "ID" THEN Bad(P, i + 1)
         ELSE LET ps == IF T(P, i + 2) = "(" THEN PParams(P, i + 3, <<>>, <<>>, FALSE) ELSE R(i + 2, <<>>)
              IN IF ps.i = 0 THEN ps
                 ELSE LET j == SkipNL(P, ps.i)
                      IN IF T(P, j) # "RETURNS" THEN Bad(P, j)
                         ELSE IF T(P, j + 1) \notin ISTYPE THEN Bad(P, j + 1)
                         ELSE LET b == Body(P, j + 2)
                              IN IF b.i = 0 THEN b
                                 ELSE IF T(P, b.i) # "ENDFUNCTION" THEN Bad(P, b.i)
                                 ELSE R(b.i + 1, [t |-> "func", l |-> l, n |-> P.ts[i + 1].v, ps |-> ps.x,
                                                  ret |-> TyOf(P, j + 1), b |-> b.x])
    [] t = "OUTPUT" ->
         LET r == PList(P, i + 1, 1, <<>>)
         IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "out", l |-> l, es |-> r.x])
    [] t \in {"READ", "INPUT"} ->
         LET r == PPath(P, i + 1)
         IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "inp", l |-> l, p |-> r.x])
    [] t = "OPENFILE" ->
         LET f == PStr(P, i + 1)
         IN IF f.i = 0 THEN f
            ELSE IF T(P, f.i) # "FOR" THEN Bad(P, f.i)
            ELSE IF T(P, f.i + 1) \notin {"READ", "WRITE", "APPEND", "RANDOM"} THEN Bad(P, f.i + 1)
            ELSE R(f.i + 2, [t |-> "open", l |-> l, f |-> f.x, md |-> T(P, f.i + 1)])
    [] t = "READFILE" -> PFileVar(P, i, "readf")
    [] t = "GETRECORD" -> PFileVar(P, i, "getr")
    [] t = "PUTRECORD" -> PFileVar(P, i, "putr")
    [] t = "WRITEFILE" -> PFileExp(P, i, "writef")
    [] t = "SEEK" -> PFileExp(P, i, "seek")
    [] t = "CLOSEFILE" -> LET f == PStr(P, i + 1)
                          IN IF f.i = 0 THEN f ELSE R(f.i, [t |-> "closef", l |-> l, f |-> f.x])
    [] t = "RETURN" -> LET r == PEval(P, i + 1)
                       IN IF r.i = 0 THEN r ELSE R(r.i, [t |-> "ret", l |-> l, e |-> r.x])
    [] t = "BREAK" -> R(i + 1, [t |-> "brk", l |-> l])
    [] t = "CONTINUE" -> R(i + 1, [t |-> "cont", l |-> l])
    [] OTHER -> PEval(P, i)

ParseAt(src, ped, l0) ==
  LET x == LexAt(src, ped, l0)
  IN IF ~x.ok THEN [ok |-> FALSE, k |-> x.kind, l |-> x.l, c |-> x.c, con |-> IF x.kind = "pedantic" THEN x.con ELSE ""]
     ELSE LET P == [ts |-> x.toks, ped |-> ped]
              r == PBlock(P, 1, "main", <<>>)
          IN IF r.i = 0 THEN [ok |-> FALSE] @@ r.x
             ELSE IF T(P, r.i) # "END" THEN [ok |-> FALSE] @@ Bad(P, r.i).x
             ELSE [ok |-> TRUE, b |-> r.x]
Parse(src, ped) == ParseAt(src, ped, 1)
=============================================================================
