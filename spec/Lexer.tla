------------------------------- MODULE Lexer -------------------------------
(* Text -> tokens.  Lex(src, ped) is [ok, toks] or [ok |-> FALSE, kind, l, c]*)
(* kind: "syntax" | "pedantic" | "unspec".  Carriage returns are not part of *)
(* the text at all; '//' runs to the end of the line, exclusive.             *)
EXTENDS Text, Iter, TLC

KEYWORDS == {"DIV", "MOD", "AND", "OR", "NOT", "TRUE", "FALSE", "DECLARE", "CONSTANT", "ARRAY", "TYPE",
  "ENDTYPE", "IF", "THEN", "ELSE", "ENDIF", "CASE", "OF", "OTHERWISE", "ENDCASE", "WHILE", "DO", "ENDWHILE",
  "REPEAT", "UNTIL", "FOR", "TO", "STEP", "NEXT", "BREAK", "CONTINUE", "PROCEDURE", "BYREF", "BYVAL",
  "ENDPROCEDURE", "CALL", "FUNCTION", "ENDFUNCTION", "RETURNS", "RETURN", "OUTPUT", "INPUT", "OPENFILE",
  "READFILE", "WRITEFILE", "CLOSEFILE", "READ", "WRITE", "APPEND", "RANDOM", "SEEK", "GETRECORD", "PUTRECORD"}
BASETYPES == {"INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE"}
NOPAREN == {"INPUT", "OUTPUT", "OPENFILE", "READFILE", "WRITEFILE", "CLOSEFILE"}

Tok(t, l, c, v) == [t |-> t, l |-> l, c |-> c, v |-> v]
LexErr(kind, l, c) == [ok |-> FALSE, kind |-> kind, l |-> l, c |-> c]

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE SpanWord(_, _)
SpanWord(s, i) == IF i <= Len(s) /\ IsWord(s[i]) THEN SpanWord(s, i + 1) ELSE i
RECURSIVE SpanDigits(_, _)
SpanDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SpanDigits(s, i + 1) ELSE i
SpanLine(s, i) == FirstAt(s, i, LAMBDA c : c = NL)

Digs(s, i, j) == TLCEval([n \in 1..(j - i) |-> s[i + n - 1] - 48])

Escape(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 39 -> 39 [] c = 34 -> 34 [] c = 92 -> 92 [] OTHER -> -1

\* body of a string literal from position i: <<position after closing quote, value, newlines, column shift>> or <<0,..>>
RECURSIVE StrBody(_, _, _, _, _)
StrBody(s, i, acc, nls, lastnl) ==
  IF i > Len(s) THEN <<0, "quote">>
  ELSE IF s[i] = 34 THEN <<i + 1, acc, nls, lastnl>>
  ELSE IF s[i] = 92
       THEN IF i + 1 > Len(s) \/ Escape(s[i + 1]) < 0 THEN <<0, "escape", nls>>
            ELSE StrBody(s, i + 2, Append(acc, Escape(s[i + 1])), nls, lastnl)
  ELSE IF s[i] = NL THEN StrBody(s, i + 1, Append(acc, NL), nls + 1, i)
  ELSE StrBody(s, i + 1, Append(acc, s[i]), nls, lastnl)

WordTok(w, l, c) == IF w = "PRINT" THEN Tok("OUTPUT", l, c, "")
                    ELSE IF w \in BASETYPES THEN Tok("TY", l, c, w)
                    ELSE IF w \in KEYWORDS THEN Tok(w, l, c, "")
                    ELSE Tok("ID", l, c, w)

ONE == [c \in {43, 45, 42, 40, 41, 91, 93, 58, 44, 38, 94, 46} |-> CHR1[c]]

\* One token.  st: i position, l line, b position of the first character of the line, toks, r the result once known
LexOne(s, st, ped) ==
  LET i == st.i
      l == st.l
      b == st.b
      toks == st.toks
      Go(i2, l2, b2, tk) == [st EXCEPT !.i = i2, !.l = l2, !.b = b2, !.toks = Append(@, tk)]
      Skip(i2) == [st EXCEPT !.i = i2]
      Err(e) == [st EXCEPT !.r = e]
      c == s[i]
      col == i - b + 1
      one(t) == Go(i + 1, l, b, Tok(t, l, col, ""))
      two(t) == Go(i + 2, l, b, Tok(t, l, col, ""))
  IN
  IF i > Len(s) THEN [st EXCEPT !.r = [ok |-> TRUE, toks |-> Append(toks, Tok("END", l, col, ""))]]
  ELSE IF c = 32 \/ c = 9 THEN Skip(i + 1)
  ELSE IF c = NL THEN Go(i + 1, l + 1, i + 1, Tok("NL", l, col, ""))
  ELSE IF IsAlpha(c)
       THEN LET j == SpanWord(s, i)
                w == NameFrom(s, i, j - 1)
            IN IF ped /\ w \in {"BREAK", "CONTINUE"} THEN Err(LexErr("pedantic", l, col) @@ [con |-> w])
               ELSE Go(j, l, b, WordTok(w, l, col))
  ELSE IF IsDigit(c)
       THEN LET j == SpanDigits(s, i)
            IN IF At(s, j) = 46
               THEN LET e == SpanDigits(s, j + 1)
                    IN Go(e, l, b, Tok("REAL", l, col, <<Digs(s, i, j), Digs(s, j + 1, e)>>))
               ELSE LET j2 == SpanDigits(s, j + 1)
                        e == SpanDigits(s, j2 + 1)
                    IN IF At(s, j) = 47 /\ j2 > j + 1 /\ At(s, j2) = 47 /\ e > j2 + 1
                       THEN Go(e, l, b, Tok("DATE", l, col,
                                   <<Digs(s, i, j), Digs(s, j + 1, j2), Digs(s, j2 + 1, e)>>))
                       ELSE Go(j, l, b, Tok("INT", l, col, Digs(s, i, j)))
  ELSE IF c = 34
       THEN LET r == StrBody(s, i + 1, <<>>, 0, 0)
            IN IF r[1] = 0 THEN Err(LexErr("syntax", l, col))
               ELSE Go(r[1], l + r[3], IF r[3] = 0 THEN b ELSE r[4] + 1,
                          Tok("STR", l + r[3], col, r[2]))
  ELSE IF c = 39
       THEN IF i + 2 > Len(s) THEN Err(LexErr("syntax", l, col))
            ELSE IF s[i + 1] = 92
                 THEN IF Escape(At(s, i + 2)) < 0 \/ At(s, i + 3) # 39 THEN Err(LexErr("syntax", l, col))
                      ELSE Go(i + 4, l, b, Tok("CHR", l, col, Escape(s[i + 2])))
            ELSE IF s[i + 1] = 39 \/ s[i + 2] # 39 THEN Err(LexErr("syntax", l, col))
            ELSE IF s[i + 1] = NL
                 THEN Go(i + 3, l + 1, i + 2, Tok("CHR", l + 1, col, NL))
            ELSE Go(i + 3, l, b, Tok("CHR", l, col, s[i + 1]))
  ELSE IF c = 47
       THEN IF At(s, i + 1) = 47 THEN Skip(SpanLine(s, i)) ELSE one("/")
  ELSE IF c = 61 THEN IF At(s, i + 1) = 61 THEN Err(LexErr("syntax", l, col)) ELSE one("=")
  ELSE IF c = 62 THEN IF At(s, i + 1) = 61 THEN two(">=") ELSE one(">")
  ELSE IF c = 60 THEN CASE At(s, i + 1) = 61 -> two("<=") [] At(s, i + 1) = 62 -> two("<>")
                        [] At(s, i + 1) = 45 -> two("<-") [] OTHER -> one("<")
  ELSE IF c = 40 /\ i > 1 /\ toks # <<>> /\ s[i - 1] \notin {32, 9}
          /\ toks[Len(toks)].t \in NOPAREN THEN Err(LexErr("syntax", l, col))
  ELSE IF c \in DOMAIN ONE THEN one(ONE[c])
  ELSE Err(LexErr("syntax", l, col))

NoCR(s) == SelectSeq(s, LAMBDA c : c # 13)
\* the tokens of src, whose first line has the number l0
LexAt(src, ped, l0) ==
  LET s == NoCR(src)
      go == [ok |-> FALSE, kind |-> "go"]
      st0 == [i |-> 1, l |-> l0, b |-> 1, toks |-> <<>>, r |-> go]
      F(st, k) == IF st.r = go THEN LexOne(s, st, ped) ELSE st
  IN Fold(F, st0, TLCEval([k \in 1..(Len(s) + 1) |-> k])).r
Lex(src, ped) == LexAt(src, ped, 1)
=============================================================================
