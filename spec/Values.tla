------------------------------- MODULE Values -------------------------------
(* Values, types, operators, casts and built-in functions.                    *)
(*  [k|->"I",z] [k|->"R",m,e] [k|->"B",b] [k|->"C",c] [k|->"S",s]             *)
(*  [k|->"D",d,m,y] [k|->"E",t,i] [k|->"P",t,r] [k|->"O",t,f]                 *)
(*  [k|->"A",d,ty,e] [k|->"N"] (no value)                                     *)
(*  [k|->"U",t,g]  a value of type t the specification does not determine     *)
(*                 (g = <<>> or a closed numeric interval <<lo, hi>> of Z)    *)
(* Operators return a value, X (run-time error) or Z (left open).             *)
(* Types: <<"I">> <<"R">> <<"B">> <<"C">> <<"S">> <<"D">>,                    *)
(*        <<"E"|"P"|"O", name, activation that defined it>>, <<"A", dims, t>> *)
EXTENDS Parser, Calendar, FiniteSets

TI == <<"I">>
TR == <<"R">>
TB == <<"B">>
TC == <<"C">>
TS == <<"S">>
TD == <<"D">>
BaseTy(n) == CASE n = "INTEGER" -> TI [] n = "REAL" -> TR [] n = "BOOLEAN" -> TB
               [] n = "CHAR" -> TC [] n = "STRING" -> TS [] OTHER -> TD

NOVAL == [k |-> "N"]
UV(t) == [k |-> "U", t |-> t, g |-> <<>>]
XL(l, b) == [k |-> "X", l |-> l, b |-> b]   \* error on line l; b: raised inside a built-in
X == XL(0, FALSE)
Z(w) == [k |-> "Z", w |-> w]
IsBad(v) == v.k = "X" \/ v.k = "Z"
AtLine(v, l) == IF v.k = "X" THEN (IF v.l = 0 THEN [v EXCEPT !.l = l] ELSE v) ELSE v
RW(v) == IF v.k = "U" THEN UV(TR) ELSE v
\* an INTEGER result; 64-bit overflow is left open by the properties
IW(z) == IF In64(z) THEN VI(z) ELSE Z("overflow")

KindOf(v) == IF v.k = "U" THEN v.t[1] ELSE v.k
TypeOf(v) == CASE v.k \in {"E", "P", "O", "U"} -> v.t
               [] v.k = "A" -> <<"A", v.d, v.ty>>
               [] OTHER -> <<v.k>>
IsU(v) == v.k = "U"
IsNumK(k) == k = "I" \/ k = "R"
IsPrimK(k) == k \in {"I", "R", "B", "C", "S", "D"}
ToR(v) == IF v.k = "I" THEN RW(ROfZ(v.z)) ELSE v

\* The three documented implicit conversions; "M": not storable.
Conv(v, ty) ==
  LET t == TypeOf(v)
  IN IF t = ty THEN v
     ELSE CASE t = TI /\ ty = TR -> IF IsU(v) THEN UV(TR) ELSE ToR(v)
            [] t = TS /\ ty = TC -> IF IsU(v) THEN Z("string") ELSE IF Len(v.s) = 1 THEN VC(v.s[1]) ELSE [k |-> "M"]
            [] t = TC /\ ty = TS -> IF IsU(v) THEN UV(TS) ELSE VS(<<v.c>>)
            [] OTHER -> [k |-> "M"]

DateText(v) == ZText(<<v.d>>) \o <<47>> \o ZText(<<v.m>>) \o <<47>> \o ZText(<<v.y>>)
BoolText(b) == IF b THEN <<84, 82, 85, 69>> ELSE <<70, 65, 76, 83, 69>>
\* text of a primitive value for '&', WRITEFILE, STRING()
StrOf(v) == CASE v.k = "I" -> ZText(v.z) [] v.k = "R" -> FmtF(v) [] v.k = "B" -> BoolText(v.b)
              [] v.k = "C" -> <<v.c>> [] v.k = "S" -> v.s [] v.k = "D" -> DateText(v)

----------------------------------------------------------------------------
NumCmp(a, b) == IF a.k = "I" /\ b.k = "I" THEN ZCmp(a.z, b.z) ELSE RCmp(ToR(a), ToR(b))
CmpRes(o, c) == VB(CASE o = "=" -> c = 0 [] o = "<>" -> c # 0 [] o = "<" -> c < 0
                     [] o = "<=" -> c <= 0 [] o = ">" -> c > 0 [] o = ">=" -> c >= 0)
\* comparison of a number with an interval lo..hi, decided only if every member agrees
IvRes(o, a, b) ==   \* a is the interval value, b a known number
  LET lo == VI(a.g[1])
      hi == VI(a.g[2])
      c1 == CmpRes(o, NumCmp(lo, b))
      c2 == CmpRes(o, NumCmp(hi, b))
  IN IF o \in {"<", "<=", ">", ">="} /\ c1 = c2 THEN c1 ELSE UV(TB)
Mirror(o) == CASE o = "<" -> ">" [] o = "<=" -> ">=" [] o = ">" -> "<" [] o = ">=" -> "<=" [] OTHER -> o

Compare(o, a, b) ==
  LET ka == KindOf(a)
      kb == KindOf(b)
      eq == o \in {"=", "<>"}
  IN IF ka = "N" \/ kb = "N" THEN (IF eq THEN Z("comparison without a value") ELSE X)
     ELSE IF IsNumK(ka) /\ IsNumK(kb)
     THEN IF IsU(a) /\ IsU(b) THEN UV(TB)
          ELSE IF IsU(a) THEN (IF a.g = <<>> THEN UV(TB) ELSE IvRes(o, a, b))
          ELSE IF IsU(b) THEN (IF b.g = <<>> THEN UV(TB) ELSE IvRes(Mirror(o), b, a))
          ELSE LET ra == ToR(a)
                   rb == ToR(b)
               IN IF IsU(ra) \/ IsU(rb) THEN UV(TB) ELSE CmpRes(o, NumCmp(a, b))
     ELSE IF ka # kb THEN (IF eq THEN VB(o = "<>") ELSE X)
     ELSE IF ka \in {"P", "O", "A"} THEN (IF eq /\ TypeOf(a) # TypeOf(b) THEN Z("comparison of composite types") ELSE X)
     ELSE IF ~eq /\ ka \notin {"C", "D"} THEN X
     ELSE IF ka = "E" /\ TypeOf(a) # TypeOf(b) THEN VB(o = "<>")
     ELSE IF IsU(a) \/ IsU(b) THEN UV(TB)
     ELSE CASE ka = "C" -> IF eq THEN CmpRes(o, IF a.c = b.c THEN 0 ELSE 1)
                           ELSE IF a.c > 127 \/ b.c > 127 THEN UV(TB) ELSE CmpRes(o, a.c - b.c)
            [] ka = "D" -> CmpRes(o, DateCmp(<<a.d, a.m, a.y>>, <<b.d, b.m, b.y>>))
            [] ka = "B" -> CmpRes(o, IF a.b = b.b THEN 0 ELSE 1)
            [] ka = "S" -> CmpRes(o, IF a.s = b.s THEN 0 ELSE 1)
            [] ka = "E" -> CmpRes(o, IF a.i = b.i THEN 0 ELSE 1)

\* q * b = a without rounding (mantissas are kept odd)
RProdIs(q, b, a) == IF RIsZero(q) \/ RIsZero(a) THEN RIsZero(q) /\ RIsZero(a) ELSE ZMul(q.m, b.m) = a.m /\ q.e + b.e = a.e
\* REAL DIV / MOD: floor of the quotient; the remainder where the quotient is exact
RDivMod(o, a, b) ==
  LET q == RDiv(a, b)
  IN IF q.k = "U" THEN UV(IF o = "DIV" THEN TI ELSE TR)
     ELSE LET f == RFloor(q)
          IN IF o = "DIV"
             THEN IF RIsInt(q) /\ ~RProdIs(q, b, a) THEN UV(TI) ELSE IW(f)
             ELSE IF ~RProdIs(q, b, a) THEN UV(TR)
             ELSE IF RIsInt(q) THEN [UV(TR) EXCEPT !.g = <<Z0, Z0>>]     \* a zero of either sign
             ELSE IF NBits(ZMag(f)) > 50 THEN UV(TR)
             ELSE RW(RSub(a, RMul(ROfZ(f), b)))

\* number of values of an enumerated type; fr: the activations, which hold the definitions
NV(fr, t) == Len(fr[t[3]].ty[t[2]].vs)

\* dm: rounding direction of DIV (and hence MOD) for negative operands, left open by C02
Arith(o, a, b, dm, fr) ==
  LET ka == KindOf(a)
      kb == KindOf(b)
      un == IsU(a) \/ IsU(b)
      ii == ka = "I" /\ kb = "I"
      zero == IF IsU(b) THEN FALSE ELSE IF kb = "I" THEN b.z = Z0 ELSE RIsZero(b)
  IN IF ka = "E" /\ kb = "I" /\ o \in {"+", "-"}
     THEN IF un THEN UV(a.t)
          ELSE LET n == NV(fr, a.t)
                   k == ZInt(ZDivMod(b.z, <<n>>, "floor")[2])
               IN [a EXCEPT !.i = IF o = "+" THEN (a.i + k) % n ELSE (a.i - k + n) % n]
     ELSE IF ka = "I" /\ kb = "E" /\ o \in {"+", "-"}
     THEN IF o = "-" THEN Z("int-enum")
          ELSE IF un THEN UV(b.t)
          ELSE LET n == NV(fr, b.t)
               IN [b EXCEPT !.i = (b.i + ZInt(ZDivMod(a.z, <<n>>, "floor")[2])) % n]
     ELSE IF ~IsNumK(ka) \/ ~IsNumK(kb) THEN X
     ELSE IF o \in {"/", "DIV", "MOD"} /\ zero THEN X
     ELSE IF un THEN (IF o \in {"/", "DIV", "MOD"} /\ IsU(b) THEN Z("divisor")
                      ELSE UV(IF o = "/" THEN TR ELSE IF o = "DIV" THEN TI ELSE IF ii THEN TI ELSE TR))
     ELSE IF ii /\ o # "/"
     THEN CASE o = "+" -> IW(ZAdd(a.z, b.z)) [] o = "-" -> IW(ZSub(a.z, b.z)) [] o = "*" -> IW(ZMul(a.z, b.z))
            [] o = "DIV" -> IW(ZDivMod(a.z, b.z, dm)[1])
            [] o = "MOD" -> VI(ZDivMod(a.z, b.z, dm)[2])
     ELSE LET x == ToR(a)
              y == ToR(b)
          IN IF IsU(x) \/ IsU(y) THEN UV(IF o = "DIV" THEN TI ELSE TR)
             ELSE CASE o = "+" -> RW(RAdd(x, y)) [] o = "-" -> RW(RSub(x, y)) [] o = "*" -> RW(RMul(x, y))
                    [] o = "/" -> RW(RDiv(x, y))
                    [] OTHER -> RDivMod(o, x, y)

Concat(a, b) ==
  IF ~IsPrimK(KindOf(a)) \/ ~IsPrimK(KindOf(b)) THEN X
  ELSE IF IsU(a) \/ IsU(b) THEN UV(TS) ELSE VS(StrOf(a) \o StrOf(b))

Logic(o, a, b) ==
  IF KindOf(a) # "B" \/ KindOf(b) # "B" THEN X
  ELSE IF o = "AND" /\ ((b.k = "B" /\ ~b.b) \/ (a.k = "B" /\ ~a.b)) THEN VB(FALSE)
  ELSE IF o = "OR" /\ ((b.k = "B" /\ b.b) \/ (a.k = "B" /\ a.b)) THEN VB(TRUE)
  ELSE IF IsU(a) \/ IsU(b) THEN UV(TB)
  ELSE VB(IF o = "AND" THEN a.b /\ b.b ELSE a.b \/ b.b)

ARITH == {"+", "-", "*", "/", "DIV", "MOD"}
BinOp(o, a, b, dm, fr) ==
  IF o \in ARITH THEN Arith(o, a, b, dm, fr)
  ELSE IF o = "&" THEN Concat(a, b)
  ELSE IF o \in {"AND", "OR"} THEN Logic(o, a, b)
  ELSE Compare(o, a, b)

UnOp(o, v) ==
  IF o = "NOT" THEN (IF KindOf(v) # "B" THEN X ELSE IF IsU(v) THEN v ELSE VB(~v.b))
  ELSE CASE KindOf(v) = "I" -> IF IsU(v) THEN UV(TI) ELSE IW(ZNeg(v.z))
         [] KindOf(v) = "R" -> IF IsU(v) THEN UV(TR) ELSE RNeg(v)
         [] OTHER -> X

----------------------------------------------------------------------------
(* Classification of a text read as a number.                                *)
(*   [c |-> "num", s, ip, fp, dot]  decimal numeral: sign, digits            *)
(*   [c |-> "bad"] no numeral in any notation: converts to 0                 *)
(*   [c |-> "open"] another notation (exponent, hex, inf, blanks, ...)       *)
EChars == {43, 45, 46, 69, 101}
NumText(s) ==
  LET sg == IF s # <<>> /\ s[1] \in {43, 45} THEN 1 ELSE 0
      t == SubSeq(s, sg + 1, Len(s))
      n == Len(t)
      Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
      dots == {i \in 1..n : t[i] = 46}
      digs == {i \in 1..n : IsDigit(t[i])}
  IN IF s = <<>> THEN [c |-> "bad"]
     ELSE IF Blank(s[1]) \/ Blank(s[Len(s)]) THEN [c |-> "open"]
     ELSE IF n = 0 THEN [c |-> "bad"]
     ELSE IF digs # {} /\ Cardinality(dots) <= 1 /\ \A i \in 1..n : IsDigit(t[i]) \/ t[i] = 46
     THEN LET p == IF dots = {} THEN n + 1 ELSE CHOOSE i \in dots : TRUE
          IN [c |-> "num", s |-> IF sg = 1 /\ s[1] = 45 THEN -1 ELSE 1, sg |-> sg, dot |-> dots # {},
              ip |-> TLCEval([i \in 1..(p - 1) |-> t[i] - 48]),
              fp |-> IF dots = {} THEN <<>> ELSE TLCEval([i \in 1..(n - p) |-> t[p + i] - 48])]
     ELSE IF t[1] \in {73, 105, 78, 110} THEN [c |-> "open"]
     ELSE IF n >= 2 /\ t[1] = 48 /\ t[2] \in {88, 120} THEN [c |-> "open"]
     ELSE IF (\A i \in 1..n : IsDigit(t[i]) \/ t[i] \in EChars) /\ (\E i \in 1..n : t[i] \in {69, 101})
             /\ (IsDigit(t[1]) \/ t[1] = 46)
     THEN [c |-> "open"]
     ELSE [c |-> "bad"]

TextReal(s) == LET q == NumText(s)
               IN CASE q.c = "bad" -> RZero
                    [] q.c = "open" -> UV(TR)
                    [] OTHER -> LET r == RW(ROfDigits(q.ip, q.fp))
                                IN IF IsU(r) THEN r ELSE IF q.s < 0 THEN RNeg(r) ELSE r
TextInt(s) == LET q == NumText(s)
              IN CASE q.c = "bad" -> VI(Z0)
                   [] q.c = "open" -> UV(TI)
                   [] OTHER -> IF q.dot THEN VI(Z0)
                               ELSE LET z == ZMk(q.s, NOfDigits(q.ip)) IN IF In64(z) THEN VI(z) ELSE UV(TI)

Cast(ty, v) ==
  LET t == BaseTy(ty)
      k == KindOf(v)
  IN IF ~IsPrimK(k) THEN X
     ELSE IF <<k>> = t THEN v
     ELSE IF t = TD THEN X
     ELSE IF IsU(v) THEN UV(t)
     ELSE CASE t = TS -> VS(StrOf(v))
            [] k = "D" -> IF t = TI THEN UV(t) ELSE X
            [] t = TI -> (CASE k = "R" -> LET z == RTrunc(v) IN IF In64(z) THEN VI(z) ELSE Z("cast")
                           [] k = "B" -> VI(<<IF v.b THEN 1 ELSE 0>>)
                           [] k = "C" -> IF v.c > 127 THEN UV(TI) ELSE VI(<<v.c>>)
                           [] k = "S" -> TextInt(v.s))
            [] t = TR -> (CASE k = "I" -> ToR(v)
                           [] k = "B" -> ROfZ(<<IF v.b THEN 1 ELSE 0>>)
                           [] k = "C" -> IF v.c > 127 THEN UV(TR) ELSE ROfZ(<<v.c>>)
                           [] k = "S" -> TextReal(v.s))
            [] t = TB -> VB(CASE k = "I" -> v.z # Z0 [] k = "R" -> ~RIsZero(v) [] k = "C" -> v.c # 0 [] k = "S" -> v.s # <<>>)
            [] t = TC -> IF k = "I" /\ ZSmall(v.z) /\ v.z[1] \in 0..255 THEN VC(v.z[1]) ELSE UV(TC)

----------------------------------------------------------------------------
(* Built-in functions: parameter types and results.                          *)
BUILTINS ==
  [LENGTH |-> <<TS>>, LEFT |-> <<TS, TI>>, RIGHT |-> <<TS, TI>>, MID |-> <<TS, TI, TI>>,
   TO_UPPER |-> <<TS>>, TO_LOWER |-> <<TS>>, NUM_TO_STR |-> <<TR>>, STR_TO_NUM |-> <<TS>>, IS_NUM |-> <<TS>>,
   EOF |-> <<TS>>, LCASE |-> <<TC>>, UCASE |-> <<TC>>, ASC |-> <<TC>>, CHR |-> <<TI>>,
   DAY |-> <<TD>>, MONTH |-> <<TD>>, YEAR |-> <<TD>>, DAYINDEX |-> <<TD>>, SETDATE |-> <<TI, TI, TI>>,
   TODAY |-> <<>>, TIME |-> <<>>, HOURS |-> <<>>, MINUTES |-> <<>>, SECONDS |-> <<>>,
   RAND |-> <<TI>>, INT |-> <<TR>>, POW |-> <<TR, TR>>, EXP |-> <<TR>>, SIN |-> <<TR>>, COS |-> <<TR>>,
   TAN |-> <<TR>>, ASIN |-> <<TR>>, ACOS |-> <<TR>>, ATAN |-> <<TR>>, ATAN2 |-> <<TR, TR>>, SQRT |-> <<TR>>,
   LOG |-> <<TR>>, LN |-> <<TR>>]
RetTy(n) == CASE n \in {"LENGTH", "ASC", "DAY", "MONTH", "YEAR", "DAYINDEX", "INT", "TIME", "HOURS", "MINUTES", "SECONDS"} -> TI
              [] n \in {"LEFT", "RIGHT", "MID", "TO_UPPER", "TO_LOWER", "NUM_TO_STR"} -> TS
              [] n \in {"IS_NUM", "EOF"} -> TB
              [] n \in {"LCASE", "UCASE", "CHR"} -> TC
              [] n \in {"SETDATE", "TODAY"} -> TD
              [] OTHER -> TR

\* a TLC integer for lengths and positions: saturated, so every huge value is outside any string
Sat(z) == IF ZSmall(z) THEN z[1] ELSE z[1] * LIM30
MakeDate(d, m, y) ==   \* three Z
  LET dd == Sat(d)
      mm == Sat(m)
      yy == Sat(y)
  IN IF mm \notin 1..12 \/ dd \notin 1..31 THEN X
     ELSE IF yy \notin -32767..32767 THEN X   \* proleptic, with a year 0
     ELSE IF ValidDM(dd, mm, yy) THEN [k |-> "D", d |-> dd, m |-> mm, y |-> yy] ELSE X

RECURSIVE RPowN(_, _)
RPowN(x, n) == IF n = 0 THEN ROfZ(Z1) ELSE RMul(x, RPowN(x, n - 1))
Pow(x, y) ==
  LET r == RPowN(x, ZInt(RTrunc(y)))
  IN IF RIsInt(x) /\ RIsInt(y) /\ ZSmall(RTrunc(x)) /\ ZSmall(RTrunc(y)) /\ ZInt(RTrunc(y)) \in 0..52
        /\ ZInt(RTrunc(x)) \in -1000..1000
     THEN IF r.k # "U" /\ NBits(ZMag(r.m)) <= 50 THEN r ELSE UV(TR)
     ELSE UV(TR)
Sqrt(x) ==
  IF RIsInt(x) /\ ZSmall(RTrunc(x)) /\ ZInt(RTrunc(x)) \in 0..10000
  THEN LET n == ZInt(RTrunc(x))
           c == {i \in 0..100 : i * i = n}
       IN IF c = {} THEN UV(TR) ELSE ROfZ(<<CHOOSE i \in c : TRUE>>)
  ELSE UV(TR)

\* a: argument values already converted to the parameter types, all known
BuiltinVal(n, a) ==
  CASE n = "LENGTH" -> VI(<<Len(a[1].s)>>)
    [] n = "LEFT" -> LET k == Sat(a[2].z) IN IF k < 0 \/ k > Len(a[1].s) THEN X ELSE VS(SubSeq(a[1].s, 1, k))
    [] n = "RIGHT" -> LET k == Sat(a[2].z)
                          len == Len(a[1].s)
                      IN IF k < 0 \/ k > len THEN X ELSE VS(SubSeq(a[1].s, len - k + 1, len))
    [] n = "MID" -> LET i == Sat(a[2].z)
                        k == Sat(a[3].z)
                        len == Len(a[1].s)
                    IN IF i < 1 \/ i > len \/ k < 0 \/ k > len - i + 1 THEN X ELSE VS(SubSeq(a[1].s, i, i + k - 1))
    [] n = "TO_UPPER" -> VS(MapC(UpperC, a[1].s))
    [] n = "TO_LOWER" -> VS(MapC(LowerC, a[1].s))
    [] n = "LCASE" -> VC(LowerC(a[1].c))
    [] n = "UCASE" -> VC(UpperC(a[1].c))
    [] n = "ASC" -> IF a[1].c > 127 THEN UV(TI) ELSE VI(<<a[1].c>>)
    [] n = "CHR" -> IF ZSmall(a[1].z) /\ a[1].z[1] \in 0..255 THEN VC(a[1].z[1]) ELSE UV(TC)
    [] n = "NUM_TO_STR" -> VS(FmtF(a[1]))
    [] n = "STR_TO_NUM" -> TextReal(a[1].s)
    [] n = "IS_NUM" -> LET q == NumText(a[1].s)
                       IN IF q.c = "num" THEN (IF q.sg = 1 THEN UV(TB) ELSE VB(TRUE))
                          ELSE IF q.c = "open" \/ a[1].s = <<>> \/ a[1].s = <<46>> THEN UV(TB) ELSE VB(FALSE)
    [] n = "DAY" -> VI(<<a[1].d>>)
    [] n = "MONTH" -> VI(<<a[1].m>>)
    [] n = "YEAR" -> VI(<<a[1].y>>)
    [] n = "DAYINDEX" -> VI(<<WeekDay(a[1].d, a[1].m, a[1].y)>>)
    [] n = "SETDATE" -> MakeDate(a[1].z, a[2].z, a[3].z)
    [] n = "RAND" -> IF ZSign(a[1].z) < 0 THEN UV(TR) ELSE [UV(TR) EXCEPT !.g = <<Z0, a[1].z>>]
    [] n = "INT" -> LET z == RFloor(a[1]) IN IF In64(z) THEN VI(z) ELSE UV(TI)
    [] n = "POW" -> Pow(a[1], a[2])
    [] n = "SQRT" -> Sqrt(a[1])
    [] OTHER -> UV(RetTy(n))

CONVARGS(n, a) == TLCEval([i \in 1..Len(a) |-> Conv(a[i], BUILTINS[n][i])])
\* every built-in except EOF, which reads the file table
Builtin(n, a, l) ==
  IF Len(a) # Len(BUILTINS[n]) THEN XL(l, FALSE)
  ELSE LET c == CONVARGS(n, a)
       IN IF \E i \in 1..Len(c) : c[i].k = "M" THEN XL(l, FALSE)
          ELSE IF \E i \in 1..Len(c) : c[i].k = "Z" THEN Z("argument")
          ELSE IF \E i \in 1..Len(c) : IsU(c[i])
               THEN IF n \in {"LEFT", "RIGHT", "MID", "SETDATE"} THEN Z("argument")
                    ELSE IF n = "DAYINDEX" THEN [UV(TI) EXCEPT !.g = <<Z1, <<7>> >>]
                    ELSE IF n = "DAY" THEN [UV(TI) EXCEPT !.g = <<Z1, <<31>> >>]
                    ELSE IF n = "MONTH" THEN [UV(TI) EXCEPT !.g = <<Z1, <<12>> >>]
                    ELSE UV(RetTy(n))
          ELSE LET r == BuiltinVal(n, c) IN IF r.k = "X" THEN XL(l, TRUE) ELSE r
=============================================================================
