-------------------------------- MODULE Num --------------------------------
(* INTEGER (64-bit, exact) and REAL (IEEE-754 binary64, exact emulation).   *)
(* Z: <<n>> if |n| < 2^30, else <<sign, limbs>>.  Canonical, so '=' works.   *)
(* REAL: [k |-> "R", m |-> Z (odd, or <<0>>), e |-> Int], value m * 2^e;     *)
(* +0 is e = 0, -0 is e = 1.  Values outside the normal range are UNK.       *)
EXTENDS Big

UNK == [k |-> "U"]     \* a value the specification does not determine

LIM30 == 1073741824
ZOf(n) == IF n > -LIM30 /\ n < LIM30 THEN <<n>> ELSE IF n < 0 THEN <<-1, NOf(-n)>> ELSE <<1, NOf(n)>>
ZMk(s, a) == IF NSmall(a) THEN <<s * NInt(a)>> ELSE <<s, a>>
ZSmall(z) == Len(z) = 1
ZSign(z) == IF z[1] < 0 THEN -1 ELSE IF z[1] > 0 THEN 1 ELSE 0
ZMag(z) == IF Len(z) = 2 THEN z[2] ELSE IF z[1] < 0 THEN NOf(-z[1]) ELSE NOf(z[1])
Z0 == <<0>>
Z1 == <<1>>
ZNeg(z) == IF Len(z) = 1 THEN <<-z[1]>> ELSE <<-z[1], z[2]>>

ZAdd(x, y) ==
  IF ZSmall(x) /\ ZSmall(y) THEN ZOf(x[1] + y[1])
  ELSE LET sx == ZSign(x)
           sy == ZSign(y)
           a == ZMag(x)
           b == ZMag(y)
       IN IF sx = 0 THEN y ELSE IF sy = 0 THEN x
          ELSE IF sx = sy THEN ZMk(sx, NAdd(a, b))
          ELSE LET c == NCmp(a, b)
               IN IF c = 0 THEN Z0 ELSE IF c > 0 THEN ZMk(sx, NSub(a, b)) ELSE ZMk(sy, NSub(b, a))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) ==
  IF ZSmall(x) /\ ZSmall(y) /\ x[1] > -32768 /\ x[1] < 32768 /\ y[1] > -32768 /\ y[1] < 32768
  THEN ZOf(x[1] * y[1])
  ELSE ZMk(IF ZSign(x) = ZSign(y) THEN 1 ELSE -1, NMul(ZMag(x), ZMag(y)))
ZCmp(x, y) ==
  IF ZSmall(x) /\ ZSmall(y) THEN IF x[1] < y[1] THEN -1 ELSE IF x[1] > y[1] THEN 1 ELSE 0
  ELSE LET sx == ZSign(x)
           sy == ZSign(y)
       IN IF sx < sy THEN -1 ELSE IF sx > sy THEN 1
          ELSE IF sx = 0 THEN 0 ELSE sx * NCmp(ZMag(x), ZMag(y))

\* Division with remainder for y # 0.  Every mode satisfies
\*   x = q*y + r  and  |r| < |y|;   the property leaves the direction open.
ZDivMod(x, y, mode) ==
  LET qr == NDivMod(ZMag(x), ZMag(y))
      s == IF ZSign(x) * ZSign(y) < 0 THEN -1 ELSE 1
      qt == ZMk(s, qr[1])
      rt == ZMk(IF ZSign(x) < 0 THEN -1 ELSE 1, qr[2])
      adj == IF rt = Z0 THEN 0
             ELSE IF mode = "floor" THEN (IF ZSign(rt) # ZSign(y) THEN -1 ELSE 0)
             ELSE IF mode = "euclid" THEN (IF ZSign(rt) < 0 THEN -ZSign(y) ELSE 0)
             ELSE 0
  IN IF adj = 0 THEN <<qt, rt>>
     ELSE <<ZAdd(qt, <<adj>>), ZAdd(rt, ZMul(<<-adj>>, y))>>

MAX63 == NSub(NShl(<<1>>, 63), <<1>>)
MIN63 == NShl(<<1>>, 63)
In64(z) == \/ ZSmall(z)
           \/ NCmp(z[2], MAX63) <= 0
           \/ z[1] < 0 /\ z[2] = MIN63

DigCodes(d) == TLCEval([i \in 1..Len(d) |-> d[i] + 48])
ZText(z) == (IF ZSign(z) < 0 THEN <<45>> ELSE <<>>) \o DigCodes(NDigits(ZMag(z)))

\* TLC integer of a Z known to be small; saturates otherwise
ZInt(z) == IF ZSmall(z) THEN z[1] ELSE z[1] * LIM30

----------------------------------------------------------------------------
RZero == [k |-> "R", m |-> Z0, e |-> 0]
RNegZero == [k |-> "R", m |-> Z0, e |-> 1]
RIsZero(x) == x.m = Z0
RSgn(x) == IF x.m = Z0 THEN (IF x.e = 1 THEN -1 ELSE 1) ELSE ZSign(x.m)
RZ(s) == IF s < 0 THEN RNegZero ELSE RZero

RNorm(s, a, e) ==
  IF a = <<>> THEN RZ(s)
  ELSE LET top == NBits(a) + e
           t == NTz(a)
       IN IF top > 1024 \/ top < -1021 THEN UNK
          ELSE [k |-> "R", m |-> ZMk(s, NShr(a, t)), e |-> e + t]

\* s * (a + epsilon if sticky) * 2^e, rounded to nearest even on 53 bits
RRound(s, a, e, sticky) ==
  LET n == NBits(a)
  IN IF n <= 53 THEN RNorm(s, a, e)
     ELSE LET sh == n - 53
              q == NShr(a, sh)
              up == NBit(a, sh - 1) = 1 /\ (sticky \/ ~NLowZero(a, sh - 1) \/ NOdd(q))
          IN RNorm(s, IF up THEN NAdd(q, <<1>>) ELSE q, e + sh)

ROfZ(z) == IF ZSmall(z) THEN RNorm(IF z[1] < 0 THEN -1 ELSE 1, ZMag(z), 0) ELSE RRound(z[1], z[2], 0, FALSE)

RAdd(x, y) ==
  IF RIsZero(x) /\ RIsZero(y) THEN (IF x.e = 1 /\ y.e = 1 THEN RNegZero ELSE RZero)
  ELSE IF RIsZero(x) THEN y ELSE IF RIsZero(y) THEN x
  ELSE LET e0 == IF x.e < y.e THEN x.e ELSE y.e
           sh(v) == IF v.e = e0 THEN v.m ELSE ZMk(ZSign(v.m), NShl(ZMag(v.m), v.e - e0))
           t == ZAdd(sh(x), sh(y))
       IN IF t = Z0 THEN RZero ELSE RRound(ZSign(t), ZMag(t), e0, FALSE)
RNeg(x) == IF RIsZero(x) THEN RZ(-RSgn(x)) ELSE [x EXCEPT !.m = ZNeg(x.m)]
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) ==
  IF RIsZero(x) \/ RIsZero(y) THEN RZ(RSgn(x) * RSgn(y))
  ELSE LET t == ZMul(x.m, y.m) IN RRound(ZSign(t), ZMag(t), x.e + y.e, FALSE)
\* a / b * 2^e rounded, a, b > 0 naturals
RQuot(s, a, b, e) ==
  LET d == 56 + NBits(b) - NBits(a)
      sh == IF d > 0 THEN d ELSE 0
      qr == NDivMod(NShl(a, sh), b)
  IN RRound(s, qr[1], e - sh, qr[2] # <<>>)
RDiv(x, y) ==
  IF RIsZero(x) THEN RZ(RSgn(x) * RSgn(y))
  ELSE RQuot(RSgn(x) * RSgn(y), ZMag(x.m), ZMag(y.m), x.e - y.e)
RCmp(x, y) ==
  LET sx == IF RIsZero(x) THEN 0 ELSE ZSign(x.m)
      sy == IF RIsZero(y) THEN 0 ELSE ZSign(y.m)
  IN IF sx # sy THEN (IF sx < sy THEN -1 ELSE 1)
     ELSE IF sx = 0 THEN 0
     ELSE LET a == ZMag(x.m)
              b == ZMag(y.m)
              ta == NBits(a) + x.e
              tb == NBits(b) + y.e
          IN IF ta # tb THEN (IF ta < tb THEN -sx ELSE sx)
             ELSE IF x.e = y.e THEN sx * NCmp(a, b)
             ELSE IF x.e > y.e THEN sx * NCmp(NShl(a, x.e - y.e), b)
             ELSE sx * NCmp(a, NShl(b, y.e - x.e))
RIsInt(x) == RIsZero(x) \/ x.e >= 0
\* toward zero / toward minus infinity, as Z
RTrunc(x) == IF RIsZero(x) THEN Z0
             ELSE IF x.e >= 0 THEN ZMk(ZSign(x.m), NShl(ZMag(x.m), x.e))
             ELSE ZMk(ZSign(x.m), NShr(ZMag(x.m), -x.e))
RFloor(x) == IF RIsInt(x) \/ ZSign(x.m) > 0 THEN RTrunc(x) ELSE ZSub(RTrunc(x), Z1)
ROfDigits(ip, fp) ==
  LET n == NOfDigits(ip \o fp)
  IN IF n = <<>> THEN RZero
     ELSE IF fp = <<>> THEN RRound(1, n, 0, FALSE) ELSE RQuot(1, n, NPow10(Len(fp)), 0)

----------------------------------------------------------------------------
(* decimal rendering *)
HalfEven(q, cmp) == IF cmp > 0 \/ (cmp = 0 /\ NOdd(q)) THEN NAdd(q, <<1>>) ELSE q
\* round-half-even(a * 2^e * 10^k)
ScaleRound(a, e, k) ==
  IF k >= 0
  THEN LET t == IF k = 0 THEN a ELSE NMul(a, NPow10(k))
       IN IF e >= 0 THEN NShl(t, e)
          ELSE LET sh == -e
                   q == NShr(t, sh)
                   h == NBit(t, sh - 1)
               IN HalfEven(q, IF h = 0 THEN -1 ELSE IF NLowZero(t, sh - 1) THEN 0 ELSE 1)
  ELSE LET den == NShl(NPow10(-k), IF e < 0 THEN -e ELSE 0)
           qr == NDivMod(NShl(a, IF e > 0 THEN e ELSE 0), den)
       IN HalfEven(qr[1], NCmp(NShl(qr[2], 1), den))

\* <<digits (exactly P), exponent p>> of x # 0 rounded to P significant digits
RECURSIVE SciFrom(_, _, _, _)
SciFrom(a, e, P, p) ==
  LET d == NDigits(ScaleRound(a, e, P - 1 - p))
  IN IF Len(d) > P THEN SciFrom(a, e, P, p + 1)
     ELSE IF Len(d) < P THEN SciFrom(a, e, P, p - 1)
     ELSE <<d, p>>
Sci(x, P) == LET a == ZMag(x.m)
             IN SciFrom(a, x.e, P, ((NBits(a) + x.e - 1) * 30103) \div 100000)

RECURSIVE StripTail(_)
StripTail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTail(SubSeq(d, 1, Len(d) - 1)) ELSE d
Rep(n, c) == TLCEval([i \in 1..n |-> c])

SignCodes(x) == IF RSgn(x) < 0 THEN <<45>> ELSE <<>>
\* C++ ostream default format with the given precision ("%.Pg")
FmtG(x, P) ==
  IF RIsZero(x) THEN SignCodes(x) \o <<48>>
  ELSE LET s == Sci(x, P)
           d == StripTail(s[1])
           p == s[2]
           frac(f) == IF f = <<>> THEN <<>> ELSE <<46>> \o DigCodes(f)
           ex == IF p < 0 THEN -p ELSE p
       IN SignCodes(x) \o
          (IF p < -4 \/ p >= P
           THEN DigCodes(<<d[1]>>) \o frac(SubSeq(d, 2, Len(d))) \o <<101, IF p < 0 THEN 45 ELSE 43>>
                \o (IF ex < 10 THEN <<48>> ELSE <<>>) \o DigCodes(NDigits(NOf(ex)))
           ELSE IF p < 0 THEN <<48>> \o frac(Rep(-p - 1, 0) \o d)
           ELSE IF Len(d) <= p + 1 THEN DigCodes(d \o Rep(p + 1 - Len(d), 0))
           ELSE DigCodes(SubSeq(d, 1, p + 1)) \o frac(SubSeq(d, p + 2, Len(d))))
\* value with 6 decimals, trailing zeros and point removed (NUM_TO_STR, &, WRITEFILE)
FmtF(x) ==
  IF RIsZero(x) THEN SignCodes(x) \o <<48>>
  ELSE LET n == NDigits(ScaleRound(ZMag(x.m), x.e, 6))
           d == IF Len(n) < 7 THEN Rep(7 - Len(n), 0) \o n ELSE n
           ip == SubSeq(d, 1, Len(d) - 6)
           fp == StripTail(SubSeq(d, Len(d) - 5, Len(d)))
       IN SignCodes(x) \o DigCodes(ip) \o (IF fp = <<>> THEN <<>> ELSE <<46>> \o DigCodes(fp))
=============================================================================
