-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as little-endian sequences of base-2^15      *)
(* limbs without leading (most significant) zero limbs; zero is <<>>.       *)
(* TLC integers have 32 bits, so limb products fit.                         *)
EXTENDS Integers, Sequences, TLC

BASE == 32768

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* n : a TLC integer >= 0
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NOf(n \div BASE)

\* only for values below 2^30
NSmall(a) == Len(a) <= 2
NInt(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + BASE * a[2]

NLimb(a, i) == IF i > Len(a) THEN 0 ELSE a[i]

RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpFrom(a, b, Len(a))

RECURSIVE NAddFrom(_, _, _, _, _)
NAddFrom(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == NLimb(a, i) + NLimb(b, i) + c
       IN NAddFrom(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
NAdd(a, b) == NAddFrom(a, b, 1, 0, <<>>)

\* a >= b
RECURSIVE NSubFrom(_, _, _, _, _)
NSubFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN NTrim(acc)
  ELSE LET s == a[i] - NLimb(b, i) - c
       IN IF s < 0 THEN NSubFrom(a, b, i + 1, 1, Append(acc, s + BASE))
          ELSE NSubFrom(a, b, i + 1, 0, Append(acc, s))
NSub(a, b) == NSubFrom(a, b, 1, 0, <<>>)

\* a * k + c for 0 <= k, c < BASE
RECURSIVE NMulFrom(_, _, _, _, _)
NMulFrom(a, k, i, c, acc) ==
  IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == a[i] * k + c
       IN NMulFrom(a, k, i + 1, s \div BASE, Append(acc, s % BASE))
NMulK(a, k, c) == IF k = 0 THEN NOf(c) ELSE NMulFrom(a, k, 1, c, <<>>)

NShiftLimbs(a, n) == IF a = <<>> THEN a ELSE TLCEval([i \in 1..n |-> 0]) \o a

RECURSIVE NMulAcc(_, _, _, _)
NMulAcc(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE NMulAcc(a, b, i + 1, NAdd(acc, NShiftLimbs(NMulK(a, b[i], 0), i - 1)))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN NOf(a[1] * b[1])
              ELSE IF Len(a) >= Len(b) THEN NMulAcc(a, b, 1, <<>>) ELSE NMulAcc(b, a, 1, <<>>)

\* <<a div k, a mod k>> for 0 < k < BASE
RECURSIVE NDivKFrom(_, _, _, _, _)
NDivKFrom(a, k, i, r, acc) ==
  IF i = 0 THEN <<NTrim(acc), r>>
  ELSE LET s == r * BASE + a[i]
       IN NDivKFrom(a, k, i - 1, s % k, <<s \div k>> \o acc)
NDivK(a, k) == NDivKFrom(a, k, Len(a), 0, <<>>)

\* largest q in lo..hi with b*q <= r
RECURSIVE NQuot(_, _, _, _)
NQuot(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NMulK(b, mid, 0), r) <= 0 THEN NQuot(r, b, mid, hi) ELSE NQuot(r, b, lo, mid - 1)
RECURSIVE NDivFrom(_, _, _, _, _)
NDivFrom(a, b, i, r, acc) ==
  IF i = 0 THEN <<NTrim(acc), r>>
  ELSE LET r1 == NTrim(<<a[i]>> \o r)
           q == NQuot(r1, b, 0, BASE - 1)
       IN NDivFrom(a, b, i - 1, IF q = 0 THEN r1 ELSE NSub(r1, NMulK(b, q, 0)), <<q>> \o acc)
\* <<a div b, a mod b>>, b > 0
NDivMod(a, b) == IF NCmp(a, b) < 0 THEN <<<<>>, a>>
                 ELSE IF NSmall(a) /\ NSmall(b) THEN <<NOf(NInt(a) \div NInt(b)), NOf(NInt(a) % NInt(b))>>
                 ELSE IF Len(b) = 1 THEN LET q == NDivK(a, b[1]) IN <<q[1], NOf(q[2])>>
                 ELSE NDivFrom(a, b, Len(a), <<>>, <<>>)

POW2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384>>

NShl(a, n) == IF a = <<>> \/ n = 0 THEN a
              ELSE NShiftLimbs(IF n % 15 = 0 THEN a ELSE NMulK(a, POW2[(n % 15) + 1], 0), n \div 15)
NShr(a, n) == IF n = 0 THEN a
              ELSE IF n \div 15 >= Len(a) THEN <<>>
              ELSE LET b == SubSeq(a, n \div 15 + 1, Len(a))
                   IN IF n % 15 = 0 THEN b ELSE NDivK(b, POW2[(n % 15) + 1])[1]

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
NBits(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitsOf(a[Len(a)])

\* number of trailing zero bits, a # <<>>
RECURSIVE TzOf(_)
TzOf(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TzOf(n \div 2)
RECURSIVE NTz(_)
NTz(a) == IF a[1] = 0 THEN 15 + NTz(Tail(a)) ELSE TzOf(a[1])

\* are the low n bits of a all zero?
NLowZero(a, n) == a = <<>> \/ NTz(a) >= n
NBit(a, n) == IF n \div 15 >= Len(a) THEN 0 ELSE (a[n \div 15 + 1] \div POW2[(n % 15) + 1]) % 2
NOdd(a) == a # <<>> /\ a[1] % 2 = 1

RECURSIVE NPow10(_)
NPow10(n) == IF n = 0 THEN <<1>> ELSE IF n >= 4 THEN NMulK(NPow10(n - 4), 10000, 0) ELSE NMulK(NPow10(n - 1), 10, 0)

\* digits (0..9, most significant first) -> number
RECURSIVE NOfDigitsFrom(_, _, _)
NOfDigitsFrom(d, i, acc) ==
  IF i > Len(d) THEN acc
  ELSE IF i + 3 <= Len(d)
       THEN NOfDigitsFrom(d, i + 4, NMulK(acc, 10000, d[i] * 1000 + d[i+1] * 100 + d[i+2] * 10 + d[i+3]))
       ELSE NOfDigitsFrom(d, i + 1, NMulK(acc, 10, d[i]))
NOfDigits(d) == NOfDigitsFrom(d, 1, <<>>)

\* number -> decimal digits; <<0>> for zero
RECURSIVE NDigitsAcc(_, _)
NDigitsAcc(a, acc) ==
  IF a = <<>> THEN acc
  ELSE LET q == NDivK(a, 10000)
           r == q[2]
       IN NDigitsAcc(q[1], <<r \div 1000, (r \div 100) % 10, (r \div 10) % 10, r % 10>> \o acc)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
NDigits(a) == IF a = <<>> THEN <<0>> ELSE StripZeros(NDigitsAcc(a, <<>>))
=============================================================================
