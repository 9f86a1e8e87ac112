-------------------------------- MODULE LM_Num ---------------------------------
(* C02: laws of the arithmetic of Big and Num on boundary operands, and agreement *)
(* with TLC's own integers where those are large enough.                           *)
EXTENDS Values, IOUtils
SMALL == atoi(IOEnv.SMALL)
DEEP == IOEnv.DEEP = "1"
P2(k) == NShl(<<1>>, k)
\* 0, +-1, ..., and +-(2^k + j)
EDGES == {ZMk(s, NAdd(P2(k), NOf(j))) : s \in {-1, 1}, k \in IF DEEP THEN {14, 15, 16, 29, 30, 31, 32, 44, 45, 52, 53, 54, 60, 62} ELSE {15, 31, 53, 62},
                j \in IF DEEP THEN {0, 1, 7} ELSE {0, 7}}
         \cup {ZMk(s, NSub(P2(k), NOf(j))) : s \in {-1, 1}, k \in {15, 31, 53, 63}, j \in {1, 2}}
         \cup {ZOf(n) : n \in {-10, -7, -3, -2, -1, 0, 1, 2, 3, 7, 10, 32767, 32768, -32768}}
VARIABLES za, zb
Init == \/ za \in EDGES /\ zb = <<0, 0, 0>>
        \/ za \in {<<n>> : n \in -SMALL..SMALL} /\ zb = <<0, 0, 0>>
Next == /\ zb = <<0, 0, 0>>
        /\ zb' \in IF za \in EDGES THEN EDGES ELSE {<<n>> : n \in -SMALL..SMALL}
        /\ UNCHANGED za
Abs(n) == IF n < 0 THEN -n ELSE n
ZLe(x, y) == ZCmp(x, y) <= 0
DivLaws ==
  \A md \in {"trunc", "floor", "euclid"} :
    LET q == ZDivMod(za, zb, md)
    IN /\ ZAdd(ZMul(q[1], zb), q[2]) = za
       /\ NCmp(ZMag(q[2]), ZMag(zb)) < 0
       /\ md = "floor" => (q[2] = Z0 \/ ZSign(q[2]) = ZSign(zb))
       /\ md = "trunc" => (q[2] = Z0 \/ ZSign(q[2]) = ZSign(za))
       /\ md = "euclid" => ZSign(q[2]) >= 0
Laws ==
  /\ ZAdd(za, zb) = ZAdd(zb, za) /\ ZSub(ZAdd(za, zb), zb) = za /\ ZAdd(ZSub(za, zb), zb) = za
  /\ ZMul(za, zb) = ZMul(zb, za) /\ ZMul(za, ZAdd(zb, Z1)) = ZAdd(ZMul(za, zb), za)
  /\ ZNeg(ZNeg(za)) = za /\ ZAdd(za, ZNeg(za)) = Z0
  /\ ZCmp(za, zb) = -ZCmp(zb, za) /\ (ZCmp(za, zb) = 0) = (za = zb)
  /\ ZCmp(za, zb) = ZSign(ZSub(za, zb))
  /\ ZLe(za, zb) => ZLe(ZAdd(za, Z1), ZAdd(zb, Z1))
  /\ (zb # Z0 => DivLaws)
  \* text
  /\ ZMk(IF ZSign(za) < 0 THEN -1 ELSE 1, NOfDigits(NDigits(ZMag(za)))) = za
  /\ TextInt(ZText(za)) = IF In64(za) THEN VI(za) ELSE UV(TI)
Native ==    \* |za|, |zb| small
  LET x == za[1]
      y == zb[1]
  IN /\ ZAdd(za, zb) = <<x + y>> /\ ZSub(za, zb) = <<x - y>> /\ ZMul(za, zb) = <<x * y>>
     /\ ZCmp(za, zb) = IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
     /\ y # 0 => /\ ZDivMod(za, zb, "trunc")[1] = <<(IF (x < 0) # (y < 0) THEN -1 ELSE 1) * (Abs(x) \div Abs(y))>>
                 /\ y > 0 => ZDivMod(za, zb, "floor") = << <<x \div y>>, <<x % y>> >>
Fits(n) == NBits(ZMag(n)) <= 53
Reals ==
  LET x == ROfZ(za)
      y == ROfZ(zb)
  IN /\ (Fits(za) /\ RIsInt(x)) => RTrunc(x) = za
     \* an INTEGER converts to the nearest REAL: not further than half za unit of the last of 53 places
     /\ LET e == NBits(ZMag(za)) - 53
            diff == ZMag(ZSub(RTrunc(x), za))
        IN e > 0 => NCmp(NShl(diff, 1), P2(e)) <= 0
     /\ RAdd(x, y) = RAdd(y, x) /\ RMul(x, y) = RMul(y, x) /\ (RSub(x, y) = RNeg(RSub(y, x)) \/ RIsZero(RSub(x, y)))
     /\ (Fits(za) /\ Fits(zb) /\ Fits(ZAdd(za, zb))) => RAdd(x, y) = ROfZ(ZAdd(za, zb))
     /\ (Fits(za) /\ Fits(zb) /\ Fits(ZMul(za, zb)) /\ ZMul(za, zb) # Z0) => RMul(x, y) = ROfZ(ZMul(za, zb))
     /\ (Fits(za) /\ Fits(zb) /\ Fits(ZMul(za, zb)) /\ zb # Z0 /\ za # Z0) => RDiv(ROfZ(ZMul(za, zb)), y) = x
     /\ (Fits(za) /\ Fits(zb)) => RCmp(x, y) = ZCmp(za, zb)
     \* za quotient is the REAL nearest to the exact one:  | 2 (q*y - x) |  <=  ulp(q) * |y|
     /\ (Fits(za) /\ Fits(zb) /\ za # Z0 /\ zb # Z0) =>
          LET q == RDiv(x, y)
              u == NBits(ZMag(q.m)) + q.e - 53          \* exponent of q's last place
              lo == IF q.e < u THEN q.e ELSE u
              \* everything times 2^-lo (lo <= 0 here, as |q| < 2^53)
              num == ZMul(ZMk(ZSign(q.m), NShl(ZMag(q.m), q.e - lo)), zb)
              exact == ZMk(ZSign(za), NShl(ZMag(za), -lo))
              err == ZMag(ZSub(num, exact))
          IN lo <= 0 => NCmp(NShl(err, 1), NMul(NShl(<<1>>, u - lo), ZMag(zb))) <= 0
     \* INT is floor
     /\ (zb # Z0 /\ Fits(za) /\ Fits(zb)) =>
          LET q == RDiv(x, y)
              f == RFloor(q)
          IN RCmp(ROfZ(f), q) <= 0 /\ RCmp(ROfZ(ZAdd(f, Z1)), q) > 0
\* the laws hold at the level of the operators as well
Ops ==
  LET op(o, p, q) == BinOp(o, VI(p), VI(q), "floor", <<>>)
  IN /\ \A o \in {"+", "-", "*"} : op(o, za, zb).k \in {"I", "Z"}
     /\ op("/", za, zb).k \in {"R", "X"} /\ (op("/", za, zb).k = "X") = (zb = Z0)
     /\ (op("DIV", za, zb).k = "X") = (zb = Z0) /\ (op("MOD", za, zb).k = "X") = (zb = Z0)
     /\ op("<", za, zb).b = op(">", zb, za).b /\ op("<=", za, zb).b = ~op(">", za, zb).b /\ op("<>", za, zb).b = ~op("=", za, zb).b
     /\ op("=", za, zb).b = (za = zb)
Lemma == zb # <<0, 0, 0>> =>
  /\ Laws /\ (ZSmall(za) /\ ZSmall(zb) /\ Abs(za[1]) <= 30000 /\ Abs(zb[1]) <= 30000 => Native) /\ Reals /\ (In64(za) /\ In64(zb) => Ops)
================================================================================
