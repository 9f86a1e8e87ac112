-------------------------------- MODULE LM_Text --------------------------------
(* C17: laws of the string, conversion and numeric functions, on every string of  *)
(* up to LEN characters of an alphabet, built one character at a time.            *)
EXTENDS Values, IOUtils
LEN == atoi(IOEnv.LEN)
ALPH == {48, 49, 57, 46, 45, 97, 90}      \* 0 1 9 . - a Z
VARIABLE str
Init == str = <<>>
Next == Len(str) < LEN /\ \E c \in ALPH : str' = Append(str, c)
F(n, a) == Builtin(n, a, 1)
St == VS(str)
I(n) == VI(ZOf(n))
Str(v) == v.k = "S"
N == Len(str)
Strings ==
  /\ F("LENGTH", <<St>>) = I(N)
  /\ \A k \in -2..(N + 2) :
       LET l == F("LEFT", <<St, I(k)>>)
           r == F("RIGHT", <<St, I(N - k)>>)
       IN /\ Str(l) = (k \in 0..N) /\ Str(r) = (k \in 0..N) /\ (~Str(l) => l.k = "X" /\ r.k = "X")
          /\ Str(l) => (Concat(l, r) = St /\ Len(l.s) = k)
  /\ \A i \in -1..(N + 2), n \in -1..(N + 2) :
       LET m == F("MID", <<St, I(i), I(n)>>)
       IN IF Str(m)
          THEN /\ Len(m.s) = n /\ \A j \in 1..n : m.s[j] = str[i + j - 1]
               \* characters i .. i+n-1: what LEFT(str, i+n-1) has and LEFT(str, i-1) has not
               /\ F("RIGHT", <<F("LEFT", <<St, I(i + n - 1)>>), I(n)>>) = m
          ELSE m.k = "X" /\ ~(n >= 0 /\ i >= 1 /\ i <= N /\ i + n - 1 <= N)
  /\ LET u == F("TO_UPPER", <<St>>)
         d == F("TO_LOWER", <<St>>)
     IN /\ F("TO_UPPER", <<d>>) = u /\ F("TO_LOWER", <<u>>) = d /\ F("TO_UPPER", <<u>>) = u
        /\ Len(u.s) = N
        /\ \A i \in 1..N : /\ VC(u.s[i]) = F("UCASE", <<VC(str[i])>>) /\ VC(d.s[i]) = F("LCASE", <<VC(str[i])>>)
                           /\ (u.s[i] # str[i] => str[i] \in 97..122) /\ (d.s[i] # str[i] => str[i] \in 65..90)
  \* CHAR and one-character STRING
  /\ N = 1 => (F("ASC", <<St>>) = I(str[1]) /\ F("CHR", <<I(str[1])>>) = VC(str[1]))
Digits == {i \in 1..N : IsDigit(str[i])}
Dots == {i \in 1..N : str[i] = 46}
Numeral == N > 0 /\ Digits # {} /\ Cardinality(Dots) <= 1 /\ Digits \cup Dots = 1..N
\* the number denoted, as digits without the dot, and the number of them after the dot
Whole == NOfDigits(TLCEval([i \in 1..Cardinality(Digits) |-> SelectSeq(str, IsDigit)[i] - 48]))
Frac == IF Dots = {} THEN 0 ELSE N - (CHOOSE i \in Dots : TRUE)
Numbers ==
  LET x == F("STR_TO_NUM", <<St>>)
  IN IF Numeral
     THEN /\ F("IS_NUM", <<St>>) = VB(TRUE)
          /\ x.k = "R" /\ Cast("REAL", St) = x
          \* the nearest REAL: |10^f x - n| <= 10^f ulp(x) / 2, all times a power of two
          /\ (Whole = <<>>) = RIsZero(x)
          /\ Whole # <<>> =>
               LET u == NBits(ZMag(x.m)) + x.e - 53
                   lo == IF x.e < u THEN x.e ELSE u
                   p == NPow10(Frac)
                   d == ZMag(ZSub(ZMk(1, NMul(NShl(ZMag(x.m), x.e - lo), p)), ZMk(1, NShl(Whole, -lo))))
               IN /\ x.m[1] > 0
                  /\ lo <= 0 => NCmp(NShl(d, 1), NMul(NShl(<<1>>, u - lo), p)) <= 0
          /\ Dots = {} => Cast("INTEGER", St) = VI(ZMk(1, Whole))
          \* up to 6 decimals survive NUM_TO_STR and back
          /\ Frac <= 6 => F("STR_TO_NUM", <<F("NUM_TO_STR", <<x>>)>>) = x
          /\ LET t == F("INT", <<x>>) IN RCmp(ROfZ(t.z), x) <= 0 /\ RCmp(x, ROfZ(ZAdd(t.z, Z1))) < 0
          /\ LET t == F("INT", <<RNeg(x)>>) IN RCmp(ROfZ(t.z), RNeg(x)) <= 0 /\ RCmp(RNeg(x), ROfZ(ZAdd(t.z, Z1))) < 0
     \* a letter after the first character, or no digit: no numeral in any notation here
     ELSE (N = 0 \/ Digits = {} \/ (\E i \in 1..N : IsAlpha(str[i]))) =>
            (x = RZero /\ Cast("REAL", St) = RZero /\ Cast("INTEGER", St) = I(0))
Lemma == Strings /\ Numbers
================================================================================
