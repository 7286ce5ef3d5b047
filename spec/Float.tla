------------------------------- MODULE Float ---------------------------------
(* Binary floating point of single precision on exact numbers.  A float is <<m, e>>: the value m * 2^e with m = 0 or
   2^23 <= m < 2^24 (m an integer, e of any size: no overflow or denormal numbers occur in the interest schedules). *)
EXTENDS Big, Integers, Sequences, SequencesExt, TLC
Pow2 == FoldLeft(LAMBDA s, k : Append(s, Add(s[k], s[k])), <<OfInt(1)>>, [k \in 1 .. 260 |-> k])   \* Pow2[k+1] = 2^k
P2(k) == Pow2[k + 1]
(* number of binary digits *)
RECURSIVE Bits(_, _, _)
Bits(a, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Lt(a, P2(m)) THEN Bits(a, lo, m) ELSE Bits(a, m + 1, hi)
BitLen(a) == IF a = Zero THEN 0 ELSE Bits(a, 1, 255)
Half(x) == (x \div 2)
(* the float nearest to (num/den) * 2^e, ties to even *)
Round(num, den, e) ==
  IF num = Zero THEN <<0, 0>>
  ELSE LET s == 28 - (BitLen(num) - BitLen(den))
           nn == IF s > 0 THEN Mul(num, P2(s)) ELSE num
           dd == IF s < 0 THEN Mul(den, P2(-s)) ELSE den
           q == Div(nn, dd)
           exact == Mul(q, dd) = nn
           n == ToInt(q)                                     \* 28 or 29 binary digits
           drop == IF n >= 268435456 THEN 5 ELSE 4
           u == IF drop = 5 THEN 32 ELSE 16
           m == n \div u
           r == n % u
           up == r > u \div 2 \/ (r = u \div 2 /\ (~exact \/ m % 2 = 1))
           k == IF up THEN m + 1 ELSE m
       IN IF k = 16777216 THEN <<8388608, e - s + drop + 1>> ELSE <<k, e - s + drop>>
FOfBig(a) == Round(a, OfInt(1), 0)
FOf(n) == FOfBig(OfInt(n))
FDec(num, den) == Round(OfInt(num), OfInt(den), 0)          \* the literal num/den
FMul(x, y) == Round(Mul(OfInt(x[1]), OfInt(y[1])), OfInt(1), x[2] + y[2])
FDiv(x, y) == IF x[1] = 0 THEN <<0, 0>> ELSE Round(OfInt(x[1]), OfInt(y[1]), x[2] - y[2])
FAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE LET e == MinI(x[2], y[2]) IN Round(Add(Mul(OfInt(x[1]), P2(x[2] - e)), Mul(OfInt(y[1]), P2(y[2] - e))), OfInt(1), e)
(* integer part *)
FFloor(x) == IF x[1] = 0 THEN Zero ELSE IF x[2] >= 0 THEN Mul(OfInt(x[1]), P2(x[2])) ELSE Div(OfInt(x[1]), P2(-x[2]))
=============================================================================
