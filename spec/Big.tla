-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as little-endian sequences of base-10000 limbs without trailing zeros
   (TLC's own integers have 32 bits; amounts and difficulties need 64 and more). *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
BB == 10000
Zero == <<>>
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
(* drops leading zero limbs *)
Trim(a) == LET k == FoldLeft(LAMBDA m, i : IF a[i] # 0 THEN i ELSE m, 0, [i \in 1 .. Len(a) |-> i]) IN IF k = Len(a) THEN a ELSE SubSeq(a, 1, k)
(* normalises a sequence of (possibly large or negative) coefficients; the value must not be negative *)
RECURSIVE Spill(_, _)
Spill(c, r) == IF c = 0 THEN r ELSE Spill(c \div BB, Append(r, c % BB))
Carry(v) == LET f == FoldLeft(LAMBDA acc, x : LET t == x + acc[1] IN <<t \div BB, Append(acc[2], t % BB)>>, <<0, <<>>>>, v)
            IN Trim(Spill(f[1], f[2]))
OfInt(n) == Spill(n, <<>>)
Add(a, b) == IF a = Zero THEN b ELSE IF b = Zero THEN a ELSE Carry([i \in 1 .. MaxI(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
Sub(a, b) == IF b = Zero THEN a ELSE Carry([i \in 1 .. Len(a) |-> a[i] - Limb(b, i)])   \* a >= b
MulI(a, s) == IF s = 0 THEN Zero ELSE Carry([i \in 1 .. Len(a) |-> a[i] * s])            \* s <= 200000
(* schoolbook product; up to 20 limbs for the shorter factor *)
Mul(a, b) == IF a = Zero \/ b = Zero THEN Zero
             ELSE Carry([k \in 1 .. Len(a) + Len(b) - 1 |-> FoldLeft(LAMBDA s, i : IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN s + a[i] * b[k - i + 1] ELSE s, 0, [i \in 1 .. Len(a) |-> i])])
(* -1, 0, 1 *)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
             ELSE FoldLeft(LAMBDA c, i : IF a[i] = b[i] THEN c ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, [i \in 1 .. Len(a) |-> i])
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
MaxB(a, b) == IF Lt(a, b) THEN b ELSE a
MinB(a, b) == IF Lt(b, a) THEN b ELSE a
(* quotient and remainder by a small number (up to 200000) *)
DivModI(a, s) == LET f == FoldLeft(LAMBDA acc, k : LET t == acc[1] * BB + a[Len(a) + 1 - k] IN <<t % s, <<t \div s>> \o acc[2]>>, <<0, <<>>>>, [k \in 1 .. Len(a) |-> k])
                 IN <<Trim(f[2]), f[1]>>
DivI(a, s) == DivModI(a, s)[1]
ModI(a, s) == DivModI(a, s)[2]
RECURSIVE Digit(_, _, _, _)   \* largest d in lo..hi with b*d <= r
Digit(r, b, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Le(MulI(b, m), r) THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
Div(a, b) == IF Len(b) = 1 THEN DivI(a, b[1])
             ELSE IF Lt(a, b) THEN Zero
             ELSE LET f == FoldLeft(LAMBDA acc, k : LET r == Trim(<<a[Len(a) + 1 - k]>> \o acc[1])
                                                        d == IF Lt(r, b) THEN 0 ELSE Digit(r, b, 1, BB - 1)
                                                    IN <<IF d = 0 THEN r ELSE Sub(r, MulI(b, d)), <<d>> \o acc[2]>>,
                                    <<Zero, <<>>>>, [k \in 1 .. Len(a) |-> k])
                  IN Trim(f[2])
(* small enough for an integer *)
ToInt(a) == FoldLeft(LAMBDA n, k : n * BB + a[Len(a) + 1 - k], 0, [k \in 1 .. Len(a) |-> k])
TwoTo32 == <<7296, 9496, 42>>
TwoTo64 == Mul(TwoTo32, TwoTo32)
Sum(s) == FoldLeft(LAMBDA t, x : Add(t, x), Zero, s)
=============================================================================
