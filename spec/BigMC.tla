------------------------------- MODULE BigMC --------------------------------
(* Sanity of Big against TLC's own arithmetic. *)
EXTENDS Big, Integers, Sequences, TLC
VARIABLE x
T == {0, 1, 9999, 10000, 10001, 99999999, 100000000, 123456789, 2147483647} \cup {7, 64, 12345, 46340}
ASSUME \A a \in T : ToInt(OfInt(a)) = a
ASSUME \A a, b \in T : a <= 1000000000 /\ b <= 1000000000 => Add(OfInt(a), OfInt(b)) = OfInt(a + b)
ASSUME \A a, b \in T : a >= b => Sub(OfInt(a), OfInt(b)) = OfInt(a - b)
ASSUME \A a, b \in {0, 1, 7, 9999, 10000, 46340} : Mul(OfInt(a), OfInt(b)) = OfInt(a * b)
ASSUME \A a, b \in T : Cmp(OfInt(a), OfInt(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
ASSUME \A a, b \in T : b # 0 => Div(OfInt(a), OfInt(b)) = OfInt(a \div b)
ASSUME \A a, b \in T : b # 0 => LET p == Mul(OfInt(a), OfInt(b)) IN Div(p, OfInt(b)) = OfInt(a) /\ Div(Add(p, OfInt(b - 1)), OfInt(b)) = OfInt(a)
ASSUME TwoTo64 = <<1616, 955, 737, 6744, 1844>>
Init == x = 0
Next == UNCHANGED x
=============================================================================
