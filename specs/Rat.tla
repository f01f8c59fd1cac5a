-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<num, den>>, den > 0, lowest terms.              *)
EXTENDS Integers, Sequences

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) ==
    IF n = 0 THEN <<0, 1>>
    ELSE LET g == Gcd(Abs(n), Abs(d))
             s == IF d < 0 THEN -1 ELSE 1
         IN <<s * (n \div g), s * (d \div g)>>     \* g divides n and d

Q(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
\* cross reduction keeps the intermediate products small (32 bit integers)
Mul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE LET g == Gcd(Abs(a[1]), b[2])
             h == Gcd(Abs(b[1]), a[2])
         IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Neg(a) == <<-a[1], a[2]>>
Add(a, b) ==
    LET g == Gcd(a[2], b[2])
    IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Sub(a, b) == Add(a, Neg(b))
Less(a, b) == Sub(a, b)[1] < 0
Leq(a, b) == Sub(a, b)[1] <= 0
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN One ELSE Mul(a, Pow(a, k - 1))

RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN Zero ELSE Add(s[1], SumQ(Tail(s)))
IsRat(a) == a[2] > 0 /\ (a[1] = 0 => a[2] = 1)
=============================================================================
