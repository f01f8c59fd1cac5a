-------------------------------- MODULE Conv --------------------------------
(* Centered convolution of a sequence with a window of odd length.          *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_, _)
Sum(g, k) == IF k = 0 THEN 0 ELSE g[k] + Sum(g, k - 1)
Ring(N, i) == (i % N) + 1                              \* i counted from 0
Mirror(N, i) == LET m == i % (2 * N) IN IF m < N THEN m + 1 ELSE 2 * N - m
\* (s * w)(i) = SUM_d w(h + d) s(i - d), h the center of the window
ConvAt(s, w, i, Index(_, _)) ==
    LET h == Len(w) \div 2
        t == [k \in 1..Len(w) |-> w[k] * s[Index(Len(s), i - 1 - (k - 1 - h))]]
    IN Sum(t, Len(w))
Conv(s, w, Index(_, _)) == [i \in DOMAIN s |-> ConvAt(s, w, i, Index)]
=============================================================================
