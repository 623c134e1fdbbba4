------------------------------ MODULE MC_Tables -----------------------------
(* The tables of n*log2(n) and log2(n) that stand for the real functions:    *)
(* log2 is the only increasing function with f(mn) = f(m)+f(n) and f(2) = 1, *)
(* so these laws pin the entries down, up to the rounding to 2^-30.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Fixed

Tables == JsonDeserialize(IOEnv.TABLES)
XL == Tables.xl      \* XL[n+1] = n * log2(n)
LG == Tables.lg      \* LG[n] = log2(n)
Size == Len(LG)

CONSTANT MaxFactor, Step

VARIABLE n
Init == n \in 1..Step
Next == n + Step <= Size /\ n' = n + Step
Spec == Init /\ [][Next]_n

(* |x - y| <= t * 2^-30 *)
Ulp(x, y, t) ==
    LET d == Norm(Minus(Norm(x), Norm(y))) IN
    \/ d[1] = 0 /\ d[2] * Base + d[3] <= t
    \/ d[1] = -1 /\ (Base - d[2]) * Base - d[3] <= t
Less(x, y) == IsNeg(Minus(Norm(x), Norm(y)))

Shape == Len(XL) = Size + 1 /\ XL[1] = Zero /\ XL[2] = Zero /\ LG[1] = Zero /\ LG[2] = FromInt(1)
Normal == /\ \A k \in {2, 3} : LG[n][k] \in 0..(Base - 1) /\ XL[n + 1][k] \in 0..(Base - 1)
Increasing == n < Size => Less(LG[n], LG[n + 1])
Multiplicative == \A m \in 2..MaxFactor : m * n <= Size => Ulp(LG[m * n], Plus(LG[m], LG[n]), 2)
\* between the powers of two, to 1/2, 1/4, ...: squares of n stay in the table
Squares == n * n <= Size => Ulp(LG[n * n], Times(2, LG[n]), 2)
PowersOfTwo == \A k \in 0..13 : 2^k <= Size =>
    /\ (n = 2^k) => LG[n] = FromInt(k)
    /\ (2^k < n /\ n < 2^(k + 1)) => LG[n][1] = k
ProductOf == n <= 32768 => Ulp(XL[n + 1], Times(n, LG[n]), (n \div 2) + 2)
XLProduct == \A m \in 2..MaxFactor : m * n <= Size =>
    Ulp(XL[m * n + 1], Plus(Norm(Times(m, XL[n + 1])), Norm(Times(n, XL[m + 1]))), m + n + 2)
Convex == n > 1 /\ n < Size => ~Less(Plus(Norm(Plus(XL[n], XL[n + 2])), <<0, 0, 3>>), Times(2, XL[n + 1]))
Superadditive == \A m \in 1..MaxFactor : n + m <= Size => ~Less(Plus(XL[n + m + 1], <<0, 0, 3>>), Plus(XL[n + 1], XL[m + 1]))
=============================================================================
