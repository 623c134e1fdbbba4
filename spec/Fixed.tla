------------------------------- MODULE Fixed -------------------------------
(* Fixed-point numbers for TLC, whose integers have 32 bits: <<h, m, l>>     *)
(* stands for h + m/2^15 + l/2^30.  The recorded numbers and the tables of   *)
(* n*log2(n) and log2(n) have this form.  A number that is not finite (or    *)
(* above 2^28) is recorded as the empty sequence.                            *)
EXTENDS Integers, Sequences

Base == 32768

Zero == <<0, 0, 0>>

IsNum(r) == Len(r) = 3

(* carries so that the two last limbs are in 0..Base-1 (the first is floor) *)
Norm(r) ==
    LET l == r[3] % Base
        m0 == r[2] + (r[3] \div Base)
        m == m0 % Base
    IN  <<r[1] + (m0 \div Base), m, l>>

(* recorded numbers can be anything: the first limb saturates *)
Lim == 268435456
Clip(h) == IF h > Lim THEN Lim ELSE IF h < -Lim THEN -Lim ELSE h
Abs(k) == IF k < 0 THEN -k ELSE k
ClipTimes(k, h) ==
    IF k = 0 \/ h = 0 THEN 0
    ELSE IF Abs(h) > Lim \div Abs(k) THEN (IF (k < 0) = (h < 0) THEN Lim ELSE -Lim)
    ELSE k * h

Plus(a, b)  == <<Clip(a[1] + b[1]), a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<Clip(a[1] - b[1]), a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<ClipTimes(k, a[1]), k * a[2], k * a[3]>>      \* |k| <= 2^15
FromInt(k)  == <<k, 0, 0>>

(* the value in units of 2^-20, for |value| < 1000 *)
Units(n) == n[1] * 1048576 + n[2] * 32 + (n[3] \div 1024)

(* |d| <= tol * 2^-20 *)
Small(d, tol) ==
    LET n == Norm(d) IN
    /\ n[1] > -1000 /\ n[1] < 1000
    /\ Units(n) <= tol /\ Units(n) >= -tol - 1

Near(a, b, tol) == IsNum(a) /\ IsNum(b) /\ Small(Minus(Norm(a), Norm(b)), tol)

(* a <= b up to tol * 2^-20 *)
NearLe(a, b, tol) ==
    LET n == Norm(Minus(Norm(a), Norm(b))) IN
    IsNum(a) /\ IsNum(b) /\ (n[1] < 0 \/ (n[1] < 1000 /\ Units(n) <= tol))

IsInt(r) == IsNum(r) /\ r[2] = 0 /\ r[3] = 0

(* product of two non-negative normal numbers, first limbs up to 2^15 *)
Split(t) == <<t \div Base, t % Base>>
Mul(x, y) ==
    LET s12 == Split(x[1] * y[2])
        s21 == Split(x[2] * y[1])
        s22 == Split(x[2] * y[2])
        s13 == Split(x[1] * y[3])
        s31 == Split(x[3] * y[1])
        s23 == (x[2] * y[3]) \div Base
        s32 == (x[3] * y[2]) \div Base
    IN  Norm(<<x[1] * y[1] + s12[1] + s21[1],
               s12[2] + s21[2] + s22[1] + s13[1] + s31[1],
               s22[2] + s13[2] + s31[2] + s23 + s32>>)

(* are the first limbs of all of these at most n in magnitude? *)
Within(r, n) == IsNum(r) /\ Abs(r[1]) <= n

IsNeg(r) == LET n == Norm(r) IN n[1] < 0
=============================================================================
