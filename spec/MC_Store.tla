------------------------------- MODULE MC_Store -----------------------------
(* The flat series index of a value store (C17): k = (a*J + b)*K + c         *)
(* enumerates the coordinates (a, b, c) once each, the last one fastest.     *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Max

VARIABLES I, J, K
Init == I \in 1..Max /\ J \in 1..Max /\ K \in 1..Max
Next == FALSE /\ UNCHANGED <<I, J, K>>
Spec == Init /\ [][Next]_<<I, J, K>>

Flat(a, b, c) == (a * J + b) * K + c
ToI(k) == k \div (J * K)
ToJ(k) == (k \div K) % J
ToK(k) == k % K
Coords == (0..(I-1)) \X (0..(J-1)) \X (0..(K-1))
Inverse == /\ \A x \in Coords : LET k == Flat(x[1], x[2], x[3]) IN k \in 0..(I*J*K - 1) /\ ToI(k) = x[1] /\ ToJ(k) = x[2] /\ ToK(k) = x[3]
           /\ \A k \in 0..(I*J*K - 1) : <<ToI(k), ToJ(k), ToK(k)>> \in Coords /\ Flat(ToI(k), ToJ(k), ToK(k)) = k
LastFastest == \A k \in 0..(I*J*K - 2) :
    LET x == <<ToI(k), ToJ(k), ToK(k)>> y == <<ToI(k+1), ToJ(k+1), ToK(k+1)>> IN
    \/ (x[1] = y[1] /\ x[2] = y[2] /\ y[3] = x[3] + 1)
    \/ (x[3] = K - 1 /\ y[3] = 0 /\ x[1] = y[1] /\ y[2] = x[2] + 1)
    \/ (x[3] = K - 1 /\ y[3] = 0 /\ x[2] = J - 1 /\ y[2] = 0 /\ y[1] = x[1] + 1)
=============================================================================
