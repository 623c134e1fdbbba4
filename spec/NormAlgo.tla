------------------------------ MODULE NormAlgo ------------------------------
(* Normalising a matrix of qualities in place, entry by entry, in any order, *)
(* with the whole's quality taken before anything changes (C10).             *)
(* An entry is a pair of fractions <<numerator, denominator>>; the whole is  *)
(* one of the entries and so changes on the way.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,      \* entries
          K,      \* numerators 0..K
          Alias   \* TRUE: divide by the entry itself instead of a copy of it (the defect that was repaired)

VARIABLES M, whole, total, todo, old, round
vars == <<M, whole, total, todo, old, round>>

Int1(n) == <<n, 1>>
Over(x, t) == IF t[1] = 0 THEN Int1(0) ELSE <<x[1] * t[2], x[2] * t[1]>>
Equal(x, y) == x[1] * y[2] = y[1] * x[2]

Init ==
    /\ M \in [1..N -> {<<Int1(g), Int1(o)>> : g \in 0..K, o \in 0..K}]
    /\ whole \in 1..N
    \* the whole has the greatest gain and loss (MC_Def)
    /\ \A e \in 1..N : M[e][1][1] <= M[whole][1][1] /\ M[e][2][1] <= M[whole][2][1]
    /\ total = M[whole]
    /\ todo = 1..N
    /\ old = M
    /\ round = 1

Divisor == IF Alias THEN M[whole] ELSE total

Entry(e) ==
    /\ e \in todo
    /\ M' = [M EXCEPT ![e] = <<Over(@[1], Divisor[1]), Over(@[2], Divisor[2])>>]
    /\ todo' = todo \ {e}
    /\ UNCHANGED <<whole, total, old, round>>

\* normalise once more
Again ==
    /\ todo = {} /\ round = 1
    /\ total' = M[whole] /\ todo' = 1..N /\ old' = M /\ round' = 2
    /\ UNCHANGED <<M, whole>>

Next == (\E e \in 1..N : Entry(e)) \/ Again
Spec == Init /\ [][Next]_vars

Same(a, b) == Equal(a[1], b[1]) /\ Equal(a[2], b[2])
Relative == todo = {} => \A e \in 1..N :
    \A c \in {1, 2} : IF old[whole][c][1] = 0 THEN M[e][c][1] = 0
                      ELSE Equal(M[e][c], Over(old[e][c], old[whole][c]))
Finite == \A e \in 1..N : M[e][1][2] > 0 /\ M[e][2][2] > 0
TwiceIsOnce == (todo = {} /\ round = 2) => \A e \in 1..N : Same(M[e], old[e])
AtMostOne == todo = {} => \A e \in 1..N : \A c \in {1, 2} : M[e][c][1] <= M[e][c][2]
=============================================================================
