------------------------------ MODULE MC_Select -----------------------------
(* The selected parameters and the area under the curve (C14), for every     *)
(* curve of at most N points with gains and losses k/K that do not decrease. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS N, K,
          Variant  \* "none", or a wrong design: then the model must fail

VARIABLES curve, n, best, at     \* the fold of the library, step by step
vars == <<curve, n, best, at>>

Score(c) == (c[1] - K) * (c[1] - K) + c[2] * c[2]

Init ==
    /\ \E len \in 1..N : curve \in [1..len -> (0..K) \X (0..K)]
    /\ \A a \in 1..(Len(curve) - 1) : curve[a][1] <= curve[a + 1][1] /\ curve[a][2] <= curve[a + 1][2] /\ curve[a] # curve[a + 1]
    /\ n = 0 /\ best = (IF Variant = "bounded start" THEN K * K ELSE -1) /\ at = 0       \* -1: no score yet, as good as infinite

Step ==
    /\ n < Len(curve)
    /\ n' = n + 1
    /\ LET s == Score(curve[n + 1]) IN
       IF best = -1 \/ (IF Variant = "first" THEN s < best ELSE s <= best) THEN best' = s /\ at' = n + 1 ELSE UNCHANGED <<best, at>>
    /\ UNCHANGED curve
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Scores == {Score(curve[a]) : a \in 1..Len(curve)}
Least == CHOOSE s \in Scores : \A r \in Scores : s <= r
LastLeast == CHOOSE a \in 1..Len(curve) : Score(curve[a]) = Least /\ \A b \in (a+1)..Len(curve) : Score(curve[b]) # Least
FoldIsDefinition == n = Len(curve) => at = LastLeast /\ best = Least
(* twice the area times K^2 *)
Under == FoldLeft(LAMBDA acc, a : acc + (curve[a + 1][1] - curve[a][1]) * (curve[a + 1][2] + curve[a][2]), 0, [a \in 1..(Len(curve) - 1) |-> a])
AreaInUnit == 0 <= 2 * K * K - Under /\ Under >= 0
Done == <>(n = Len(curve))
=============================================================================
