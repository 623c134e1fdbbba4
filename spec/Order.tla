------------------------------- MODULE Order --------------------------------
(* What a partition is worth: compared by value, then by greater gain, then  *)
(* by smaller loss.                                                          *)
EXTENDS Integers

\* of gain q[1] and loss q[2] at p = a/(a+b)
Key(q, a, b) == <<a * q[1] - b * q[2], q[1], -q[2]>>
KeyPlus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
KeyLess(x, y) == \/ x[1] < y[1]
                 \/ x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))
KeyMax(x, y) == IF KeyLess(x, y) THEN y ELSE x
=============================================================================
