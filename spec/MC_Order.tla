------------------------------- MODULE MC_Order -----------------------------
(* Trade-offs are compared by value, then by greater gain, then by smaller   *)
(* loss: one total order, from which the six operators derive (C20), and     *)
(* sums are compatible with it, which the optimisation relies on (C04-C06).  *)
EXTENDS Integers, FiniteSets, Agg

CONSTANT Top

VARIABLES x, y, z
V == (-Top..Top) \X (0..Top) \X (-Top..0)
Init == x \in V /\ y \in V /\ z \in V
Next == FALSE /\ UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>

lt == KeyLess(x, y)
gt == KeyLess(y, x)
eq == ~lt /\ ~gt
Trichotomy == /\ ~(lt /\ gt) /\ (eq <=> x = y)
Transitive == lt /\ KeyLess(y, z) => KeyLess(x, z)
Compatible == lt => KeyLess(KeyPlus(x, z), KeyPlus(y, z))
MaxIsGreatest == /\ KeyMax(x, y) \in {x, y} /\ ~KeyLess(KeyMax(x, y), x) /\ ~KeyLess(KeyMax(x, y), y)
                 /\ KeyMax(x, KeyMax(y, z)) = KeyMax(KeyMax(x, y), z)
(* at p strictly inside (0,1), equal value and gain imply equal loss: the    *)
(* third criterion only matters at p = 0 and p = 1 *)
ThirdOnlyAtEnds ==
    \A a \in 1..3 : LET b == 4 - a IN
      \A q, r \in (0..Top) \X (0..Top) : Key(q, a, b)[1] = Key(r, a, b)[1] /\ q[1] = r[1] => q[2] = r[2]
=============================================================================
