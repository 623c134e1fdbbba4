-------------------------------- MODULE Regs --------------------------------
(* The registers of Alg, explored; the calls are written out for the real    *)
(* library.  GEN holds the bounds.                                           *)
EXTENDS Alg, FiniteSets, Json, IOUtils, TLC

G == JsonDeserialize(IOEnv.GEN)
VARIABLES s, first, hist
vars == <<s, first, hist>>

T == 1..2
Q == 1..2
Ops == {<<n, d, a, 0>> : n \in {"tadd", "tsub", "tmul"}, d \in T, a \in T}
  \cup {<<n, d, a, b>> : n \in {"tplus", "tminus", "ttimes"}, d \in T, a \in T, b \in T}
  \cup {<<n, d, a, p>> : n \in {"tset", "tnew"}, d \in T, a \in Q, p \in 0..2}
  \cup {<<"tpic", d, 0, p>> : d \in T, p \in 0..2}
  \cup {<<"tval", d, a, v>> : d \in T, a \in Q, v \in {0, 3}}
  \cup {<<"tplain", d, a, 0>> : d \in T, a \in Q} \cup {<<"tnull", d, 0, 0>> : d \in T}
  \cup {<<n, d, a, 0>> : n \in {"qadd", "qsub", "qmul"}, d \in Q, a \in Q}
  \cup {<<n, d, a, b>> : n \in {"qplus", "qminus", "qtimes"}, d \in Q, a \in Q, b \in Q}
  \cup {<<n, d, x, y>> : n \in {"qacc", "qput"}, d \in Q, x \in {0, 1}, y \in {0, 2}}

Starts == {[t |-> <<<<0, 0, 0>>, <<2, 4, 2>>>>, q |-> <<<<4, 2>>, <<0, 0>>>>],
           [t |-> <<<<-2, 3, 5>>, <<0, 0, 0>>>>, q |-> <<<<0, 3>>, <<5, 0>>>>]}
Init == s \in Starts /\ first = s /\ hist = <<>>
Next == Len(hist) < G.depth /\ \E op \in Ops : Can(s, op, G.top) /\ s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

TypeOK == /\ Len(s.t) = 2 /\ \A n \in T : Len(s.t[n]) = 3 /\ \A m \in 1..3 : s.t[n][m] \in (-G.top)..G.top
          /\ Len(s.q) = 2 /\ \A n \in Q : Len(s.q[n]) = 2 /\ \A m \in 1..2 : s.q[n][m] \in (-G.top)..G.top
(* a call changes one object *)
OneTarget == [][Cardinality({n \in T : s'.t[n] # s.t[n]}) + Cardinality({n \in Q : s'.q[n] # s.q[n]}) <= 1]_vars
(* in place and into a new object give the same *)
SameEitherWay ==
    \A d \in T, a \in T : \A n \in {<<"tadd", "tplus">>, <<"tsub", "tminus">>, <<"tmul", "ttimes">>} :
        New(s, <<n[1], d, a, 0>>) = New(s, <<n[2], d, d, a>>)
(* the value of a trade-off is linear in its quality *)
Linear == \A p \in 0..2 : FromP(Plus(s.q[1], s.q[2]), p) = Plus(FromP(s.q[1], p), FromP(s.q[2], p))

Emit == IF Len(hist') = G.depth /\ (G.every = 1 \/ RandomElement(1..G.every) = 1)
        THEN PrintT("SCENARIO " \o ToJson(<<[op |-> "regs", t |-> first.t, q |-> first.q, calls |-> hist']>>))
        ELSE TRUE
=============================================================================
