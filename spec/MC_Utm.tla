-------------------------------- MODULE MC_Utm ------------------------------
(* The triangular matrix as an array with an index (C21): the index is a     *)
(* bijection onto 0..n(n+1)/2-1, so that writing a position writes no other. *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS MaxSize, WriteSize, Values,
          Variant  \* "none", or a wrong design: then the model must fail

VARIABLES n, cells, model, last
vars == <<n, cells, model, last>>

Positions(k) == {<<i, j>> \in (0..(k-1)) \X (0..(k-1)) : i <= j}
Elements(k) == (k * (k + 1)) \div 2
Index(k, i, j) == (j - i) * k - (IF Variant = "wrong diagonal" THEN ((j - i) * (j - i)) \div 2 ELSE ((j - i) * (j - i - 1)) \div 2) + i

Init ==
    /\ n \in 1..MaxSize
    /\ cells = [e \in 0..(Elements(n) - 1) |-> 0]
    /\ model = [p \in Positions(n) |-> 0]
    /\ last = <<>>

Write(i, j, v) ==
    /\ n <= WriteSize
    /\ cells' = [cells EXCEPT ![Index(n, i, j)] = v]
    /\ model' = [model EXCEPT ![<<i, j>>] = v]
    /\ last' = <<i, j, v>>
    /\ UNCHANGED n
Next == \E i, j \in 0..(n-1) : i <= j /\ \E v \in 1..Values : Write(i, j, v)
Spec == Init /\ [][Next]_vars

View == <<n, cells, model>>
Bijection == LET I == {Index(n, p[1], p[2]) : p \in Positions(n)} IN
    I = 0..(Elements(n) - 1) /\ Cardinality(I) = Cardinality(Positions(n))
(* as in Proofs, where it is shown for every size *)
AsProved == \A p \in Positions(n) : LET d == p[2] - p[1] IN 2 * Index(n, p[1], p[2]) = 2 * d * n - d * (d - 1) + 2 * p[1]
ReadsLastWrite == \A p \in Positions(n) : cells[Index(n, p[1], p[2])] = model[p]
=============================================================================
