------------------------------ MODULE Problems ------------------------------
(* Small universes: hierarchies and matrices of integer qualities.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Tree

(* all hierarchies of n nodes with L leaves, however the inner nodes are     *)
(* numbered                                                                  *)
TreesOf(n, L) ==
    IF n = 1 THEN (IF L = 1 THEN {<<-1>>} ELSE {})
    ELSE IF L >= n THEN {}
    ELSE {par \in [1..n -> (L..(n-1)) \cup {-1}] : IsTree(par, L)}

Trees(n) == UNION {TreesOf(n, L) : L \in 1..n}
TreesUpTo(n) == UNION {Trees(k) : k \in 1..n}

LeavesOf(par) == Cardinality(LeafSet(par))

(* the intervals i..j of T instants as positions of a triangular matrix      *)
Tri(T, S) ==      \* all triangular matrices with entries in S
    LET cells == {<<i, d>> \in (1..T) \X (1..T) : d <= T - i + 1}
    IN  {[i \in 1..T |-> [d \in 1..(T - i + 1) |-> f[<<i, d>>]]] : f \in [cells -> S]}

(* Matrices for a hierarchy: entries from S, null where the block is one     *)
(* cell (`plain' says whether they are free as well)                         *)
Matrices(par, T, S, plain) ==
    LET kids == KidSeqs(par)
        pos == {<<h, i, d>> \in Nodes(par) \X (1..T) \X (1..T) :
                  d <= T - i + 1 /\ (plain \/ d > 1 \/ kids[h + 1] # <<>>)}
        mk(f) == [h \in 1..Len(par) |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |->
                    IF <<h - 1, i, d>> \in DOMAIN f THEN f[<<h - 1, i, d>>] ELSE <<0, 0>>]]]
    IN  {mk(f) : f \in [pos -> S]}

(* n of them, at random                                                      *)
SomeMatrices(par, T, S, plain, n) ==
    LET kids == KidSeqs(par)
        pos == {<<h, i, d>> \in Nodes(par) \X (1..T) \X (1..T) :
                  d <= T - i + 1 /\ (plain \/ d > 1 \/ kids[h + 1] # <<>>)}
        mk(f) == [h \in 1..Len(par) |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |->
                    IF <<h - 1, i, d>> \in DOMAIN f THEN f[<<h - 1, i, d>>] ELSE <<0, 0>>]]]
        one(x) == mk(TLCEval([c \in pos |-> RandomElement(S)]))
    IN  {one(x) : x \in 1..n}

Pairs(k) == (0..k) \X (0..k)
=============================================================================
