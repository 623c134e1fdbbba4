-------------------------------- MODULE MC_Eq -------------------------------
(* Comparing partitions (C22): a pairwise search from one side only and the  *)
(* comparison position by position both decide equality of the parts, for    *)
(* partitions of the same cells as the library lists their parts.            *)
EXTENDS Problems, Agg

CONSTANTS MaxNodes, MaxT, MaxBlocks

VARIABLES par, T, P, R
vars == <<par, T, P, R>>

TX == <<<<0, 0, 0>>>>    \* (no values here)

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ T \in 1..MaxT
    /\ Cardinality(Blocks(par, T)) <= MaxBlocks
    /\ P \in AllPartitions(par, T)
    /\ R \in AllPartitions(par, T)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* a listing of a partition: any order of its parts *)
Lists(X) == {s \in [1..Cardinality(X) -> X] : {s[n] : n \in 1..Cardinality(X)} = X}

OneSided(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : \E k \in 1..Len(b) : a[n] = b[k]

(* the listing by descent: the children in their order *)
Kids == KidSeqs(par)
RECURSIVE Descent(_, _)
Descent(X, h) ==
    IF <<h, 0, 0>> \in X THEN <<<<h, 0, 0>>>>
    ELSE FoldLeft(LAMBDA acc, c : acc \o Descent(X, c), <<>>, Kids[h + 1])
InTime(X) == SortSeq(SetToSeq(X), LAMBDA a, b : a[2] < b[2])

OneSidedIsEquality ==
    \* any listing of each
    Cardinality(P) <= 4 /\ Cardinality(R) <= 4 =>
    \A a \in Lists(P) : LET b == SetToSeq(R) IN OneSided(a, b) = (P = R) /\ OneSided(b, a) = (P = R)
ByPosition ==
    /\ T = 1 => (Descent(P, RootOf(par)) = Descent(R, RootOf(par))) = (P = R)
    /\ Len(par) = 1 => (InTime(P) = InTime(R)) = (P = R)
(* the number of parts alone, or a part alone, does not decide it *)
=============================================================================
