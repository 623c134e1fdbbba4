------------------------------ MODULE SweepAlgo -----------------------------
(* The sweep: the interval of parameters is halved while the partitions of   *)
(* its ends differ and it is wider than the threshold, or has no parameter   *)
(* between its ends; then neighbours with equal partitions are removed.      *)
(* Parameters are the multiples of 1/2^Bits; they stand for the floats.      *)
(* Properties C11, C12, C13.                                                 *)
EXTENDS Problems, Agg

CONSTANTS Trees_, MaxT, MaxCells, Top, Samples, Bits, Ties,
          Variant  \* "none", or a wrong design: then the model must fail


VARIABLES par, M, th, min, max, tie, stack, list, pos, pc, best
vars == <<par, M, th, min, max, tie, stack, list, pos, pc, best>>

T == Len(M[1])
One == 2^Bits

(* best[p] is the partition the library returns for p: one of the best, but  *)
(* which one is not said: `tie' selects one of them                          *)
BestSet(p, all, m) ==
    LET K == KeysOf(m, p, One - p)
        w == [P \in all |-> Worth(K, SetToSeq(P))]
    IN  {P \in all : \A Q \in all : ~KeyLess(w[P], w[Q])}
Pick(S, t) == LET s == SetToSeq(S) IN s[((t - 1) % Len(s)) + 1]

Init ==
    /\ par \in Trees_
    /\ M \in UNION {SomeMatrices(par, n, Pairs(Top), TRUE, Samples) : n \in {t \in 1..MaxT : t * LeavesOf(par) <= MaxCells}}
    /\ th \in {0, 1, 3, One - 1}
    /\ min \in {0, 3} /\ max \in {3, One - 2, One}
    /\ tie \in 1..Ties
    /\ best = LET all == AllPartitions(par, T) IN [p \in 0..One |-> Pick(BestSet(p, all, M), tie)]
    /\ stack = <<<<"halve", min, max>>>>
    /\ list = IF Variant = "nothing between equal bounds" /\ min = max THEN <<>> ELSE <<min>>
    /\ pos = 0 /\ pc = "search"

Mid(lo, hi) == lo + ((hi - lo) \div 2)

Halve ==
    /\ pc = "search" /\ stack # <<>>
    /\ LET t == Head(stack) IN
       IF t[1] = "add"
       THEN list' = Append(list, t[2]) /\ stack' = Tail(stack)
       ELSE LET lo == t[2] hi == t[3] mid == Mid(lo, hi) IN
            /\ stack' = IF best[lo] # best[hi] /\ hi - lo > th /\ (Variant = "no guard" \/ ~(mid <= lo \/ mid >= hi))
                        THEN <<<<"halve", lo, mid>>, <<"add", mid>>, <<"halve", mid, hi>>>> \o Tail(stack)
                        ELSE Tail(stack)
            /\ UNCHANGED list
    /\ UNCHANGED <<par, M, th, min, max, tie, pos, pc, best>>

Close ==
    /\ pc = "search" /\ stack = <<>>
    /\ list' = IF max # min THEN Append(list, max) ELSE list
    /\ pos' = IF Variant = "forward" THEN 2 ELSE Len(list')
    /\ pc' = "dedup"
    /\ UNCHANGED <<par, M, th, min, max, tie, stack, best>>

RemoveAt_(s, n) == [k \in 1..(Len(s) - 1) |-> IF k < n THEN s[k] ELSE s[k + 1]]
Dedup ==
    /\ pc = "dedup" /\ (IF Variant = "forward" THEN pos <= Len(list) ELSE pos > 1)
    /\ list' = IF best[list[pos]] = best[list[pos - 1]] THEN RemoveAt_(list, pos) ELSE list
    /\ pos' = IF Variant = "forward" THEN pos + 1 ELSE pos - 1
    /\ UNCHANGED <<par, M, th, min, max, tie, stack, pc, best>>
Finish == /\ pc = "dedup" /\ (IF Variant = "forward" THEN pos > Len(list) ELSE pos <= 1) /\ pc' = "done"
          /\ UNCHANGED <<par, M, th, min, max, tie, stack, list, pos, best>>

Next == Halve \/ Close \/ Dedup \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
(* C11 *)
Ascending == \A n \in 1..(Len(list) - 1) : list[n] < list[n + 1]
InBounds == \A n \in 1..Len(list) : min <= list[n] /\ list[n] <= max
FirstIsMin == list # <<>> /\ list[1] = min
(* the search is no deeper than there are halves *)
Shallow == Len(stack) <= 2 * (Bits + 1) + 1
NeighboursDiffer == Done => \A n \in 1..(Len(list) - 1) : best[list[n]] # best[list[n + 1]]
(* C12: by value, at every parameter *)
LastNotAbove(q) == CHOOSE n \in 1..Len(list) : list[n] <= q /\ (n = Len(list) \/ list[n + 1] > q)
ValueAt(P, q) == Worth(KeysOf(M, q, One - q), SetToSeq(P))[1]
NothingMissed == Done =>
    \A q \in min..max :
        \/ \E n \in 1..Len(list) : list[n] > q /\ list[n] - q <= th
        \/ ValueAt(best[list[LastNotAbove(q)]], q) = ValueAt(best[q], q)
        \/ th = 0 /\ \E n \in 1..Len(list) : list[n] = q + 1
(* C13 *)
Total2(P, n) == FoldLeft(LAMBDA x, b : x + At(M, b)[n], 0, SetToSeq(P))
Grows == Done => \A n \in 1..(Len(list) - 1) :
    /\ Total2(best[list[n]], 1) <= Total2(best[list[n + 1]], 1)
    /\ Total2(best[list[n]], 2) <= Total2(best[list[n + 1]], 2)
Terminates == <>Done
Small1 == TreesUpTo(3) \cup {<<4, 3, 3, 4, -1>>}
=============================================================================
