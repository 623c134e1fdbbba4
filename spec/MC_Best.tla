------------------------------- MODULE MC_Best ------------------------------
(* The recursive optimum of Agg is the greatest worth of all partitions, and *)
(* the laws of optimal partitions (C04-C06, C13, C19), on small problems.    *)
EXTENDS Problems, Agg

CONSTANTS MaxNodes, MaxT, MaxCells, Top, Samples, Bits

VARIABLES par, T, M
vars == <<par, T, M>>

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ T \in 1..MaxT
    /\ LeavesOf(par) * T <= MaxCells
    /\ M \in SomeMatrices(par, T, Pairs(Top), TRUE, Samples)

Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Kids == KidSeqs(par)
One == 2^Bits
KeyAt(a) == KeysOf(M, a, One - a)
Rec(a) == BestKey(KeyAt(a), Kids, T, RootOf(par))

RecursionIsBest == \A a \in 0..One : Rec(a) = BestOfAll(KeyAt(a), par, T)

(* the wide keys tell the same: values have the same order for p=a/2^Bits,   *)
(* written with 30 bits, and hi*2^15+lo is 2^(30-Bits) times the value       *)
Spread == 2^(30 - Bits)
WideIsNarrow == \A a \in 0..One :
    LET K == KeyAt(a) W == WideKeysOf(M, a * Spread)
        same(k, w) == /\ w[3] = k[2]
                      /\ w[2] % 32768 = (k[1] * (Spread % 32768)) % 32768
                      /\ w[1] + (w[2] \div 32768) = k[1] * (Spread \div 32768) + ((k[1] * (Spread % 32768)) \div 32768)
        all == AllPartitions(par, T)
    IN  /\ same(Rec(a), WideBest(W, Kids, T, RootOf(par)))
        /\ \A P \in all :
             LET x == Worth(K, SetToSeq(P)) y == WideWorth(W, SetToSeq(P)) IN
             /\ same(x, y)
             /\ LET o == Rec(a) v == WideBest(W, Kids, T, RootOf(par)) IN
                  /\ WideSame(y, v) = (x[1] = o[1])
                  /\ WideLess(y, v) = (x[1] < o[1] \/ (x[1] = o[1] /\ x[2] < o[2]))

(* and so do the keys of many bits *)
HugeIsNarrow == \A a \in 0..One :
    LET K == KeyAt(a) W == HugeKeysOf(M, a * Spread)
        same(k, w) ==
            LET c == k[1] * (Spread % 32768) d == k[1] * (Spread \div 32768) + (c \div 32768)
            IN  w = <<d \div 32768, d % 32768, c % 32768, k[2], k[3]>>
        all == AllPartitions(par, T)
    IN  /\ same(Rec(a), HugeBest(W, Kids, T, RootOf(par)))
        /\ \A P \in all : LET x == Worth(K, SetToSeq(P)) y == HugeWorth(W, SetToSeq(P)) IN
             /\ same(x, y)
             /\ HugeLess(y, HugeBest(W, Kids, T, RootOf(par))) = KeyLess(x, Rec(a))

(* with great numbers they still are linear *)
Great == {-33554431, -12345678, -32769, -1, 0, 1, 32767, 32768, 1234567, 33554431}
HugeIsLinear == \A n \in {0, 64, 32768 * 64, 715827200, 1073741824 - 64, 1073741824} :
    \A x, y \in Great \X {-3, 0, 32769, 33554431} :
       HugePlus(HugeKey(x, n), HugeKey(y, n)) = HugeKey(<<x[1] + y[1], x[2] + y[2]>>, n)
ASSUME HugeIsLinear

AllAreAll == Cardinality(Blocks(par, T)) <= 9 => AllPartitions(par, T) = AllPartitionsDef(par, T)

(* every set AllPartitions lists covers, and Covers accepts no other *)
CoversIsPartition ==
    LET all == AllPartitions(par, T) IN
    /\ all # {}
    /\ \A P \in all : Covers(par, Kids, T, SetToSeq(P))
    /\ {<<RootOf(par), 0, T - 1>>} \in all
    \* dropping, repeating or adding a part is noticed
    /\ \A P \in all : \A b \in P :
          LET s == SetToSeq(P) IN
          /\ ~Covers(par, Kids, T, SetToSeq(P \ {b}))
          /\ ~Covers(par, Kids, T, Append(s, b))

(* gain and loss of the optimum grow with the parameter (C13); entries are   *)
(* not negative                                                              *)
Gain(k) == k[2]
Loss(k) == -k[3]
Monotone == \A a, b \in 0..One : a < b =>
    LET x == Rec(a) y == Rec(b) IN Gain(x) <= Gain(y) /\ Loss(x) <= Loss(y)

(* the optimum for the least parameter has the least loss, for the greatest  *)
(* the greatest gain                                                         *)
Extremes ==
    LET all == {Worth([h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |-> <<0, M[h][i][d][1], M[h][i][d][2]>>]]], SetToSeq(P)) : P \in AllPartitions(par, T)}
    IN  /\ \A x \in all : Loss(Rec(0)) <= x[3]
        /\ \A x \in all : Gain(Rec(One)) >= x[2]

(* reversing time does not change the optimum (C19) *)
Reversed == [h \in DOMAIN M |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |-> M[h][T - i - d + 2][d]]]]
ReverseSame == \A a \in 0..One : BestKey(KeysOf(Reversed, a, One - a), Kids, T, RootOf(par)) = Rec(a)
=============================================================================
