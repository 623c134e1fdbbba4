-------------------------------- MODULE Agg ---------------------------------
(* What the library computes, stated without its algorithms.                 *)
(*                                                                           *)
(* A problem has a hierarchy (par, L leaves) and T instants.  The ordered    *)
(* analysis is the hierarchy of one node, the hierarchical one T = 1.        *)
(* A block <<h, i, j>> is the product of node h and the interval i..j (from  *)
(* 0); a partition is a set of blocks such that every cell (leaf, instant)   *)
(* is in exactly one.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Fixed, Tree, Order

-----------------------------------------------------------------------------
(* Partitions *)

Blocks(par, T) == {<<h, i, j>> \in Nodes(par) \X (0..(T-1)) \X (0..(T-1)) : i <= j}

CellsOf(kids, b) == LeavesUnder(kids, b[1]) \X (b[2]..b[3])

(* parts is a sequence of blocks *)
Covers(par, kids, T, parts) ==
    LET leaves == {h \in Nodes(par) : kids[h + 1] = <<>>}
        under == [h \in Nodes(par) |-> LeavesUnder(kids, h)]
    IN
    /\ \A n \in 1..Len(parts) :
          /\ parts[n][1] \in Nodes(par)
          /\ 0 <= parts[n][2] /\ parts[n][2] <= parts[n][3] /\ parts[n][3] < T
    /\ \* the numbers of cells add up, and no two blocks meet
       LET RECURSIVE Sum(_)
           Sum(n) == IF n = 0 THEN 0
                     ELSE Sum(n - 1) + Cardinality(under[parts[n][1]]) * (parts[n][3] - parts[n][2] + 1)
       IN  Sum(Len(parts)) = Cardinality(leaves) * T
    /\ \A a \in 1..Len(parts) : \A b \in (a+1)..Len(parts) :
          \/ parts[a][3] < parts[b][2]
          \/ parts[b][3] < parts[a][2]
          \/ under[parts[a][1]] \cap under[parts[b][1]] = {}

(* the set of all partitions: the exact covers of the cells; for small       *)
(* problems                                                                  *)
AllPartitions(par, T) ==
    LET kids == KidSeqs(par)
        cells == LeafSet(par) \X (0..(T-1))
        blocks == Blocks(par, T)
        of == [b \in blocks |-> CellsOf(kids, b)]
        RECURSIVE Exact(_)
        Exact(rest) ==
            IF rest = {} THEN {{}}
            ELSE LET c == CHOOSE x \in rest : TRUE IN
                 UNION {{P \cup {b} : P \in Exact(rest \ of[b])} :
                           b \in {x \in blocks : c \in of[x] /\ of[x] \subseteq rest}}
    IN  Exact(cells)

(* the same in one line: for very small problems *)
AllPartitionsDef(par, T) ==
    LET kids == KidSeqs(par)
        cells == LeafSet(par) \X (0..(T-1))
    IN  {P \in SUBSET Blocks(par, T) :
            \A c \in cells : Cardinality({b \in P : c \in CellsOf(kids, b)}) = 1}

-----------------------------------------------------------------------------
(* The trade-off.  A matrix M gives the quality <<gain, loss>> of each block *)
(* as M[h+1][i+1][j-i+1].  With integers and p = a/2^m it is exact:          *)
(* 2^m * (p*gain - (1-p)*loss) = a*gain - (2^m - a)*loss.                    *)

At(M, b) == M[b[1] + 1][b[2] + 1][b[3] - b[2] + 1]

(* (Key, KeyLess, KeyPlus, KeyMax: Order; its laws are proved in Proofs)     *)
NarrowDyn == INSTANCE Dyn WITH Sum2 <- KeyPlus, Best2 <- KeyMax, Null <- <<0, 0, 0>>
Worth(K, parts) == NarrowDyn!Worth(K, parts)

(* by definition: for small problems *)
BestOfAll(K, par, T) ==
    LET worth(P) == Worth(K, SetToSeq(P))
        all == {worth(P) : P \in AllPartitions(par, T)}
    IN  CHOOSE x \in all : \A y \in all : ~KeyLess(x, y)

(* by recursion on the hierarchy and the instants (MC_Best checks that this  *)
(* is BestOfAll)                                                             *)
BestKey(K, kids, T, root) == NarrowDyn!Best(K, kids, T, root)
BestRows(K, kids, T, h) == NarrowDyn!BestRows(K, kids, T, h)

KeysOf(M, a, b) ==
    [h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |-> Key(M[h][i][d], a, b)]]]

(* Values beyond 32 bits, for parameters of many bits: the key               *)
(* <<x, y, gain>> has the value x*2^15 + y; |y| may exceed 2^15.             *)
WidePlus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
WideLess(x, y) ==
    LET d == y[2] - x[2]
        c == (y[1] - x[1]) + (d \div 32768)
        e == d % 32768
    IN  c > 0 \/ (c = 0 /\ (e > 0 \/ (e = 0 /\ x[3] < y[3])))
WideSame(x, y) == LET d == y[2] - x[2] IN (y[1] - x[1]) + (d \div 32768) = 0 /\ d % 32768 = 0
WideMax(x, y) == IF WideLess(x, y) THEN y ELSE x
WideDyn == INSTANCE Dyn WITH Sum2 <- WidePlus, Best2 <- WideMax, Null <- <<0, 0, 0>>
WideWorth(K, parts) == WideDyn!Worth(K, parts)
WideBest(K, kids, T, root) == WideDyn!Best(K, kids, T, root)
(* 2^30 * (p*gain - (1-p)*loss) for p = n/2^30 *)
WideKey(q, n) ==
    LET k == 1073741824 - n IN
    <<(n \div 32768) * q[1] - (k \div 32768) * q[2], (n % 32768) * q[1] - (k % 32768) * q[2], q[1]>>
WideKeysOf(M, n) ==
    [h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |-> WideKey(M[h][i][d], n)]]]

(* Values of up to 56 bits, for parameters of many bits and great numbers:   *)
(* the key <<x, y, z, gain, -loss>> has the value x*2^30 + y*2^15 + z, where *)
(* y and z are in 0..2^15-1.                                                 *)
Limbs(x, y, z) == LET c == y + (z \div 32768) IN <<x + (c \div 32768), c % 32768, z % 32768>>
HugePlus(x, y) == Limbs(x[1] + y[1], x[2] + y[2], x[3] + y[3]) \o <<x[4] + y[4], x[5] + y[5]>>
HugeLess(x, y) == \E n \in 1..5 : x[n] < y[n] /\ \A k \in 1..(n-1) : x[k] = y[k]
HugeMax(x, y) == IF HugeLess(x, y) THEN y ELSE x
HugeDyn == INSTANCE Dyn WITH Sum2 <- HugePlus, Best2 <- HugeMax, Null <- <<0, 0, 0, 0, 0>>
HugeWorth(K, parts) == HugeDyn!Worth(K, parts)
HugeBest(K, kids, T, root) == HugeDyn!Best(K, kids, T, root)
(* 2^30 * (p*gain - (1-p)*loss) for p = n/2^30; |gain|, |loss| < 2^26 *)
HugeKey(q, n) ==
    LET k == 1073741824 - n
        n1 == n \div 32768 n0 == n % 32768 k1 == k \div 32768 k0 == k % 32768
        g1 == q[1] \div 32768 g0 == q[1] % 32768 l1 == q[2] \div 32768 l0 == q[2] % 32768
    IN  Limbs(n1 * g1 - k1 * l1, n1 * g0 + n0 * g1 - k1 * l0 - k0 * l1, n0 * g0 - k0 * l0) \o <<q[1], -q[2]>>
HugeKeysOf(M, n) ==
    [h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |-> HugeKey(M[h][i][d], n)]]]

-----------------------------------------------------------------------------
(* The qualities of a store of values: s.val is the flat sequence of its     *)
(* integers, by leaf, series, instant.  XL[n+1] = n*log2(n), LG[n] = log2(n) *)
(* as fixed-point numbers.                                                   *)

CONSTANTS XL, LG

Val(s, h, k, t) == s.val[((h * s.V) + k) * s.T + t + 1]

(* the definition, cell by cell *)
CellSum(s, kids, h, i, j, k) ==
    FoldLeft(LAMBDA acc, c : acc + Val(s, c[1], k, c[2]), 0,
             SetToSeq(LeavesUnder(kids, h) \X (i..j)))
CellInfo(s, kids, h, i, j, k) ==
    FoldLeft(LAMBDA acc, c : Norm(Plus(acc, XL[Val(s, c[1], k, c[2]) + 1])), Zero,
             SetToSeq(LeavesUnder(kids, h) \X (i..j)))
Series(s) == [n \in 1..s.V |-> n - 1]
GainDef(s, kids, h, i, j) ==
    Norm(FoldLeft(LAMBDA acc, k : Plus(acc, Minus(XL[CellSum(s, kids, h, i, j, k) + 1],
                                                  CellInfo(s, kids, h, i, j, k))),
                  Zero, Series(s)))
LossDef(s, kids, h, i, j) ==
    LET size == SizeOf(kids, h) * (j - i + 1) IN
    Norm(Minus(FoldLeft(LAMBDA acc, k : Norm(Plus(acc, Times(CellSum(s, kids, h, i, j, k), LG[size]))),
                        Zero, Series(s)),
               GainDef(s, kids, h, i, j)))

(* the same for all the intervals of a node, with prefix sums: prefix[t+1]   *)
(* is <<sum, sum of v*log2(v)>> before instant t                             *)
Prefix(s, leaves, k) ==
    FoldLeft(LAMBDA acc, t :
               Append(acc,
                 FoldLeft(LAMBDA x, h : LET v == Val(s, h, k, t) IN
                                        <<x[1] + v, Norm(Plus(x[2], XL[v + 1]))>>,
                          acc[Len(acc)], leaves)),
             <<<<0, Zero>>>>, [n \in 1..s.T |-> n - 1])
NodeQuality(s, kids, h) ==
    LET leaves == SetToSeq(LeavesUnder(kids, h))
        size == Len(leaves)
        pre == TLCEval([k \in 1..s.V |-> Prefix(s, leaves, k - 1)])
        One(i, j) ==
          LET sums == [k \in 1..s.V |-> pre[k][j + 2][1] - pre[k][i + 1][1]]
              gain == Norm(FoldLeft(LAMBDA acc, k :
                                      Plus(acc, Minus(XL[sums[k] + 1],
                                                      Minus(pre[k][j + 2][2], pre[k][i + 1][2]))),
                                    Zero, [n \in 1..s.V |-> n]))
              all == FoldLeft(LAMBDA acc, k : Norm(Plus(acc, Times(sums[k], LG[size * (j - i + 1)]))),
                              Zero, [n \in 1..s.V |-> n])
          IN  <<gain, Norm(Minus(all, gain))>>
    IN  [i \in 1..s.T |-> [d \in 1..(s.T - i + 1) |-> One(i - 1, i + d - 2)]]

Total(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s.val)
=============================================================================
