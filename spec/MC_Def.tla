-------------------------------- MODULE MC_Def ------------------------------
(* Laws of the definitions of gain and loss (C07-C10, C16, C19), for random  *)
(* small value arrays: the form with prefix sums that Trace uses is the      *)
(* definition; gain and loss are not negative, null for one cell, and grow   *)
(* when blocks are merged; symmetries transport them.                        *)
EXTENDS Problems, Agg, Json, IOUtils

CONSTANTS MaxNodes, MaxT, MaxV, Top, Samples

TableFile == JsonDeserialize(IOEnv.TABLES)
TXL == TableFile.xl
TLG == TableFile.lg

VARIABLES par, T, V, val, perm
vars == <<par, T, V, val, perm>>

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ T \in 1..MaxT
    /\ V \in 1..MaxV
    /\ val \in {[n \in 1..(LeavesOf(par) * T * V) |-> RandomElement(0..Top)] : k \in 1..Samples}
    /\ perm \in {RandomElement({f \in [Nodes(par) -> Nodes(par)] :
                    /\ {f[h] : h \in Nodes(par)} = Nodes(par)
                    /\ \A h \in Nodes(par) : (h < LeavesOf(par)) = (f[h] < LeavesOf(par))})}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

L == LeavesOf(par)
Kids == KidSeqs(par)
S == [L |-> L, T |-> T, V |-> V, val |-> val]
Root == RootOf(par)

Tol == 64       \* in units of 2^-20
Same(x, y) == Near(x, y, Tol)
Bs == Blocks(par, T)
G(s, kids, b) == GainDef(s, kids, b[1], b[2], b[3])
O(s, kids, b) == LossDef(s, kids, b[1], b[2], b[3])

PrefixIsDefinition ==
    \A h \in Nodes(par) : LET q == NodeQuality(S, Kids, h) IN
        \A i \in 0..(T-1) : \A j \in i..(T-1) :
            /\ Same(q[i + 1][j - i + 1][1], GainDef(S, Kids, h, i, j))
            /\ Same(q[i + 1][j - i + 1][2], LossDef(S, Kids, h, i, j))
NotNegative == \A b \in Bs : NearLe(Zero, G(S, Kids, b), Tol) /\ NearLe(Zero, O(S, Kids, b), Tol)
NullForOneCell == \A b \in Bs : Cardinality(CellsOf(Kids, b)) = 1 => Same(G(S, Kids, b), Zero) /\ Same(O(S, Kids, b), Zero)
(* the whole has the greatest gain and loss: normalised ones are at most 1 *)
WholeIsGreatest == LET w == <<Root, 0, T - 1>> IN
    \A b \in Bs : NearLe(G(S, Kids, b), G(S, Kids, w), Tol) /\ NearLe(O(S, Kids, b), O(S, Kids, w), Tol)
(* no partition has more gain or loss than the whole *)
SumOf(f, P) == Norm(FoldLeft(LAMBDA acc, b : Norm(Plus(acc, f[b])), Zero, SetToSeq(P)))
WholeIsCoarsest ==
    Cardinality(Bs) <= 14 =>
    LET w == <<Root, 0, T - 1>> g == [b \in Bs |-> G(S, Kids, b)] o == [b \in Bs |-> O(S, Kids, b)] IN
    \A P \in AllPartitions(par, T) : NearLe(SumOf(g, P), g[w], Tol) /\ NearLe(SumOf(o, P), o[w], Tol)
(* equal values: no loss at all *)
HomogeneousHasNoLoss ==
    LET s == [S EXCEPT !.val = [n \in 1..Len(val) |-> val[1]]] IN \A b \in Bs : Same(O(s, Kids, b), Zero)
(* C19 *)
At2(s, h, k, t) == Val(s, h, k, t)
RevVal == [n \in 1..Len(val) |-> LET x == n - 1 t == x % T IN val[x - t + (T - 1 - t) + 1]]
ReverseSame == LET s == [S EXCEPT !.val = RevVal] IN
    \A b \in Bs : LET c == <<b[1], T - 1 - b[3], T - 1 - b[2]>> IN Same(G(S, Kids, b), G(s, Kids, c)) /\ Same(O(S, Kids, b), O(s, Kids, c))
Renumber ==
    LET inv(x) == CHOOSE h \in Nodes(par) : perm[h] = x
        p2 == [n \in 1..Len(par) |-> LET q == par[inv(n - 1) + 1] IN IF q = -1 THEN -1 ELSE perm[q]]
        s == [S EXCEPT !.val = [n \in 1..Len(val) |-> LET x == n - 1 h == x \div (V * T) IN val[inv(h) * V * T + (x % (V * T)) + 1]]]
    IN  \A b \in Bs : LET c == <<perm[b[1]], b[2], b[3]>> k2 == KidSeqs(p2) IN
           Same(G(S, Kids, b), G(s, k2, c)) /\ Same(O(S, Kids, b), O(s, k2, c))
TwiceTheSeries ==
    LET s == [S EXCEPT !.V = 2 * V, !.val = [n \in 1..(2 * Len(val)) |->
                LET x == n - 1 h == x \div (2 * V * T) r == x % (2 * V * T) k == (r \div T) % V t == r % T IN val[(h * V + k) * T + t + 1]]]
    IN  \A b \in Bs : Same(Times(2, G(S, Kids, b)), G(s, Kids, b)) /\ Same(Times(2, O(S, Kids, b)), O(s, Kids, b))
Factor == LET s == [S EXCEPT !.val = [n \in 1..Len(val) |-> 3 * val[n]]] IN
    \A b \in Bs : Near(Times(3, G(S, Kids, b)), G(s, Kids, b), 3 * Tol) /\ Near(Times(3, O(S, Kids, b)), O(s, Kids, b), 3 * Tol)
=============================================================================
