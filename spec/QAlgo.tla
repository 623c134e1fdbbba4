-------------------------------- MODULE QAlgo -------------------------------
(* Qualities as the library computes them (C07-C09): per series, the sums    *)
(* and the informations of the intervals of a leaf are built from the last   *)
(* start, those of a node are accumulated by its children when they are      *)
(* processed, one series after the other.                                    *)
EXTENDS Problems, Agg, Json, IOUtils

CONSTANTS MaxNodes, MaxT, MaxV, Top, Samples,
          Variant  \* "none", or a wrong design: then the model must fail

TableFile == JsonDeserialize(IOEnv.TABLES)
TXL == TableFile.xl
TLG == TableFile.lg

VARIABLES par, T, V, val, k, todo, sum, info, gain, loss
vars == <<par, T, V, val, k, todo, sum, info, gain, loss>>

L == LeavesOf(par)
Kids == KidSeqs(par)
Root == RootOf(par)
S == [L |-> L, T |-> T, V |-> V, val |-> val]
Iv == {<<i, j>> \in (0..(T-1)) \X (0..(T-1)) : i <= j}
Null == [h \in Nodes(par) |-> [b \in Iv |-> Zero]]
NullInt == [h \in Nodes(par) |-> [b \in Iv |-> 0]]

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ T \in 1..MaxT /\ V \in 1..MaxV
    /\ val \in {[n \in 1..(L * T * V) |-> RandomElement(0..Top)] : x \in 1..Samples}
    /\ k = 0 /\ todo = Nodes(par)
    /\ sum = NullInt /\ info = Null /\ gain = Null /\ loss = Null

(* the reduction of entropy of s, of which i are known, and the divergence *)
EntropyReduction(s, i) == Norm(Minus(XL[s + 1], i))
Divergence(n, s, i) == Norm(Minus(Times(s, LG[n]), EntropyReduction(s, i)))

RECURSIVE LeafSum(_, _, _)
LeafSum(h, i, j) == Val(S, h, k, i) + (IF i = j THEN 0 ELSE LeafSum(h, i + 1, j))
RECURSIVE LeafInfo(_, _, _)
LeafInfo(h, i, j) == Norm(Plus(XL[Val(S, h, k, i) + 1], IF i = j THEN Zero ELSE LeafInfo(h, i + 1, j)))

Node(h) ==
    /\ h \in todo /\ KidSet(par, h) \cap todo = {}
    /\ LET leaf == Kids[h + 1] = <<>>
           s == [b \in Iv |-> IF leaf THEN LeafSum(h, b[1], b[2]) ELSE sum[h][b]]
           f == [b \in Iv |-> IF leaf THEN LeafInfo(h, b[1], b[2]) ELSE info[h][b]]
           up(acc, x) == IF h = Root THEN acc ELSE [acc EXCEPT ![Parent(par, h)] = [b \in Iv |-> @[b] + x[b]]]
           upn(acc, x) == IF h = Root THEN acc ELSE [acc EXCEPT ![Parent(par, h)] = [b \in Iv |-> Norm(Plus(@[b], x[b]))]]
           size(b) == (IF Variant = "children count" /\ ~leaf THEN Len(Kids[h + 1]) ELSE SizeOf(Kids, h)) * (b[2] - b[1] + 1)
       IN  /\ sum' = up([sum EXCEPT ![h] = s], s)
           /\ info' = upn([info EXCEPT ![h] = f], f)
           /\ gain' = [gain EXCEPT ![h] = [b \in Iv |-> IF leaf /\ b[1] = b[2] THEN @[b] ELSE Norm(Plus(@[b], EntropyReduction(s[b], f[b])))]]
           /\ loss' = [loss EXCEPT ![h] = [b \in Iv |-> IF leaf /\ b[1] = b[2] THEN @[b] ELSE Norm(Plus(@[b], Divergence(size(b), s[b], f[b])))]]
    /\ todo' = todo \ {h}
    /\ UNCHANGED <<par, T, V, val, k>>

NextSeries ==
    /\ todo = {} /\ k < V - 1
    /\ k' = k + 1 /\ todo' = Nodes(par)
    /\ IF Variant = "sums are kept" THEN UNCHANGED <<sum, info>> ELSE sum' = NullInt /\ info' = Null
    /\ UNCHANGED <<par, T, V, val, gain, loss>>

Next == NextSeries \/ \E h \in Nodes(par) : Node(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = {} /\ k = V - 1
SumsAreSums == \A h \in Nodes(par) \ todo : \A b \in Iv : sum[h][b] = CellSum(S, Kids, h, b[1], b[2], k)
Defined == Done => \A h \in Nodes(par) : \A b \in Iv :
    /\ Near(gain[h][b], GainDef(S, Kids, h, b[1], b[2]), 32)
    /\ Near(loss[h][b], LossDef(S, Kids, h, b[1], b[2]), 32)
Terminates == <>Done
=============================================================================
