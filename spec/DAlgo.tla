-------------------------------- MODULE DAlgo -------------------------------
(* The best two-dimensional partition as the library computes it: for every  *)
(* node, children first, every interval from the last start, shorter before  *)
(* longer, is one block, or the sum of the children, or is cut in time,      *)
(* whichever is worth most (C06); then the cuts are followed from the root   *)
(* (C03).                                                                    *)
EXTENDS Problems, Agg

CONSTANTS MaxNodes, MaxT, MaxCells, Top, Samples, Bits,
          Variant  \* "none", or a wrong design: then the model must fail


VARIABLES par, M, a, order, k, i, j, val, below, cut, parts, stack, pc
vars == <<par, M, a, order, k, i, j, val, below, cut, parts, stack, pc>>

T == Len(M[1])
One == 2^Bits
K == KeysOf(M, a, One - a)
W(h, x, y) == K[h + 1][x + 1][y - x + 1]
Kids == KidSeqs(par)
Root == RootOf(par)
Cells == {<<h, x, y>> \in Nodes(par) \X (0..(T-1)) \X (0..(T-1)) : x <= y}

\* one order of processing: leaves first, each node after its children
RECURSIVE Ordered(_, _)
Ordered(p, done) ==
    IF Len(done) = Len(p) THEN done
    ELSE Ordered(p, Append(done, CHOOSE h \in Nodes(p) :
             /\ h \notin {done[n] : n \in 1..Len(done)}
             /\ KidSet(p, h) \subseteq {done[n] : n \in 1..Len(done)}
             /\ \A g \in Nodes(p) : g < h => \/ g \in {done[n] : n \in 1..Len(done)}
                                             \/ ~(KidSet(p, g) \subseteq {done[n] : n \in 1..Len(done)})))

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ M \in UNION {SomeMatrices(par, n, Pairs(Top), TRUE, Samples) : n \in {t \in 1..MaxT : t * LeavesOf(par) <= MaxCells}}
    /\ a \in 0..One
    /\ order = Ordered(par, <<>>)
    /\ k = 1 /\ i = T - 1 /\ j = T - 1
    /\ val = [c \in Cells |-> <<0, 0, 0>>]
    /\ below = [c \in Cells |-> <<0, 0, 0>>]
    /\ cut = [c \in Cells |-> T - 1]
    /\ parts = <<>> /\ stack = <<>> /\ pc = "fill"

(* the choices for one block: one part, children, or the cuts in turn *)
Choose(h, x, y) ==
    LET first == <<W(h, x, y), y>>
        second == IF Kids[h + 1] # <<>> /\ (Variant = "children from the start only" => x = 0) /\ KeyLess(first[1], below[<<h, x, y>>]) THEN <<below[<<h, x, y>>], -1>> ELSE first
    IN  FoldLeft(LAMBDA best, c :
                    LET v == KeyPlus(val[<<h, x, c>>], val[<<h, c + 1, y>>])
                    IN  IF KeyLess(best[1], v) THEN <<v, c>> ELSE best,
                 second, IF Variant = "children are not cut" /\ second[2] = -1 THEN <<>> ELSE [n \in 1..(y - x) |-> x + n - 1])

Block ==
    /\ pc = "fill"
    /\ LET h == order[k]
           b == Choose(h, i, j)
       IN  /\ val' = [val EXCEPT ![<<h, i, j>>] = b[1]]
           /\ cut' = [cut EXCEPT ![<<h, i, j>>] = b[2]]
           /\ below' = IF h = Root THEN below ELSE [below EXCEPT ![<<Parent(par, h), i, j>>] = KeyPlus(@, b[1])]
    /\ IF j < T - 1 THEN j' = j + 1 /\ UNCHANGED <<i, k, pc, stack>>
       ELSE IF i > 0 THEN i' = i - 1 /\ j' = i - 1 /\ UNCHANGED <<k, pc, stack>>
       ELSE IF k < Len(order) THEN k' = k + 1 /\ i' = T - 1 /\ j' = T - 1 /\ UNCHANGED <<pc, stack>>
       ELSE pc' = "follow" /\ stack' = <<<<Root, 0, T - 1>>>> /\ UNCHANGED <<i, j, k>>
    /\ UNCHANGED <<par, M, a, order, parts>>

Follow ==
    /\ pc = "follow" /\ stack # <<>>
    /\ LET b == Head(stack) c == cut[b] IN
       IF c = -1
       THEN stack' = [n \in 1..Len(Kids[b[1] + 1]) |-> <<Kids[b[1] + 1][n], b[2], b[3]>>] \o Tail(stack) /\ UNCHANGED parts
       ELSE IF c < b[3]
       THEN stack' = <<<<b[1], b[2], c>>, <<b[1], c + 1, b[3]>>>> \o Tail(stack) /\ UNCHANGED parts
       ELSE parts' = Append(parts, b) /\ stack' = Tail(stack)
    /\ UNCHANGED <<par, M, a, order, k, i, j, val, below, cut, pc>>

End == /\ pc = "follow" /\ stack = <<>> /\ pc' = "done"
       /\ UNCHANGED <<par, M, a, order, k, i, j, val, below, cut, parts, stack>>

Next == Block \/ Follow \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the finished blocks have the best value of their region; the children are *)
(* complete when their parent is processed                                   *)
Finished(n, x, y) == n < k \/ (n = k /\ (x > i \/ (x = i /\ y < j)))
Blockwise == pc = "fill" =>
    \A n \in 1..Len(order) : LET h == order[n] r == BestRows(K, Kids, T, h) IN
        \A x \in 0..(T-1) : \A y \in x..(T-1) :
            Finished(n, x, y) => val[<<h, x, y>>] = r[x + 1][y - x + 1]
Done == pc = "done"
Tiles == Done => Covers(par, Kids, T, parts)
Optimal == Done => Worth(K, parts) = BestOfAll(K, par, T) /\ val[<<Root, 0, T - 1>>] = Worth(K, parts)
Terminates == <>Done
=============================================================================
