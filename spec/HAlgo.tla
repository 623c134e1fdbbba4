-------------------------------- MODULE HAlgo -------------------------------
(* The best hierarchical partition as the library computes it: nodes are     *)
(* compared with the sum of their children (C05), children before their      *)
(* parent in any such order (C15), then the root is followed down (C02).     *)
EXTENDS Problems, Agg

CONSTANTS MaxNodes, Top, Samples, Bits,
          Variant  \* "none", or a wrong design: then the model must fail


VARIABLES par, M, a, todo, val, below, whole, parts, stack, pc
vars == <<par, M, a, todo, val, below, whole, parts, stack, pc>>

One == 2^Bits
K == KeysOf(M, a, One - a)
W(h) == K[h + 1][1][1]
Kids == KidSeqs(par)
Root == RootOf(par)

Init ==
    /\ par \in TreesUpTo(MaxNodes)
    /\ M \in SomeMatrices(par, 1, Pairs(Top), TRUE, Samples)
    /\ a \in 0..One
    /\ todo = Nodes(par)
    /\ val = [h \in Nodes(par) |-> <<0, 0, 0>>]
    /\ below = [h \in Nodes(par) |-> <<0, 0, 0>>]
    /\ whole = [h \in Nodes(par) |-> TRUE]
    /\ parts = <<>> /\ stack = <<>> /\ pc = "up"

(* any node all of whose children are done *)
Ready(h) == h \in todo /\ (Variant = "any order" \/ KidSet(par, h) \cap todo = {})
Node(h) ==
    /\ pc = "up" /\ Ready(h)
    /\ LET split == Kids[h + 1] # <<>> /\ (IF Variant = "value only" THEN W(h)[1] < below[h][1] ELSE KeyLess(W(h), below[h]))
           v == IF split THEN below[h] ELSE W(h)
       IN  /\ val' = [val EXCEPT ![h] = v]
           /\ whole' = [whole EXCEPT ![h] = ~split]
           /\ below' = IF h = Root THEN below ELSE [below EXCEPT ![Parent(par, h)] = KeyPlus(@, v)]
    /\ todo' = todo \ {h}
    /\ UNCHANGED <<par, M, a, parts, stack, pc>>

Start ==
    /\ pc = "up" /\ todo = {}
    /\ pc' = "down" /\ stack' = <<Root>>
    /\ UNCHANGED <<par, M, a, todo, val, below, whole, parts>>

Down ==
    /\ pc = "down" /\ stack # <<>>
    /\ LET h == Head(stack) IN
       IF whole[h]
       THEN parts' = Append(parts, <<h, 0, 0>>) /\ stack' = Tail(stack)
       ELSE stack' = Kids[h + 1] \o Tail(stack) /\ UNCHANGED parts
    /\ UNCHANGED <<par, M, a, todo, val, below, whole, pc>>

End == /\ pc = "down" /\ stack = <<>> /\ pc' = "done" /\ UNCHANGED <<par, M, a, todo, val, below, whole, parts, stack>>

Next == (\E h \in Nodes(par) : Node(h)) \/ Start \/ Down \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a node that is done has the best value of the subtree below it *)
Below(h) == {x \in Nodes(par) : h \in Above(par, x)}
Sub(h) == BestRows(K, Kids, 1, h)[1][1]
Nodewise == pc = "up" => \A h \in Nodes(par) \ todo : val[h] = Sub(h)
LeavesStay == \A h \in Nodes(par) : Kids[h + 1] = <<>> => whole[h]
Done == pc = "done"
Tiles == Done => Covers(par, Kids, 1, parts)
Optimal == Done => Worth(K, parts) = BestOfAll(K, par, 1) /\ val[Root] = Worth(K, parts)
Terminates == <>Done
=============================================================================
