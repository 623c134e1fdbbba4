------------------------------- MODULE AggAlgo ------------------------------
(* The aggregate of a part by descent in the hierarchy from the node of the  *)
(* part (C16): every leaf below it is counted once, no other leaf is.        *)
EXTENDS Problems, Agg

CONSTANTS MaxNodes,
          Variant  \* "none", or a wrong design: then the model must fail


VARIABLES par, h, stack, count, first
vars == <<par, h, stack, count, first>>

Kids == KidSeqs(par)
Init == /\ par \in TreesUpTo(MaxNodes) /\ h \in Nodes(par)
        /\ stack = <<h>> /\ count = [x \in LeafSet(par) |-> 0] /\ first = TRUE
Step == /\ stack # <<>>
        /\ LET x == Head(stack) IN
           IF x < LeavesOf(par)
           THEN count' = [count EXCEPT ![x] = @ + 1] /\ stack' = Tail(stack)
           ELSE stack' = Kids[x + 1] \o Tail(stack) /\ UNCHANGED count
        /\ UNCHANGED <<par, h, first>>
(* the aggregate of another part, after that of the first *)
Again == /\ stack = <<>> /\ first
         /\ first' = FALSE
         /\ h' \in Nodes(par)
         /\ stack' = <<h'>>
         /\ count' = IF Variant = "not emptied" THEN count ELSE [x \in LeafSet(par) |-> 0]
         /\ UNCHANGED par
Next == Step \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == stack = <<>>
Exactly == Done => \A x \in LeafSet(par) : count[x] = (IF x \in LeavesUnder(Kids, h) THEN 1 ELSE 0)
OneTermPerCell == Done => FoldLeft(LAMBDA a, x : a + count[x], 0, SetToSeq(LeafSet(par))) = SizeOf(Kids, h)
Terminates == <>Done
=============================================================================
