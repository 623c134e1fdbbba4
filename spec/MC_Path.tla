------------------------------- MODULE MC_Path ------------------------------
(* How the metadata of a hierarchy are derived: the leaves are queued first, *)
(* and a node is queued when the last of its children is taken (C15).        *)
(* Checked for every hierarchy of at most N nodes.                           *)
EXTENDS Problems

CONSTANTS N,
          Variant  \* "none", or a wrong design: then the model must fail

VARIABLES par, pos, path, missing, size, children
vars == <<par, pos, path, missing, size, children>>

L == LeavesOf(par)

Init ==
    /\ par \in TreesUpTo(N)
    /\ pos = 1
    /\ path = [n \in 1..L |-> n - 1]
    /\ missing = [h \in 1..Len(par) |-> Cardinality(KidSet(par, h - 1))]
    /\ size = [h \in 1..Len(par) |-> IF h <= L THEN 1 ELSE 0]
    /\ children = [h \in 1..Len(par) |-> <<>>]

AtRoot == par[path[pos] + 1] = -1

Take ==
    /\ pos <= Len(path)
    /\ ~AtRoot
    /\ LET c == path[pos] p == par[c + 1] IN
       /\ size' = [size EXCEPT ![p + 1] = @ + size[c + 1]]
       /\ children' = [children EXCEPT ![p + 1] = Append(@, c)]
       /\ missing' = [missing EXCEPT ![p + 1] = @ - 1]
       /\ path' = IF missing[p + 1] = (IF Variant = "first child" THEN Cardinality(KidSet(par, p)) ELSE 1) THEN Append(path, p) ELSE path
    /\ pos' = pos + 1
    /\ UNCHANGED par

Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == AtRoot

(* the queue is never empty before the root is reached *)
NeverStuck == pos <= Len(path)
(* a node is taken after all those below it, with its final size *)
Complete == \A n \in 1..Len(path) : missing[path[n] + 1] = 0
Right == Done =>
    LET kids == KidSeqs(par) IN
    /\ IsPath(par, L, path)
    /\ path[Len(path)] = RootOf(par)
    /\ \A h \in Nodes(par) : size[h + 1] = SizeOf(kids, h)
    /\ AreSizes(kids, size)          \* the local law that traces are judged with
    /\ \A h \in 1..Len(par), d \in {-1, 1} : ~AreSizes(kids, [size EXCEPT ![h] = @ + d])
    /\ \A h \in Nodes(par) : {children[h + 1][n] : n \in 1..Len(children[h + 1])} = KidSet(par, h)
                             /\ Len(children[h + 1]) = Cardinality(KidSet(par, h))
Terminates == <>Done
=============================================================================
