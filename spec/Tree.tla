-------------------------------- MODULE Tree --------------------------------
(* Hierarchies as the library takes them: a sequence of parents, nodes       *)
(* numbered from 0, the leaves first, -1 for the root.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Nodes(par) == 0..(Len(par) - 1)
Parent(par, h) == par[h + 1]
RootOf(par) == CHOOSE h \in Nodes(par) : Parent(par, h) = -1
KidSet(par, h) == {c \in Nodes(par) : Parent(par, c) = h}
LeafSet(par) == {h \in Nodes(par) : KidSet(par, h) = {}}

RECURSIVE Above(_, _)
Above(par, h) == {h} \cup (IF Parent(par, h) = -1 THEN {} ELSE Above(par, Parent(par, h)))

(* exactly one root, every node reaches it, the L leaves are numbered first *)
IsTree(par, L) ==
    /\ Cardinality({h \in Nodes(par) : Parent(par, h) = -1}) = 1
    /\ \A h \in Nodes(par) : Parent(par, h) \in (Nodes(par) \cup {-1})
    /\ LeafSet(par) = 0..(L - 1)
    /\ LET RECURSIVE Reaches(_, _)
           Reaches(h, n) == \/ Parent(par, h) = -1
                            \/ n > 0 /\ Reaches(Parent(par, h), n - 1)
       IN \A h \in Nodes(par) : Reaches(h, Len(par))

(* children of each node as a sequence (by number), built in one pass *)
KidSeqs(par) ==
    FoldLeft(LAMBDA acc, c : IF par[c] = -1 THEN acc
                             ELSE [acc EXCEPT ![par[c] + 1] = Append(@, c - 1)],
             TLCEval([h \in 1..Len(par) |-> <<>>]), [c \in 1..Len(par) |-> c])

RECURSIVE LeavesUnder(_, _)
LeavesUnder(kids, h) ==
    IF kids[h + 1] = <<>> THEN {h}
    ELSE UNION {LeavesUnder(kids, kids[h + 1][n]) : n \in 1..Len(kids[h + 1])}

RECURSIVE SizeOf(_, _)
SizeOf(kids, h) ==
    IF kids[h + 1] = <<>> THEN 1
    ELSE LET RECURSIVE Sum(_)
             Sum(n) == IF n = 0 THEN 0 ELSE Sum(n - 1) + SizeOf(kids, kids[h + 1][n])
         IN  Sum(Len(kids[h + 1]))

(* the numbers of leaves below each node: one for a leaf, else those of the  *)
(* children together (AreSizes(kids, s) iff every s[h + 1] is SizeOf(kids, h):*)
(* checked by MC_Path)                                                       *)
AreSizes(kids, s) ==
    \A h \in 1..Len(kids) :
        s[h] = IF kids[h] = <<>> THEN 1 ELSE FoldLeft(LAMBDA acc, k : acc + s[k + 1], 0, kids[h])

(* a processing order: every node once, leaves first, children first, root last *)
IsPath(par, L, path) ==
    /\ Len(path) = Len(par)
    /\ {path[n] : n \in 1..Len(path)} = Nodes(par)
    /\ {path[n] : n \in 1..L} = 0..(L - 1)
    /\ LET pos == SortSeq([n \in 1..Len(path) |-> <<path[n], n>>], LAMBDA a, b : a[1] < b[1])     \* by node: its place
       IN  \A h \in Nodes(par) : Parent(par, h) # -1 => pos[h + 1][2] < pos[Parent(par, h) + 1][2]
    /\ path[Len(path)] = RootOf(par)
=============================================================================
