--------------------------------- MODULE Par ---------------------------------
(* Analyses at the same time (C25).  A call reads what it was given, works   *)
(* step by step in scratch memory and writes its result to its own object.   *)
(* Several analyses interleave in any way; they may be given the same        *)
(* qualities, which none of them changes.                                    *)
(*                                                                           *)
(* With scratch memory of its own for every call (automatic variables, as    *)
(* the library has it) no interleaving can be told from running alone.  With *)
(* scratch memory in common (Static = TRUE: a static variable, a cache, an   *)
(* object filled lazily) some can: that model must fail.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,   \* number of analyses
          Calls,     \* calls of each
          Steps,     \* steps of a call
          Static     \* TRUE: the calls share their scratch memory

VARIABLES given,     \* the data each analysis was given
          pc,        \* per analysis: <<call, step>>
          scratch,   \* per call that runs (or for all of them)
          result,    \* per analysis, the results of its calls
          access     \* who uses the scratch memory at the moment: the conflicts

vars == <<given, pc, scratch, result, access>>
T == 1..Threads

Slot(t) == IF Static THEN 1 ELSE t

(* one step of a call on x; what the call returns when it runs alone *)
Step(acc, x, s) == (acc * 3 + x + s) % 17
RECURSIVE Run(_, _, _)
Run(acc, x, s) == IF s > Steps THEN acc ELSE Run(Step(acc, x, s), x, s + 1)
Alone(x, c) == Run(c, x, 1)

Init ==
    /\ given \in [T -> {1, 2}]          \* also the same data
    /\ pc = [t \in T |-> <<1, 0>>]
    /\ scratch = [n \in T |-> 0]
    /\ result = [t \in T |-> <<>>]
    /\ access = {}

Begin(t) ==
    /\ pc[t][1] <= Calls /\ pc[t][2] = 0
    /\ scratch' = [scratch EXCEPT ![Slot(t)] = pc[t][1]]
    /\ pc' = [pc EXCEPT ![t][2] = 1]
    /\ access' = access \cup {<<t, Slot(t)>>}
    /\ UNCHANGED <<given, result>>

Work(t) ==
    /\ pc[t][2] \in 1..Steps
    /\ scratch' = [scratch EXCEPT ![Slot(t)] = Step(@, given[t], pc[t][2])]
    /\ pc' = [pc EXCEPT ![t][2] = @ + 1]
    /\ UNCHANGED <<given, result, access>>

End(t) ==
    /\ pc[t][2] = Steps + 1
    /\ result' = [result EXCEPT ![t] = Append(@, scratch[Slot(t)])]
    /\ pc' = [pc EXCEPT ![t] = <<@[1] + 1, 0>>]
    /\ access' = access \ {<<t, Slot(t)>>}
    /\ UNCHANGED <<given, scratch>>

Next == \E t \in T : Begin(t) \/ Work(t) \/ End(t)
Spec == Init /\ [][Next]_vars

(* what an analysis gets is what it gets when it runs alone *)
AsAlone == \A t \in T : \A c \in 1..Len(result[t]) : result[t][c] = Alone(given[t], c)
(* no two analyses use the same memory *)
NoRace == \A a, b \in access : a[1] # b[1] => a[2] # b[2]
(* and none touches what it was given *)
GivenKept == [][given' = given]_vars
=============================================================================
