------------------------------ MODULE Lpaggreg ------------------------------
(* The library as a state machine over its objects: which call creates,      *)
(* changes or reads which object.  What a matrix of qualities contains is    *)
(* symbolic here (the computation that made it, applied to a snapshot of the *)
(* values), so that the machine says exactly on what a result may depend.    *)
(*                                                                           *)
(*   stores    value stores (mutable)                                        *)
(*   heap      matrices of qualities; computing makes a new one, normalising *)
(*             changes one in place, for everything that shares it           *)
(*   quals     qualities objects: a store (or none) and the current matrix   *)
(*   parters   partitioners: the matrix they share since their creation and  *)
(*             the last sweep                                                *)
(*   parts     partitions: the matrix they share, and the request            *)
(*   aggs      aggregations: the aggregates, made once                       *)
(*   takes     parts taken out of a partition and kept without it: they share *)
(*             the qualities of the matrix                                   *)
(*   gone      names of objects that were destroyed; what others share with  *)
(*             them stays                                                    *)
(*                                                                           *)
(* Gen explores this machine to produce histories for the implementation,    *)
(* Trace checks histories recorded from the implementation against it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1

(* a map keyed by object identifiers *)
With(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f
Empty == <<>>      \* the function without arguments

InitState == [stores |-> Empty, heap |-> Empty, quals |-> Empty,
              parters |-> Empty, parts |-> Empty, aggs |-> Empty, takes |-> Empty,
              gone |-> {}, copied |-> FALSE]

(* what a matrix contains *)
Raw(shape, val)  == [k |-> "raw", shape |-> shape, val |-> val]
Normed(sym)      == [k |-> "norm", of |-> sym]
Given(id)        == [k |-> "given", of |-> id]

NewStore(st, sid, rec) == [st EXCEPT !.stores = With(@, sid, rec)]

WriteStore(st, sid, n, v) == [st EXCEPT !.stores[sid].val[n] = v]

FillStore(st, sid, vals) == [st EXCEPT !.stores[sid].val = vals]

NewQual(st, qid, src, rec) ==
    [st EXCEPT !.quals = With(@, qid, [rec EXCEPT !.src = src, !.mat = None])]

NextMat(st) == Cardinality(DOMAIN st.heap) + 1

NewQualOf(st, qid, rec, m, cell) ==
    [st EXCEPT !.heap = With(@, m, cell),
               !.quals = With(@, qid, [rec EXCEPT !.src = None, !.mat = m])]

(* computing from values makes a new matrix; without values it does nothing *)
Compute(st, qid, m, cell) ==
    IF st.quals[qid].src = None THEN st
    ELSE [st EXCEPT !.heap = With(@, m, cell), !.quals[qid].mat = m]

(* normalising changes the matrix in place *)
Normalize(st, qid, cell) == [st EXCEPT !.heap[st.quals[qid].mat] = cell]

NewParter(st, pid, qid) ==
    [st EXCEPT !.parters = With(@, pid, [of |-> st.quals[qid], mat |-> st.quals[qid].mat,
                                         swept |-> FALSE, sweep |-> <<>>, lists |-> <<>>])]

Best(st, bid, pid, p, rec) ==
    LET q == st.parters[pid].of IN
    [st EXCEPT !.parts = With(@, bid, [mat |-> st.parters[pid].mat, kind |-> q.kind, L |-> q.L, par |-> q.par,
                                     p |-> p, rec |-> rec])]

BuildPart(st, bid, qid, p, rec) ==
    LET q == st.quals[qid] IN
    [st EXCEPT !.parts = With(@, bid, [mat |-> q.mat, kind |-> q.kind, L |-> q.L, par |-> q.par,
                                     p |-> p, rec |-> rec])]

(* a sweep forgets the one before *)
Sweep(st, pid, request, sym, lists) ==
    [st EXCEPT !.parters[pid].swept = TRUE,
               !.parters[pid].sweep = <<request, sym>>,
               !.parters[pid].lists = lists]

SymOf(st, m) == st.heap[m].sym

KeepAgg(st, aid, agg) == [st EXCEPT !.aggs = With(@, aid, agg)]

TakeParts(st, tid, bid, facts) ==
    LET m == st.parts[bid].mat IN
    [st EXCEPT !.takes = With(@, tid, [mat |-> m, sym |-> SymOf(st, m), facts |-> facts])]

(* destroying an object takes nothing away from those made from it *)
Drop(st, sort, id) == [st EXCEPT !.gone = @ \cup {<<sort, id>>}]
Live(st, sort, ids) == {x \in ids : <<sort, x>> \notin st.gone}

(* a copy has values and lists of its own, and shares the matrix *)
CopyStore(st, from, to)  == [st EXCEPT !.copied = TRUE, !.stores = With(@, to, st.stores[from])]
CopyParter(st, from, to) == [st EXCEPT !.copied = TRUE, !.parters = With(@, to, st.parters[from])]
CopyPart(st, from, to)   == [st EXCEPT !.copied = TRUE, !.parts = With(@, to, st.parts[from])]

-----------------------------------------------------------------------------
(* What holds in every state of the machine *)

TypeOK(st) ==
    /\ \A q \in DOMAIN st.quals :
          /\ st.quals[q].src = None \/ Has(st.stores, st.quals[q].src)
          /\ st.quals[q].mat = None \/ Has(st.heap, st.quals[q].mat)
          /\ st.quals[q].src = None => st.quals[q].mat # None
    /\ \A p \in DOMAIN st.parters : Has(st.heap, st.parters[p].mat)
    /\ \A b \in DOMAIN st.parts : Has(st.heap, st.parts[b].mat)
    /\ \A t \in DOMAIN st.takes : Has(st.heap, st.takes[t].mat)

(* two qualities objects never share a matrix: normalising one leaves the    *)
(* others as they are                                                        *)
NoSharedQualities(st) ==
    \A q, r \in DOMAIN st.quals :
        q # r /\ st.quals[q].mat # None => st.quals[q].mat # st.quals[r].mat

(* a matrix computed from a store is the one of values it has or had *)
RECURSIVE Ground(_)
Ground(sym) == IF sym.k = "norm" THEN Ground(sym.of) ELSE sym
=============================================================================
