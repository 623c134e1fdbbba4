-------------------------------- MODULE Api ---------------------------------
(* The state machine of Lpaggreg, explored: which histories of calls there   *)
(* are over a few objects, and what a call may change in them (C18).  A      *)
(* history to every transition is written out as calls for the real library; *)
(* Trace then checks what they do.                                           *)
(*                                                                           *)
(* GEN describes the objects and arguments to choose from:                   *)
(*   stores   definitions of value stores, with contents and writes          *)
(*   qualms   definitions of matrices given from outside                     *)
(*   ps, sweeps   parameters and ranges;  max   how many objects of a sort   *)
(*   every    one transition in how many is written out                      *)
(*   pairs    whether the last call counts as part of the state, so that     *)
(*            every call is tried after every other one in every state       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt, Lpaggreg

G == JsonDeserialize(IOEnv.GEN)

VARIABLES st, hist, last
vars == <<st, hist, last>>

Ix(s) == 1..Len(s)
\* the objects that were not destroyed
LiveStores == Live(st, "store", DOMAIN st.stores)
LiveQuals == Live(st, "qual", DOMAIN st.quals)
LiveParters == Live(st, "parter", DOMAIN st.parters)
LiveParts == Live(st, "part", DOMAIN st.parts)
LiveTakes == Live(st, "take", DOMAIN st.takes)
LiveAggs == Live(st, "agg", DOMAIN st.aggs)
NextId(f, base, max) == {base + Cardinality(DOMAIN f) + 1} \cap ((base + 1)..(base + max))

(* a call: what the library must do, and the call as the driver takes it     *)
Do(new, op) == st' = new /\ hist' = Append(hist, op) /\ last' = op

DefOf(q) == st.quals[q].def
\* two objects go together if their hierarchies and instants are the same
Shape(d) == <<d.kind, d.L, d.T, d.par>>

RECURSIVE Depth(_)
Depth(sym) == IF sym.k = "norm" THEN 1 + Depth(sym.of) ELSE 0

Store == \E d \in Ix(G.stores), c \in {1, 2} : \E sid \in NextId(st.stores, 0, G.max.stores) :
    LET D == G.stores[d] IN
    /\ c \in Ix(D.contents)
    /\ Do(NewStore(st, sid, [def |-> D, d |-> d, val |-> D.contents[c]]),
          [op |-> "store", sid |-> sid, kind |-> D.kind, n |-> D.n, ctor |-> "vec", L |-> D.L, dims |-> D.dims, T |-> D.T,
           mul |-> "1", unit |-> TRUE, par |-> D.par, vals |-> D.contents[c]])

Set == \E sid \in LiveStores : \E w \in Ix(st.stores[sid].def.writes) :
    LET W == st.stores[sid].def.writes[w] IN
    Do(WriteStore(st, sid, W.n, W.v), [op |-> "set", sid |-> sid, at |-> W.at, v |-> W.v])

Qual == \E sid \in LiveStores : \E qid \in NextId(st.quals, 10, G.max.quals) :
    Do(NewQual(st, qid, sid, [src |-> None, mat |-> None, def |-> st.stores[sid].def]),
       [op |-> "qual", qid |-> qid, sid |-> sid])

Qualm == \E d \in Ix(G.qualms) : \E qid \in NextId(st.quals, 10, G.max.quals) :
    LET D == G.qualms[d] IN
    /\ NextMat(st) <= G.max.heap
    /\ Do(NewQualOf(st, qid, [src |-> None, mat |-> None, def |-> D], NextMat(st), [sym |-> Given(d)]),
          [op |-> "qualm", qid |-> qid, kind |-> D.kind, L |-> D.L, T |-> D.T, den |-> D.den, par |-> D.par, mat |-> D.mat])

Comp == \E q \in LiveQuals :
    LET src == st.quals[q].src IN
    /\ src # None => NextMat(st) <= G.max.heap
    /\ Do(IF src = None THEN st ELSE Compute(st, q, NextMat(st), [sym |-> Raw(st.stores[src].d, st.stores[src].val)]),
          [op |-> "compute", qid |-> q, values |-> IF src = None THEN 0 ELSE 1])

Computed == {q \in LiveQuals : st.quals[q].mat # None}

Normal == \E q \in Computed :
    LET sym == SymOf(st, st.quals[q].mat) IN
    /\ Depth(sym) < G.max.norm
    /\ Do(Normalize(st, q, [sym |-> Normed(sym)]), [op |-> "normalize", qid |-> q])

Parter == \E q \in Computed, m \in {"obj", "mat"} : \E pid \in NextId(st.parters, 20, G.max.parters) :
    /\ m = (IF pid % 2 = 0 THEN "obj" ELSE "mat")      \* (both ways of making one)
    /\ Do(NewParter(st, pid, q), [op |-> "parter", pid |-> pid, qid |-> q, mode |-> m])

DefOfParter(p) == st.parters[p].of.def

BestP == \E p \in LiveParters, x \in Ix(G.ps) : \E b \in NextId(st.parts, 30, G.max.parts) :
    Do([st EXCEPT !.parts = With(@, b, [mat |-> st.parters[p].mat, def |-> DefOfParter(p), p |-> G.ps[x], rec |-> "best"])],
       [op |-> "best", bid |-> b, pid |-> p, p |-> G.ps[x]])

PartD == \E q \in Computed : \E x \in Ix(DefOf(q).decs) : \E b \in NextId(st.parts, 30, G.max.parts) :
    Do([st EXCEPT !.parts = With(@, b, [mat |-> st.quals[q].mat, def |-> DefOf(q), p |-> "0.5", rec |-> DefOf(q).decs[x]])],
       [op |-> "part", bid |-> b, qid |-> q, p |-> "0.5", dec |-> DefOf(q).decs[x]])

SweepP == \E p \in LiveParters, x \in Ix(G.sweeps) :
    LET s == G.sweeps[x] IN
    Do(Sweep(st, p, s, SymOf(st, st.parters[p].mat), <<>>),
       s @@ [op |-> "sweep", pid |-> p, asked |-> <<>>])

(* aggregations that are kept *)
AggKeep == G.aggs /\ \E b \in LiveParts, sid \in LiveStores : \E a \in NextId(st.aggs, 60, G.max.parts) :
    /\ Shape(st.parts[b].def) = Shape(st.stores[sid].def)
    /\ Do(KeepAgg(st, a, <<st.stores[sid].val, st.parts[b].rec, st.parts[b].p, SymOf(st, st.parts[b].mat)>>),
          [op |-> "aggkeep", aid |-> a, bid |-> b, sid |-> sid])

(* parts that are kept without their partition *)
Take == G.aggs /\ \E b \in LiveParts : \E t \in NextId(st.takes, 80, G.max.parts) :
    Do(TakeParts(st, t, b, <<st.parts[b].rec, st.parts[b].p>>), [op |-> "take", tid |-> t, bid |-> b])

(* objects end, in any order *)
Ends(sort, ids) == \E x \in ids : Do(Drop(st, sort, x), [op |-> "drop", what |-> sort, id |-> x])
Dropping == /\ G.drop /\ Cardinality(st.gone) < G.max.gone
            /\ Ends("store", LiveStores) \/ Ends("qual", LiveQuals) \/ Ends("parter", LiveParters) \/ Ends("part", LiveParts) \/ Ends("agg", LiveAggs) \/ Ends("take", LiveTakes)

(* objects are copied *)
Copying == G.copy /\
    \/ \E x \in LiveStores : \E y \in NextId(st.stores, 0, G.max.stores) : Do(CopyStore(st, x, y), [op |-> "copy", what |-> "store", from |-> x, to |-> y])
    \/ \E x \in LiveParters : \E y \in NextId(st.parters, 20, G.max.parters) : Do(CopyParter(st, x, y), [op |-> "copy", what |-> "parter", from |-> x, to |-> y])
    \/ \E x \in LiveParts : \E y \in NextId(st.parts, 30, G.max.parts) : Do(CopyPart(st, x, y), [op |-> "copy", what |-> "part", from |-> x, to |-> y])

Reads ==
    \/ \E a \in LiveAggs : Do(st, [op |-> "dumpagg", aid |-> a])
    \/ \E t \in LiveTakes : Do(st, [op |-> "dumptake", tid |-> t])
    \/ \E sid \in LiveStores : Do(st, [op |-> "get", sid |-> sid])
    \/ \E q \in Computed : Do(st, [op |-> "dumpq", qid |-> q])
    \/ \E p \in LiveParters : Do(st, [op |-> "lists", pid |-> p]) \/ Do(st, [op |-> "getp", pid |-> p]) \/ Do(st, [op |-> "auc", pid |-> p, scale |-> 1])
    \/ \E b \in LiveParts : Do(st, [op |-> "dumpb", bid |-> b])
    \/ \E b \in LiveParts, sid \in LiveStores :
          /\ Shape(st.parts[b].def) = Shape(st.stores[sid].def)
          /\ Do(st, [op |-> "agg", bid |-> b, sid |-> sid])
    \/ \E a, b \in LiveParts :
          /\ a <= b /\ st.parts[a].def.kind = st.parts[b].def.kind
          /\ Do(st, [op |-> "eq", a |-> a, b |-> b])

Init == st = InitState /\ hist = <<>> /\ last = [op |-> "none"]
Next == AggKeep \/ Take \/ Dropping \/ Copying \/ Store \/ Set \/ Qual \/ Qualm \/ Comp \/ Normal \/ Parter \/ BestP \/ PartD \/ SweepP \/ Reads
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Machine == TypeOK(st) /\ NoSharedQualities(st)

(* what a call may change *)
ValuesArePrivate == [][\A s \in DOMAIN st.stores : st'.stores[s] # st.stores[s] => last'.op = "set" /\ last'.sid = s]_vars
QualitiesArePrivate == [][\A m \in DOMAIN st.heap : st'.heap[m] # st.heap[m] => last'.op = "normalize" /\ st.quals[last'.qid].mat = m]_vars
OnlyComputeReplaces == [][\A q \in DOMAIN st.quals : st'.quals[q] # st.quals[q] => last'.op = "compute" /\ last'.qid = q]_vars
PartersKeepTheirs == [][\A p \in DOMAIN st.parters : st'.parters[p].mat = st.parters[p].mat /\
                           (st'.parters[p] # st.parters[p] => last'.op = "sweep" /\ last'.pid = p)]_vars
TakesAreConstant == [][\A t \in DOMAIN st.takes : st'.takes[t] = st.takes[t]]_vars
AggsAreConstant == [][\A a \in DOMAIN st.aggs : st'.aggs[a] = st.aggs[a]]_vars
\* destroying takes a name away and nothing else
DropsOnly == [][last'.op = "drop" => [st' EXCEPT !.gone = {}] = [st EXCEPT !.gone = {}]]_vars
\* a copy is what it was made from, and changes nothing else
CopiesOnly == [][last'.op = "copy" =>
                   /\ st'.heap = st.heap /\ st'.quals = st.quals /\ st'.aggs = st.aggs /\ st'.gone = st.gone
                   /\ \A x \in DOMAIN st.stores : st'.stores[x] = st.stores[x]
                   /\ \A x \in DOMAIN st.parters : st'.parters[x] = st.parters[x]]_vars
PartsAreConstant == [][\A b \in DOMAIN st.parts : st'.parts[b] = st.parts[b]]_vars
ReadsReadOnly == [][last'.op \in {"get", "dumpq", "lists", "getp", "auc", "dumpb", "agg", "eq", "best", "part", "aggkeep", "dumpagg", "take", "dumptake", "drop"} =>
                       /\ st'.stores = st.stores /\ st'.heap = st.heap /\ st'.quals = st.quals /\ st'.parters = st.parters]_vars

(* what was computed is made of values that some store could hold *)
Grounded == \A m \in DOMAIN st.heap : Ground(SymOf(st, m)).k \in {"raw", "given"}

-----------------------------------------------------------------------------
(* every object is read in the end *)
Final(s) == SetToSeq({[op |-> "dumpq", qid |-> q] : q \in {x \in Live(s, "qual", DOMAIN s.quals) : s.quals[x].mat # None}})
         \o SetToSeq({[op |-> "dumpb", bid |-> b] : b \in Live(s, "part", DOMAIN s.parts)})
         \o SetToSeq({[op |-> "lists", pid |-> p] : p \in Live(s, "parter", DOMAIN s.parters)})
         \o SetToSeq({[op |-> "get", sid |-> x] : x \in Live(s, "store", DOMAIN s.stores)})
         \o SetToSeq({[op |-> "dumptake", tid |-> x] : x \in Live(s, "take", DOMAIN s.takes)})
         \o SetToSeq({[op |-> "dumpagg", aid |-> x] : x \in Live(s, "agg", DOMAIN s.aggs)})
\* and the results are asked for again
AskAgain(s) ==
    LET bs == IF G.again THEN SetToSeq({<<p, x>> : p \in Live(s, "parter", DOMAIN s.parters), x \in Ix(G.ps)}) ELSE <<>> IN
    [n \in Ix(bs) |-> [op |-> "best", bid |-> 900 + n, pid |-> bs[n][1], p |-> G.ps[bs[n][2]]]]

Small == Len(hist) <= G.depth
Worth(h) == \E n \in Ix(h) : h[n].op \in {"compute", "qualm"}

Emit ==
    IF Worth(hist') /\ (G.drop => st'.gone # {}) /\ (G.copy => st'.copied) /\ Len(hist') >= G.from /\ (G.every = 1 \/ RandomElement(1..G.every) = 1)
    THEN PrintT("SCENARIO " \o ToJson((IF G.drop THEN <<[op |-> "loose"]>> ELSE <<>>) \o hist' \o AskAgain(st') \o Final(st')))
    ELSE TRUE

View == <<st, IF G.pairs THEN last.op ELSE "">>
=============================================================================
