-------------------------------- MODULE Gen ---------------------------------
(* Behaviours for the real library, enumerated (or drawn, where there are    *)
(* too many) from small universes of inputs: every initial state is one      *)
(* scenario, a sequence of calls in the form of Trace.  GEN holds the family *)
(* and its bounds.                                                           *)
EXTENDS Problems, Json, IOUtils

G == JsonDeserialize(IOEnv.GEN)
VARIABLE sc

Ix(s) == 1..Len(s)
ToSet1(s) == {s[n] : n \in Ix(s)}
FlatMap(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

RECURSIVE Pow(_, _)
\* (not above the bound that matters)
Pow(b, e) == IF e = 0 THEN 1 ELSE LET r == Pow(b, e - 1) IN IF r > 1000000 \div b THEN 1000000 ELSE b * r

Pars(kind) == IF kind = "O" THEN {<<-1>>} ELSE UNION {Trees(n) : n \in G.nodes[1]..G.nodes[2]}
Ts(kind) == IF kind = "H" THEN {1} ELSE G.T[1]..G.T[2]
Kinds == ToSet1(G.kinds)
\* one in how many problems is taken
Taken == G.every = 1 \/ RandomElement(1..G.every) = 1

(* all functions if they are few, some otherwise *)
AllOrSome(D, S, cap) ==
    IF Pow(Cardinality(S), Cardinality(D)) <= cap THEN [D -> S]
    ELSE LET one(x) == TLCEval([d \in D |-> RandomElement(S)]) IN {one(x) : x \in 1..cap}

-----------------------------------------------------------------------------
(* hierarchies *)
InitMeta == \E n \in G.nodes[1]..G.nodes[2] : \E L \in 1..n : \E par \in TreesOf(n, L) :
    Taken /\ sc = <<[op |-> "meta", L |-> L, par |-> par]>>

-----------------------------------------------------------------------------
(* given qualities: the best partitions for a list of parameters, and sweeps *)
Mats(par, T, S, plain, cap) ==
    LET kids == KidSeqs(par)
        pos == {<<h, i, d>> \in Nodes(par) \X (1..T) \X (1..T) :
                  d <= T - i + 1 /\ (plain \/ d > 1 \/ kids[h + 1] # <<>>)}
        mk(f) == [h \in 1..Len(par) |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |->
                    IF <<h - 1, i, d>> \in DOMAIN f THEN f[<<h - 1, i, d>>] ELSE <<0, 0>>]]]
    IN  {mk(f) : f \in AllOrSome(pos, S, cap)}

GainLoss(k) == (0..k) \X (0..k)

ProblemCalls(kind, par, T, M) ==
    <<[op |-> "qualm", qid |-> 1, kind |-> kind, L |-> LeavesOf(par), T |-> T, den |-> G.den, par |-> par, mat |-> M],
      [op |-> "parter", pid |-> 1, qid |-> 1, mode |-> "obj"]>>
    \o [n \in Ix(G.ps) |-> [op |-> "best", bid |-> n, pid |-> 1, p |-> G.ps[n]]]
    \o FlatMap(LAMBDA s : <<s @@ [op |-> "sweep", pid |-> 1]>> \o
                          (IF G.select THEN <<[op |-> "getp", pid |-> 1], [op |-> "auc", pid |-> 1, scale |-> G.den * G.den]>> ELSE <<>>), G.sweeps)

InitProblem == \E kind \in Kinds : \E par \in Pars(kind) : \E T \in Ts(kind) :
    /\ LeavesOf(par) * T <= G.cells
    /\ \E M \in Mats(par, T, GainLoss(G.top), G.plain, G.cap) :
          Taken /\ sc = ProblemCalls(kind, par, T, M)

-----------------------------------------------------------------------------
(* described partitions, and all comparisons between them *)
DecisionsAt(kind, par, T, h, i, j) ==
    LET kids == KidSeqs(par)[h + 1] IN
    IF kind = "O" THEN i..(T - 1)
    ELSE IF kind = "H" THEN (IF kids = <<>> THEN {1} ELSE {0, 1})
    ELSE (i..j) \cup (IF kids = <<>> THEN {} ELSE {-1})

Decs(kind, par, T, cap) ==
    LET H == Len(par)
        D == IF kind = "O" THEN {<<0, i, T - 1>> : i \in 0..(T - 1)}
             ELSE IF kind = "H" THEN {<<h, 0, 0>> : h \in 0..(H - 1)}
             ELSE {<<h, i, j>> \in (0..(H - 1)) \X (0..(T - 1)) \X (0..(T - 1)) : i <= j}
        ch == [x \in D |-> DecisionsAt(kind, par, T, x[1], x[2], x[3])]
        size == FoldLeft(LAMBDA acc, x : IF acc > 1000000 \div Cardinality(ch[x]) THEN 1000000 ELSE acc * Cardinality(ch[x]), 1, SetToSeq(D))
        some(n) == TLCEval([x \in D |-> RandomElement(ch[x])])
        F == IF size <= cap THEN {f \in [D -> UNION {ch[x] : x \in D}] : \A x \in D : f[x] \in ch[x]} ELSE {some(n) : n \in 1..cap}
        mk(f) == IF kind = "O" THEN [i \in 1..T |-> f[<<0, i - 1, T - 1>>]]
                 ELSE IF kind = "H" THEN [h \in 1..H |-> f[<<h - 1, 0, 0>>]]
                 ELSE [h \in 1..H |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |-> f[<<h - 1, i - 1, i + d - 2>>]]]]
    IN  SetToSeq({mk(f) : f \in F})

\* every entry another one
Plain(par, T) == [h \in 1..Len(par) |-> [i \in 1..T |-> [d \in 1..(T - i + 1) |-> <<(h * T + i) * T + d, d * T + (T - i) + h>>]]]

InitDecision == \E kind \in Kinds : \E par \in Pars(kind) : \E T \in Ts(kind) :
    /\ LeavesOf(par) * T <= G.cells
    /\ Taken
    /\ \E D \in {Decs(kind, par, T, G.cap)} :
       sc = <<[op |-> "qualm", qid |-> 1, kind |-> kind, L |-> LeavesOf(par), T |-> T, den |-> 1, par |-> par, mat |-> Plain(par, T)]>>
            \o [n \in Ix(D) |-> [op |-> "part", bid |-> n, qid |-> 1, p |-> "0.25", dec |-> D[n]]]
            \o (IF G.eq THEN SetToSeq({[op |-> "eq", a |-> a, b |-> b] : a \in Ix(D), b \in Ix(D)}) ELSE <<>>)

-----------------------------------------------------------------------------
(* value stores: qualities, normalisation, aggregates *)
DimsOf(V) == CASE V = 1 -> {<<1, 1, 1>>} [] V = 2 -> {<<2, 1, 1>>} [] V = 3 -> {<<3, 1, 1>>}
               [] V = 4 -> {<<4, 1, 1>>, <<2, 2, 1>>} [] OTHER -> {<<V, 1, 1>>, <<2, 3, 1>>} 
RankOf(kind, dims) == LET n == IF dims[3] > 1 THEN 3 ELSE IF dims[2] > 1 THEN 2 ELSE IF dims[1] > 1 THEN 1 ELSE 0 IN
                      IF kind = "D" THEN n + 2 ELSE n + 1

StoreCall(sid, kind, par, dims, T, vals) ==
    [op |-> "store", sid |-> sid, kind |-> kind, n |-> RankOf(kind, dims), ctor |-> "vec", L |-> LeavesOf(par), dims |-> dims, T |-> T,
     mul |-> "1", unit |-> TRUE, par |-> par, vals |-> vals]

Vals(n, top, cap) == {[k \in 1..n |-> f[k]] : f \in AllOrSome(1..n, 0..top, cap)}

InitValues == \E kind \in Kinds : \E par \in Pars(kind) : \E T \in Ts(kind) : \E V \in G.V[1]..G.V[2] :
    /\ LeavesOf(par) * T <= G.cells
    /\ \E dims \in DimsOf(V) : \E vals \in Vals(LeavesOf(par) * V * T, G.top, G.cap) :
       \E D \in {IF G.agg = 0 THEN <<>> ELSE Decs(kind, par, T, G.agg)} :
       /\ Taken
       /\ sc = <<StoreCall(1, kind, par, dims, T, vals), [op |-> "qual", qid |-> 1, sid |-> 1], [op |-> "compute", qid |-> 1, values |-> 1]>>
               \o [n \in 1..G.norm |-> [op |-> "normalize", qid |-> 1]]
               \o FlatMap(LAMBDA n : <<[op |-> "part", bid |-> n, qid |-> 1, p |-> "0.5", dec |-> D[n]],
                                       [op |-> "agg", bid |-> n, sid |-> 1]>>, [n \in Ix(D) |-> n])

(* given qualities, normalised twice *)
InitNormM == \E kind \in Kinds : \E par \in Pars(kind) : \E T \in Ts(kind) :
    /\ LeavesOf(par) * T <= G.cells
    /\ \E M \in Mats(par, T, GainLoss(G.top), G.plain, G.cap) :
       LET whole == M[RootOf(par) + 1][1][T] IN
       /\ \A h \in DOMAIN M : \A i \in DOMAIN M[h] : \A d \in DOMAIN M[h][i] : \A c \in {1, 2} : M[h][i][d][c] <= whole[c]
       /\ Taken
       /\ sc = <<[op |-> "qualm", qid |-> 1, kind |-> kind, L |-> LeavesOf(par), T |-> T, den |-> G.den, par |-> par, mat |-> M],
                 [op |-> "normalize", qid |-> 1], [op |-> "normalize", qid |-> 1], [op |-> "dumpq", qid |-> 1]>>

-----------------------------------------------------------------------------
(* writing every coordinate of a store in turn, and sequences of writes *)
Coords(L, dims, T) == (0..(L-1)) \X (0..(dims[1]-1)) \X (0..(dims[2]-1)) \X (0..(dims[3]-1)) \X (0..(T-1))
Shapes(kind, n) == LET k == IF kind = "D" THEN n - 2 ELSE n - 1 IN
    {d \in (1..G.dim) \X (1..G.dim) \X (1..G.dim) : (k < 3 => d[3] = 1) /\ (k < 2 => d[2] = 1) /\ (k < 1 => d[1] = 1)}
NsOf(kind) == IF kind = "D" THEN 2..4 ELSE 1..4
Flat(n) == IF n = 1 THEN <<-1>> ELSE [h \in 1..(n + 1) |-> IF h = n + 1 THEN -1 ELSE n]
SetCall(c, v) == [op |-> "set", sid |-> 1, at |-> <<c[1], c[2], c[3], c[4], c[5]>>, v |-> v]

InitStore == \E kind \in Kinds : \E n \in NsOf(kind) : \E dims \in Shapes(kind, n) :
    \E L \in (IF kind = "O" THEN {1} ELSE G.L[1]..G.L[2]) : \E T \in Ts(kind) : \E vec \in BOOLEAN :
    LET cs == SetToSeq(Coords(L, dims, T))
        N == Len(cs)
        mk == [op |-> "store", sid |-> 1, kind |-> kind, n |-> n, ctor |-> IF vec THEN "vec" ELSE "size", L |-> L, dims |-> dims, T |-> T,
               mul |-> "1", unit |-> TRUE, par |-> IF kind = "O" THEN <<-1>> ELSE Flat(L), vals |-> IF vec THEN [k \in 1..N |-> k] ELSE <<>>]
    IN  /\ Taken
        /\ sc = <<mk>> \o FlatMap(LAMBDA k : <<SetCall(cs[k], 100 + k), [op |-> "get", sid |-> 1]>>,
                                  IF N <= G.walk THEN [k \in 1..N |-> k] ELSE [k \in 1..G.walk |-> RandomElement(1..N)])

-----------------------------------------------------------------------------
(* triangular matrices: all sequences of writes *)
TriCells(n) == {c \in (0..(n-1)) \X (0..(n-1)) : c[1] <= c[2]}
InitUtm == \E n \in G.nodes[1]..G.nodes[2] : \E ty \in ToSet1(G.types) : \E given \in BOOLEAN :
    \E w \in UNION {[1..k -> TriCells(n)] : k \in 0..G.writes} :
    /\ Taken
    /\ sc = <<[op |-> "utm", type |-> ty, n |-> n, given |-> given, init |-> IF given THEN 7 ELSE 0, distinct |-> TRUE,
               writes |-> FlatMap(LAMBDA k : <<<<"w", w[k][1], w[k][2], 10 + k>>, <<"d">>>>, [k \in Ix(w) |-> k])
                          \o LET cs == SetToSeq(TriCells(n)) IN [k \in Ix(cs) |-> <<"w", cs[k][1], cs[k][2], 1000 + k>>]
                          \o <<<<"d">>>>]>>

-----------------------------------------------------------------------------
(* qualities and trade-offs: all pairs *)
InitAlgebra ==
    LET K == G.top
        Q == {<<g, o>> : g \in (-K)..K, o \in (-K)..K}
        T == {<<v, g, o>> : v \in (-K)..K, g \in 0..K, o \in 0..K}
        seqT == SetToSeq(T)
    IN  \/ sc = <<[op |-> "torder", items |-> seqT]>>
        \/ \E a \in Q : sc = FlatMap(LAMBDA b : <<[op |-> "qarith", den |-> 1, a |-> a, b |-> b], [op |-> "qarith", den |-> 4, a |-> a, b |-> b]>>, SetToSeq(Q))
        \/ \E a \in T : sc = FlatMap(LAMBDA b : <<[op |-> "tarith", a |-> a, b |-> b, p |-> RandomElement({"0", "0.25", "0.5", "0.75", "1", "0.9375"})]>>,
                                     SetToSeq(RandomSubset(G.some, T)))
        \/ \E g \in 1..G.top, o \in 1..G.top : sc = <<[op |-> "qnear", g |-> g, l |-> o]>>

-----------------------------------------------------------------------------
(* two analyses of the same data: by what the second differs *)
Relation(what, kind, par, T, V, vals, perm, vp) ==
    LET L == LeavesOf(par) H == Len(par) idm == [h \in 1..H |-> h - 1]
        At5(h, k, t) == vals[(h * V + k) * T + t + 1]
        mkv(p2, V2, f(_, _, _)) == [n \in 1..(L * V2 * T) |-> LET x == n - 1 IN f(x \div (V2 * T), (x \div T) % V2, x % T)]
        base == StoreCall(1, kind, par, <<V, 1, 1>>, T, vals)
        same(v) == StoreCall(2, kind, par, <<V, 1, 1>>, T, v)
        inv(x) == CHOOSE h \in 0..(H-1) : perm[h] = x
    IN  CASE what = "reverse"  -> [a |-> base, b |-> same(mkv(par, V, LAMBDA h, k, t : At5(h, k, T - 1 - t))), map |-> idm, rev |-> TRUE, factor |-> 1]
          [] what = "series"   -> [a |-> base, b |-> same(mkv(par, V, LAMBDA h, k, t : At5(h, vp[k], t))), map |-> idm, rev |-> FALSE, factor |-> 1]
          [] what = "factor"   -> [a |-> base, b |-> same(mkv(par, V, LAMBDA h, k, t : 3 * At5(h, k, t))), map |-> idm, rev |-> FALSE, factor |-> 3]
          [] what = "dup"      -> [a |-> base, b |-> StoreCall(2, kind, par, <<2 * V, 1, 1>>, T, mkv(par, 2 * V, LAMBDA h, k, t : At5(h, k % V, t))), map |-> idm, rev |-> FALSE, factor |-> 2]
          [] what = "renumber" -> [a |-> base,
                                   b |-> StoreCall(2, kind, [n \in 1..H |-> LET q == par[inv(n - 1) + 1] IN IF q = -1 THEN -1 ELSE perm[q]], <<V, 1, 1>>, T,
                                                   mkv(par, V, LAMBDA h, k, t : At5(inv(h), k, t))),
                                   map |-> [h \in 1..H |-> perm[h - 1]], rev |-> FALSE, factor |-> 1]
          [] what = "t1"       -> [a |-> StoreCall(1, "H", par, <<V, 1, 1>>, 1, vals), b |-> StoreCall(2, "D", par, <<V, 1, 1>>, 1, vals), map |-> idm, rev |-> FALSE, factor |-> 1]
          [] what = "single"   -> [a |-> StoreCall(1, "O", <<-1>>, <<V, 1, 1>>, T, vals), b |-> StoreCall(2, "D", par, <<V, 1, 1>>, T, vals), map |-> <<RootOf(par)>>, rev |-> FALSE, factor |-> 1]

Perms(n) == {f \in [0..(n-1) -> 0..(n-1)] : {f[h] : h \in 0..(n-1)} = 0..(n-1)}
\* leaves stay leaves
NodePerms(H, L) == {f \in Perms(H) : \A h \in 0..(H-1) : (h < L) = (f[h] < L)}

RelateCalls(R) ==
    <<R.a, [op |-> "qual", qid |-> 1, sid |-> 1], [op |-> "compute", qid |-> 1, values |-> 1],
      R.b, [op |-> "qual", qid |-> 2, sid |-> 2], [op |-> "compute", qid |-> 2, values |-> 1],
      [op |-> "relate", a |-> 1, b |-> 2, map |-> R.map, rev |-> R.rev, factor |-> R.factor],
      [op |-> "parter", pid |-> 1, qid |-> 1, mode |-> "obj"], [op |-> "parter", pid |-> 2, qid |-> 2, mode |-> "mat"]>>
    \o FlatMap(LAMBDA n : <<[op |-> "best", bid |-> 2 * n, pid |-> 1, p |-> G.ps[n]], [op |-> "best", bid |-> 2 * n + 1, pid |-> 2, p |-> G.ps[n]],
                            [op |-> "relbest", a |-> 2 * n, b |-> 2 * n + 1, factor |-> R.factor]>>, [n \in Ix(G.ps) |-> n])
    \o (IF R.factor = 1 THEN <<[op |-> "normalize", qid |-> 1], [op |-> "normalize", qid |-> 2],
                               [op |-> "relate", a |-> 1, b |-> 2, map |-> R.map, rev |-> R.rev, factor |-> 1]>> ELSE <<>>)

InitRelate == \E kind \in Kinds : \E par \in Pars(kind) : \E T \in Ts(kind) : \E V \in G.V[1]..G.V[2] :
    /\ LeavesOf(par) * T <= G.cells
    /\ \E what \in {"reverse", "series", "factor", "dup", "renumber", "t1", "single"} :
       /\ what = "reverse" => T > 1
       /\ what = "series" => V > 1
       /\ what = "renumber" => Len(par) > 1
       /\ what = "t1" => kind = "H"
       /\ what = "single" => kind = "D" /\ LeavesOf(par) = 1
       /\ \E vals \in Vals(LeavesOf(par) * V * T, G.top, G.cap) :
          \E perm \in {RandomElement(NodePerms(Len(par), LeavesOf(par)))}, vp \in {RandomElement(Perms(V))} :
             Taken /\ sc = RelateCalls(Relation(what, kind, par, T, V, vals, perm, vp))

-----------------------------------------------------------------------------
Init == \/ G.family = "meta" /\ InitMeta
        \/ G.family = "problem" /\ InitProblem
        \/ G.family = "decision" /\ InitDecision
        \/ G.family = "values" /\ InitValues
        \/ G.family = "normm" /\ InitNormM
        \/ G.family = "store" /\ InitStore
        \/ G.family = "utm" /\ InitUtm
        \/ G.family = "algebra" /\ InitAlgebra
        \/ G.family = "relate" /\ InitRelate
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc

Emit == PrintT("SCENARIO " \o ToJson(sc))
=============================================================================
