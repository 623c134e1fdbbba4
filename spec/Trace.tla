-------------------------------- MODULE Trace -------------------------------
(* Checks histories recorded from the real library against Lpaggreg (which   *)
(* objects a call may touch) and Agg (what its results must be).             *)
(*                                                                           *)
(* Every line of the trace is one call: {sc, ix, op, res}.  A line is        *)
(* consumed by the action of its call; the results recorded with it are      *)
(* compared with the specification by the judgement of each property in      *)
(* Props.  Trace validation succeeds if every line is consumed and no        *)
(* judgement fails.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        Lpaggreg, Agg

CONSTANT Props

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tables == JsonDeserialize(IOEnv.TABLES)
TXL == Tables.xl
TLG == Tables.lg
Wanted == JsonDeserialize(IOEnv.PROPS)
TProps == {Wanted[n] : n \in DOMAIN Wanted}

VARIABLES l,      \* next line
          st,     \* the state of the library
          memo,   \* results seen in this scenario, by what they may depend on
          nbad    \* failed judgements

vars == <<l, st, memo, nbad>>

-----------------------------------------------------------------------------
(* Judgements are sets of <<property, message>>; empty is good. *)

Must(prop, ok, msg) == IF prop \in Props THEN (IF ok THEN {} ELSE {<<prop, msg>>}) ELSE {}
\* a judgement that is costly to evaluate is only evaluated if it is wanted
Want(prop) == prop \in Props

Report(e, S) ==
    /\ nbad' = nbad + Cardinality(S)
    /\ IF S = {} THEN TRUE ELSE PrintT(<<"VIOLATED", e.sc, e.ix, e.op.op, S>>)

(* no call touches what is not its own; nor does the end of an object, nor a *)
(* change of a copy                                                          *)
Keep(ok, msg) ==
    Must("C18", ok, msg)
    \cup (IF st.gone # {} THEN Must("C23", ok, msg) ELSE {})
    \cup (IF st.copied THEN Must("C24", ok, msg) ELSE {})
(* what is judged as the property of its kind is judged so after an end, too *)
Later(prop) == {prop} \cup (IF st.gone # {} THEN {"C23"} ELSE {})
Every(prop, J(_)) == UNION {J(p) : p \in Later(prop)}

KindProp(kind, o, h, d) == IF kind = "O" THEN o ELSE IF kind = "H" THEN h ELSE d

(* the result that may depend on `key' only is `val' *)
Recall(key, val) == Has(memo, key) => memo[key] = val
Learn(key, val) == IF Has(memo, key) THEN memo ELSE With(memo, key, val)

-----------------------------------------------------------------------------
(* Parameters are recorded as <<a, m, text, n>>: p = a/2^m = n/2^30, or a=-1 *)
(* if 30 bits are not enough (then n is rounded down).                       *)

Param(a, m) == <<a, m, "", a * 2^(30 - m)>>
Known(p) == p[1] >= 0
PLess(p, q) == p[4] < q[4]

-----------------------------------------------------------------------------
(* Matrices *)

(* shape of a recorded matrix *)
MatShape(M, H, T) ==
    /\ Len(M) = H
    /\ \A h \in 1..H : /\ Len(M[h]) = T
                       /\ \A i \in 1..T : Len(M[h][i]) = T - i + 1

Blocks1(H, T) == {<<h, i, d>> \in (1..H) \X (1..T) \X (1..T) : d <= T - i + 1}

AllNum(M) == \A h \in DOMAIN M : \A i \in DOMAIN M[h] : \A d \in DOMAIN M[h][i] :
                IsNum(M[h][i][d][1]) /\ IsNum(M[h][i][d][2])

AllInt(M) == \A h \in DOMAIN M : \A i \in DOMAIN M[h] : \A d \in DOMAIN M[h][i] :
                IsInt(M[h][i][d][1]) /\ IsInt(M[h][i][d][2])

IntMat(M) == TLCEval([h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |->
                <<M[h][i][d][1][1], M[h][i][d][2][1]>>]]])

(* A trade-off value of real qualities in units of 2^-s, rounded down;        *)
(* p = a/2^m with m <= 10, and s chosen such that sums of n of them fit.      *)
ScaleFor(top, n) ==
    CHOOSE s \in 0..20 : /\ s = 0 \/ (top + 1) <= ((2^28 \div n) \div (2^s))
                         /\ s = 20 \/ (top + 1) > ((2^28 \div n) \div (2^(s+1)))

KeyS(q, a, m, s) ==
    LET n == Norm(Minus(Times(a, q[1]), Times(2^m - a, q[2])))
        d == s - m
    IN  IF d < 0 THEN n[1] \div (2^(-d))
        ELSE IF d <= 15 THEN n[1] * 2^d + ((n[2] * 2^d) \div 32768)
        ELSE n[1] * 2^d + n[2] * 2^(d - 15) + ((n[3] * 2^(d - 15)) \div 32768)

KeysOfS(M, a, m, s) ==
    TLCEval([h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |->
        <<KeyS(M[h][i][d], a, m, s), 0, 0>>]]])

ExactKeys(M, a, m) ==
    TLCEval([h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |->
        Key(<<M[h][i][d][1][1], M[h][i][d][2][1]>>, a, 2^m - a)]]])

Bigger(a, b) == IF a < b THEN b ELSE a

(* the cell of the heap for a matrix: what it is, what was observed *)
(* den: the unit of the observed entries is 1/den (0: not stated)            *)
Cell(sym, obs, dg, exact, den) ==
    [sym |-> sym, obs |-> obs, dg |-> dg, exact |-> exact, den |-> den,
     top |-> FoldLeft(LAMBDA a, H : FoldLeft(LAMBDA b, R : FoldLeft(LAMBDA c, x :
                 IF IsNum(x[1]) /\ IsNum(x[2]) THEN Bigger(c, Bigger(Abs(x[1][1]), Abs(x[2][1]))) ELSE Lim, b, R), a, H), 1, obs)]

(* The library computes 1-p in single precision, which is exact for          *)
(* multiples of 2^-24 only; other parameters leave a tolerance.              *)
Fine(p) == Known(p) /\ p[2] <= 24

(* p*gain - (1-p)*loss for any p = n/2^30, as a fixed-point number           *)
SMul(n, x) == IF IsNeg(x) THEN LET y == Mul(n, Norm(Times(-1, x))) IN Norm(Times(-1, y)) ELSE Mul(n, Norm(x))
Frac(n) == <<n \div 1073741824, (n % 1073741824) \div 32768, n % 32768>>
ValueAt(q, n) == Norm(Minus(SMul(Frac(n), q[1]), SMul(Frac(1073741824 - n), q[2])))
(* in units of 2^-20, as a wide key *)
RealKey(q, n) ==
    LET v == ValueAt(q, n) IN
    <<v[1] * 32 + (v[2] \div 1024), (v[2] % 1024) * 32 + (v[3] \div 1024), 0>>
RealKeysOf(M, n) ==
    TLCEval([h \in DOMAIN M |-> [i \in DOMAIN M[h] |-> [d \in DOMAIN M[h][i] |-> RealKey(M[h][i][d], n)]]])

(* how the optimum for p can be computed in 32 bits *)
Exactly(cell, cells, p) == cell.exact /\ Fine(p) /\ cell.top < ((2^29 \div (cells * 2)) \div (2^p[2]))
Widely(cell, cells, p) == cell.exact /\ Fine(p) /\ cell.top < 2^14 \div cells
Nearly(cell, cells, p) == 0 <= p[4] /\ p[4] <= 2^30 /\ cell.top < 32000 /\ cell.top < 2^24 \div cells
Hugely(cell, cells, p) == cell.exact /\ Fine(p) /\ cell.top < 2^26 \div cells
Roughly(cell, cells, p) == Known(p) /\ p[2] <= 10 /\ cell.top < 2^27 \div cells
Tractable(cell, cells, p) ==
    Exactly(cell, cells, p) \/ Widely(cell, cells, p) \/ Hugely(cell, cells, p) \/ Nearly(cell, cells, p) \/ Roughly(cell, cells, p)

(* a <= b + tol in units of 2^-20 *)
WideNearLe(a, b, tol) == ~WideLess(<<b[1], b[2] + tol, 0>>, <<a[1], a[2], 0>>)
(* what p leaves open, in the same units: the rounding of 1-p, and of p to 2^-30 *)
Slack(cell, cells, p, fine) == IF fine /\ Fine(p) THEN 0 ELSE ((cell.top + 1) * cells) \div 8 + 1

(* is the worth of the parts the best there is for p?  With `whole' among    *)
(* optima of the same value that of the greatest gain; ~fine: the parts were *)
(* chosen for a parameter that is not a multiple of 2^-24                    *)
IsBestOf(cell, kids, T, root, blocks, p, whole, fine) ==
    LET cells == Cardinality(LeavesUnder(kids, root)) * T IN
    IF Exactly(cell, cells, p) /\ fine
    THEN LET K == ExactKeys(cell.obs, p[1], p[2])
             x == Worth(K, blocks) y == BestKey(K, kids, T, root)
         IN  x[1] = y[1] /\ (whole => x = y)
    ELSE IF Widely(cell, cells, p) /\ fine
    THEN LET K == WideKeysOf(IntMat(cell.obs), p[4])
             x == WideWorth(K, blocks) y == WideBest(K, kids, T, root)
         IN  WideSame(x, y) /\ (whole => x[3] = y[3])
    ELSE IF Hugely(cell, cells, p) /\ fine
    THEN LET K == HugeKeysOf(IntMat(cell.obs), p[4])
             x == HugeWorth(K, blocks) y == HugeBest(K, kids, T, root)
         IN  x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ (whole => x = y)
    ELSE IF Nearly(cell, cells, p)
    THEN LET K == RealKeysOf(cell.obs, p[4])
         IN  WideNearLe(WideBest(K, kids, T, root), WideWorth(K, blocks), Len(blocks) + 2 + Slack(cell, cells, p, fine))
    ELSE LET K == KeysOfS(cell.obs, p[1], p[2], ScaleFor(cell.top, cells))
         IN  Worth(K, blocks)[1] + Len(blocks) + 2 + Slack(cell, cells, p, fine) >= BestKey(K, kids, T, root)[1]

IsBest(cell, kids, T, root, blocks, p) == IsBestOf(cell, kids, T, root, blocks, p, TRUE, TRUE)

-----------------------------------------------------------------------------
(* Partitions.  A recorded part is                                           *)
(* <<node, start, end, size, gain, loss, leaves, instants>>.                 *)

BlockOf(x) == <<x[1], x[2], x[3]>>
BlocksOf(parts) == [n \in 1..Len(parts) |-> BlockOf(parts[n])]

InRange(parts, H, T) == \A n \in 1..Len(parts) :
    /\ parts[n][1] \in 0..(H-1)
    /\ 0 <= parts[n][2] /\ parts[n][2] <= parts[n][3] /\ parts[n][3] < T

SumQ(parts, n) == FoldLeft(LAMBDA acc, x : Norm(Plus(acc, x[n])), Zero, parts)

(* r: fields parts, q, p (recorded); q: the qualities object; C: its matrix *)
JudgePartition(prop, r, q, cell) ==
    IF ~Want(prop) THEN {}
    ELSE IF ~InRange(r.parts, Len(q.par), q.T)
    THEN {<<prop, "a part is not a node and an interval">>}
    ELSE LET sizes == q.sizes IN
         Must(prop, Covers(q.par, q.kids, q.T, BlocksOf(r.parts)), "the parts do not cover every cell exactly once")
    \cup Must(prop, q.kind = "O" =>
                    \A n \in 1..(Len(r.parts)-1) : r.parts[n+1][2] = r.parts[n][3] + 1,
              "the intervals are not in order")
    \cup Must(prop, \A n \in 1..Len(r.parts) :
                    LET x == r.parts[n] IN
                    /\ x[7] = sizes[x[1] + 1]
                    /\ x[8] = x[3] - x[2] + 1
                    /\ x[4] = x[7] * x[8],
              "the size of a part is not its number of cells")
    \cup Must(prop, \A n \in 1..Len(r.parts) :
                    LET x == r.parts[n] IN
                    <<x[5], x[6]>> = At(cell.obs, BlockOf(x)),
              "a part does not carry the quality of its block")
    \cup Must(prop, LET tol == IF cell.exact THEN 0 ELSE 2 IN
                    \* every recorded number is rounded to 2^-30
                    /\ Near(SumQ(r.parts, 5), r.q[1], tol)
                    /\ Near(SumQ(r.parts, 6), r.q[2], tol),
              "the quality of the partition is not the sum of those of its parts")

JudgeBest(prop, r, q, cell, p) ==
    IF ~Want(prop) \/ ~Tractable(cell, q.L * q.T, p) THEN {}
    ELSE IF ~InRange(r.parts, Len(q.par), q.T) \/ ~Covers(q.par, q.kids, q.T, BlocksOf(r.parts))
    THEN {<<prop, "not a partition">>}
    ELSE Must(prop, IsBest(cell, q.kids, q.T, RootOf(q.par), BlocksOf(r.parts), p),
              "a better partition exists")

Bests(prop) == KindProp(prop, "C04", "C05", "C06")
Tilings(prop) == KindProp(prop, "C01", "C02", "C03")

(* ("null": the driver does not see the matrix of the partitioner any more) *)
SameMat(dg, cell) == dg = cell.dg \/ (st.gone # {} /\ dg = "null")
(* the matrix of a partition still is the one it should share *)
JudgeShared(r, cell) == Keep(r.mdg = cell.dg, "the qualities a partition refers to are not those it was made from, or were modified")

-----------------------------------------------------------------------------
(* The calls *)

Is(name) == /\ l <= Len(Trace)
            /\ Trace[l].op.op = name
            /\ "died" \notin DOMAIN Trace[l].res
            /\ l' = l + 1

E == Trace[l]
Op == Trace[l].op
Res == Trace[l].res

(* the process crashed or hung in this call *)
TDied ==
    /\ l <= Len(Trace)
    /\ "died" \in DOMAIN Trace[l].res
    /\ l' = l + 1
    /\ UNCHANGED <<st, memo>>
    /\ nbad' = nbad + 1
    /\ PrintT(<<"VIOLATED", E.sc, E.ix, Op.op, {<<p, "the call did not return: " \o Res.died>> : p \in Props}>>)

(* a new scenario starts with fresh objects *)
TScenario ==
    /\ Is("scenario")
    /\ st' = InitState
    /\ memo' = Empty
    /\ UNCHANGED nbad

JudgeMetaAs(prop, m, par, L) ==
    IF ~Want(prop) THEN {}
    ELSE LET kids == KidSeqs(par) H == Len(par) IN
         Must(prop, m.hsize = H /\ m.leaves = L /\ m.parents = par, "the hierarchy is not the one that was given")
    \cup Must(prop, m.root = RootOf(par), "the root is wrong")
    \cup Must(prop, /\ m.skeys = [n \in 1..H |-> n - 1]
                     /\ AreSizes(kids, m.sizes), "a number of leaves is wrong")
    \cup Must(prop, /\ Len(m.children) = H
                     /\ \A h \in 0..(H-1) :
                          LET c == m.children[h+1] k == kids[h+1] IN
                          /\ Len(c) = Len(k)
                          /\ {c[n] : n \in 1..Len(c)} = {k[n] : n \in 1..Len(k)}, "the children of a node are wrong")
    \cup Must(prop, IsPath(par, L, m.path), "the order of processing is wrong")
JudgeMeta(m, par, L) == JudgeMetaAs("C15", m, par, L)
(* the description of the hierarchy that an object gives, whenever it is read *)
JudgePartMeta(q, r) == IF q.kind = "O" THEN {} ELSE Every("C15", LAMBDA p : JudgeMetaAs(p, r.meta, q.par, q.L))

JudgeStore(s, r) ==
         Must("C17", r.v = s.val, "a coordinate does not return the last value put there")
    \cup Must("C17", r.idx = s.val, "the series index does not enumerate the values")
    \cup Must("C17", r.T = s.T /\ r.V = s.V /\ r.dims = s.dims, "the sizes are not those given")
    \cup (IF s.kind = "O" THEN {} ELSE JudgeMeta(r.meta, s.par, s.L))

TStore ==
    /\ Is("store")
    /\ LET V == Op.dims[1] * Op.dims[2] * Op.dims[3]
           n == Op.L * V * Op.T
           s == [kind |-> Op.kind, n |-> Op.n, L |-> Op.L, dims |-> Op.dims, V |-> V, T |-> Op.T,
                 par |-> Op.par, kids |-> KidSeqs(Op.par), mul |-> Op.mul, unit |-> Op.unit,
                 val |-> IF Op.ctor = "vec" THEN Op.vals ELSE [x \in 1..n |-> 0]]
       IN  /\ st' = NewStore(st, Op.sid, s)
           /\ Report(E, JudgeStore(s, Res))
    /\ UNCHANGED memo

TFill ==
    /\ Is("fill")
    /\ st' = FillStore(st, Op.sid, Op.vals)
    /\ Report(E, JudgeStore(st'.stores[Op.sid], Res))
    /\ UNCHANGED memo

TSet ==
    /\ Is("set")
    /\ LET s == st.stores[Op.sid]
           k == (Op.at[2] * s.dims[2] + Op.at[3]) * s.dims[3] + Op.at[4]
           n == (Op.at[1] * s.V + k) * s.T + Op.at[5] + 1
       IN  st' = WriteStore(st, Op.sid, n, Op.v)
    /\ UNCHANGED <<memo, nbad>>

TGet ==
    /\ Is("get")
    /\ Report(E, JudgeStore(st.stores[Op.sid], Res)
                 \cup Keep(Res.v = st.stores[Op.sid].val, "the values were modified"))
    /\ UNCHANGED <<st, memo>>

TMeta ==
    /\ Is("meta")
    /\ Report(E, JudgeMeta(Res.meta, Op.par, Op.L))
    /\ UNCHANGED <<st, memo>>

QualRec(kind, par, L, T) ==
    LET kids == KidSeqs(par) IN
    [src |-> None, mat |-> None, kind |-> kind, par |-> par, kids |-> kids, L |-> L, T |-> T,
     sizes |-> [h \in 1..Len(par) |-> SizeOf(kids, h - 1)]]

TQual ==
    /\ Is("qual")
    /\ LET s == st.stores[Op.sid] IN
       st' = NewQual(st, Op.qid, Op.sid, QualRec(s.kind, s.par, s.L, s.T))
    /\ UNCHANGED <<memo, nbad>>

JudgeSize(q, r) == Must(KindProp(q.kind, "C07", "C08", "C09"), r.size = (IF q.kind = "O" THEN q.T ELSE Len(q.par)), "the size of the qualities is wrong")

(* qualities given as a matrix (integers over den) *)
TQualm ==
    /\ Is("qualm")
    /\ LET q == QualRec(Op.kind, Op.par, Op.L, Op.T)
           m == NextMat(st)
           want == [h \in DOMAIN Op.mat |-> [i \in DOMAIN Op.mat[h] |-> [d \in DOMAIN Op.mat[h][i] |->
                        <<FromInt(Op.mat[h][i][d][1]), FromInt(Op.mat[h][i][d][2])>>]]]
       IN  /\ st' = NewQualOf(st, Op.qid, q, m, Cell(Given(<<Op.mat, Op.den, Op.kind, Op.par>>), Res.mat, Res.dg, TRUE, Op.den))
           /\ Report(E, Must("C21", Res.mat = want, "the matrix does not hold what was put in it")
                        \cup JudgeSize(q, Res)
                        \cup (IF Op.kind = "O" THEN {} ELSE JudgeMeta(Res.meta, Op.par, Op.L)))
    /\ UNCHANGED memo

(* qualities from their definition *)
JudgeQualities(prop, s, q, M) ==
    IF ~Want(prop) THEN {}
    ELSE IF ~MatShape(M, Len(q.par), q.T) THEN {<<prop, "the matrix has another shape">>}
    ELSE IF ~AllNum(M) THEN {<<prop, "a quality is not finite">>}
    ELSE LET tol == 16 + (Total(s) \div 512)
             wrong == {h \in 1..Len(q.par) :
                         LET Q == NodeQuality(s, q.kids, h - 1) IN
                         \E i \in 1..q.T : \E d \in 1..(q.T - i + 1) :
                            \/ ~Near(M[h][i][d][1], Q[i][d][1], tol)
                            \/ ~Near(M[h][i][d][2], Q[i][d][2], tol)}
         IN  Must(prop, wrong = {}, "a quality is not the one defined")

SymStore(s) == Raw(<<s.kind, s.n, s.L, s.dims, s.T, s.par, s.mul>>, s.val)

TCompute ==
    /\ Is("compute")
    /\ LET q == st.quals[Op.qid] IN
       IF q.src = None
       THEN \* no values: nothing happens
            /\ Report(E, Keep(Res.dg = st.heap[q.mat].dg, "computing without values changed the qualities"))
            /\ UNCHANGED <<st, memo>>
       ELSE LET s == st.stores[q.src]
                m == NextMat(st)
                sym == SymStore(s)
            IN  /\ st' = Compute(st, Op.qid, m, Cell(sym, Res.mat, Res.dg, FALSE, IF s.unit THEN 1 ELSE 0))
                /\ Report(E, Every(KindProp(q.kind, "C07", "C08", "C09"), LAMBDA p : JudgeQualities(p, s, q, Res.mat))
                             \cup JudgeSize(q, Res)
                             \cup Keep(Recall(<<"mat", sym>>, Res.dg), "the same values gave other qualities")
                             \cup (IF q.kind = "O" THEN {} ELSE JudgeMeta(Res.meta, q.par, q.L)))
                /\ memo' = Learn(<<"mat", sym>>, Res.dg)

(* x * R = r, where x is the normalised entry.  Numbers that are too big for  *)
(* the product are taken in units of 2^15.                                    *)
Shift(r) == LET n == Norm(r) IN <<n[1] \div Base, n[1] % Base, n[2]>>
IsNull(r) == IsNum(r) /\ LET n == Norm(Plus(r, <<0, 0, 2>>)) IN n[1] = 0 /\ n[2] = 0 /\ n[3] <= 4
FAbs(n) == IF IsNeg(n) THEN Norm(Times(-1, n)) ELSE n
Ratio(x, R, r) ==     \* of non-negative numbers
    LET big == R[1] >= Base
        S == IF big THEN Shift(R) ELSE R
        t == IF big THEN Shift(r) ELSE r
        d == Norm(Minus(Mul(x, S), t))
        tol == 16 + S[1] + x[1]
    IN  \/ d[1] = 0 /\ d[2] * 32768 + d[3] <= tol
        \/ d[1] = -1 /\ (32768 - d[2]) * 32768 - d[3] <= tol
RatioOK(x, R, r) ==
    IF ~IsNum(x) THEN FALSE
    ELSE IF IsNull(R) THEN x = Zero
    ELSE LET y == IF IsNull(x) THEN Zero ELSE Norm(x)
             n == IF IsNull(r) THEN Zero ELSE Norm(r)
             W == Norm(R)
         IN  /\ y = Zero \/ n = Zero \/ (IsNeg(y) # IsNeg(n)) = IsNeg(W)
             /\ FAbs(y)[1] < Base
             /\ Ratio(FAbs(y), FAbs(W), FAbs(n))

JudgeNormalize(q, old, new) ==
    IF ~Want("C10") THEN {}
    ELSE IF ~MatShape(new, Len(q.par), q.T) THEN {<<"C10", "the matrix has another shape">>}
    ELSE IF ~AllNum(new) THEN {<<"C10", "a normalised quality is not finite">>}
    ELSE LET whole == old[RootOf(q.par) + 1][1][q.T] IN
         Must("C10", \A h \in DOMAIN old : \A i \in DOMAIN old[h] : \A d \in DOMAIN old[h][i] :
                        /\ RatioOK(new[h][i][d][1], whole[1], old[h][i][d][1])
                        /\ RatioOK(new[h][i][d][2], whole[2], old[h][i][d][2]),
              "a normalised quality is not relative to the whole")

TNormalize ==
    /\ Is("normalize")
    /\ LET q == st.quals[Op.qid]
           cell == st.heap[q.mat]
           sym == Normed(cell.sym)
       IN  /\ st' = Normalize(st, Op.qid, Cell(sym, Res.mat, Res.dg, FALSE, 1))
           /\ Report(E, JudgeNormalize(q, cell.obs, Res.mat)
                        \cup Keep(Recall(<<"mat", sym>>, Res.dg), "the same qualities were normalised to others")
                        \cup JudgeSize(q, Res) \cup JudgePartMeta(q, Res))
           /\ memo' = Learn(<<"mat", sym>>, Res.dg)

(* reading the qualities: they are as the last call that may change them left them *)
TDumpq ==
    /\ Is("dumpq")
    /\ LET q == st.quals[Op.qid] IN
       Report(E, IF q.mat = None THEN {}
                 ELSE Keep(Res.dg = st.heap[q.mat].dg, "the qualities were modified")
                      \cup JudgeSize(q, Res) \cup JudgePartMeta(q, Res))
    /\ UNCHANGED <<st, memo>>

TParter ==
    /\ Is("parter")
    /\ st' = NewParter(st, Op.pid, Op.qid)
    /\ Report(E, Keep(Res.mdg = st.heap[st.quals[Op.qid].mat].dg, "making a partitioner changed the qualities"))
    /\ UNCHANGED memo

(* gain and loss against all the parameters asked before of the same matrix *)
JudgeMonotone(seen, p, q, exact) ==
    LET tol == IF exact THEN 0 ELSE 64 IN
    Must("C13", \A x \in seen :
                  /\ (PLess(x[1], p) => NearLe(x[2][1], q[1], tol) /\ NearLe(x[2][2], q[2], tol))
                  /\ (PLess(p, x[1]) => NearLe(q[1], x[2][1], tol) /\ NearLe(q[2], x[2][2], tol)),
         "gain or loss decrease with the parameter")

(* a partition made from decisions; what they describe.  Decisions that are  *)
(* none describe a block that does not exist.                                *)
Nothing == {<<-1, 0, 0>>}
RECURSIVE Described(_, _, _, _, _)
Described(kids, cuts, h, i, j) ==
    LET c == cuts[h + 1][i + 1][j - i + 1] IN
    IF c = -1 THEN (IF kids[h + 1] = <<>> THEN Nothing
                    ELSE FoldLeft(LAMBDA acc, k : acc \cup Described(kids, cuts, k, i, j), {}, kids[h + 1]))
    ELSE IF c < i \/ c > j THEN Nothing
    ELSE IF c < j THEN Described(kids, cuts, h, i, c) \cup Described(kids, cuts, h, c + 1, j)
    ELSE {<<h, i, j>>}
\* cuts[i+1] is the last index of the part that starts at i
RECURSIVE DescribedO(_, _)
DescribedO(cuts, i) == IF i >= Len(cuts) THEN {}
                       ELSE IF cuts[i + 1] < i THEN Nothing
                       ELSE {<<0, i, cuts[i + 1]>>} \cup DescribedO(cuts, cuts[i + 1] + 1)
RECURSIVE DescribedH(_, _, _)
DescribedH(kids, flags, h) ==
    IF flags[h + 1] = 1 THEN {<<h, 0, 0>>}
    ELSE FoldLeft(LAMBDA acc, k : acc \cup DescribedH(kids, flags, k), {}, kids[h + 1])

BlockSet(parts) == {BlockOf(parts[n]) : n \in 1..Len(parts)}

(* the decisions that a partition reports describe its parts *)
DecisionsFit(q, dec) ==
    IF q.kind = "O" THEN Len(dec) = q.T
    ELSE /\ Len(dec) = Len(q.par)
         /\ q.kind = "D" => \A h \in 1..Len(q.par) : /\ Len(dec[h]) = q.T
                                                     /\ \A i \in 1..q.T : Len(dec[h][i]) = q.T - i + 1
DescribedBy(q, dec) ==
    IF q.kind = "O" THEN DescribedO(dec, 0)
    ELSE IF q.kind = "H" THEN DescribedH(q.kids, dec, RootOf(q.par))
    ELSE Described(q.kids, dec, RootOf(q.par), 0, q.T - 1)
JudgeDecisions(prop, q, r) ==
    Must(prop, DecisionsFit(q, r.dec) /\ DescribedBy(q, r.dec) = BlockSet(r.parts), "the decisions a partition reports do not describe its parts")

TBest ==
    /\ Is("best")
    /\ LET pt == st.parters[Op.pid]
           q == pt.of
           cell == st.heap[pt.mat]
           kp == <<"best", cell.sym, q.par, Res.ask[3]>>
           km == <<"seen", pt.mat, cell.dg>>
           seen == IF Has(memo, km) THEN memo[km] ELSE {}
       IN  /\ st' = Best(st, Op.bid, Op.pid, Res.ask, Res)
           /\ Report(E, Every(Tilings(q.kind), LAMBDA p : JudgePartition(p, Res, q, cell) \cup JudgeDecisions(p, q, Res))
                        \cup JudgePartMeta(q, Res)
                        \cup Must(Tilings(q.kind), Res.p[3] = Res.ask[3], "the parameter of the partition is another one")
                        \cup Every(Bests(q.kind), LAMBDA p : JudgeBest(p, Res, q, cell, Res.ask))
                        \cup (IF ~Known(Res.ask) THEN {} ELSE JudgeMonotone(seen, Res.ask, Res.q, cell.exact))
                        \cup JudgeShared(Res, cell)
                        \cup Keep(Recall(kp, <<Res.key, Res.qdg>>), "the same qualities and parameter gave another partition"))
           /\ memo' = With(Learn(kp, <<Res.key, Res.qdg>>), km,
                           IF ~Known(Res.ask) THEN seen ELSE seen \cup {<<Res.ask, Res.q>>})

TPart ==
    /\ Is("part")
    /\ LET q == st.quals[Op.qid]
           cell == st.heap[q.mat]
           want == DescribedBy(q, Op.dec)
       IN  /\ st' = BuildPart(st, Op.bid, Op.qid, Res.p, Res)
           /\ Report(E, JudgePartition(Tilings(q.kind), Res, q, cell)
                        \cup JudgePartMeta(q, Res)
                        \cup Must(Tilings(q.kind), Res.p[3] = Res.ask[3], "the parameter of the partition is another one")
                        \cup Must(Tilings(q.kind), Res.dec = Op.dec, "the decisions are not those given")
                        \cup Must(Tilings(q.kind), BlockSet(Res.parts) = want, "the parts are not those described")
                        \cup JudgeShared(Res, cell))
    /\ UNCHANGED memo

(* a partition is as it was made *)
TDumpb ==
    /\ Is("dumpb")
    /\ LET b == st.parts[Op.bid] cell == st.heap[b.mat] IN
       Report(E, Keep(Res.key = b.rec.key /\ Res.qdg = b.rec.qdg /\ Res.p = b.rec.p /\ Res.dec = b.rec.dec, "a partition was modified")
                 \cup JudgePartMeta(b, Res)
                 \cup JudgeShared(Res, cell))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------
(* Sweeps *)

Texts(s) == [n \in 1..Len(s) |-> s[n][3]]
AtTexts(parts) == [n \in 1..Len(parts) |-> parts[n].at[3]]
QlTexts(ql) == [n \in 1..Len(ql) |-> ql[n][1][3]]
KeysOfLists(r) == <<Texts(r.pl), [n \in 1..Len(r.parts) |-> <<r.parts[n].key, r.parts[n].qdg, r.parts[n].at[3], r.parts[n].p[3]>>],
                    [n \in 1..Len(r.ql) |-> r.ql[n]], r.tu>>

(* what the flat list must be *)
FlatEntry(q, text, x) == <<text, <<x[1], x[2], x[3], IF q.kind = "O" THEN -1 ELSE x[4], x[5], x[6]>>>>
FlatParts(q, parts) ==
    FoldLeft(LAMBDA acc, r : acc \o [n \in 1..Len(r.parts) |-> FlatEntry(q, r.at[3], r.parts[n])], <<>>, parts)

JudgeLists(q, cell, r, direct, min, max) ==
    IF ~Want("C11") THEN {}
    ELSE IF r.pl = <<>> THEN {<<"C11", "no parameter is listed">>}
    ELSE Must("C11", \A n \in 1..(Len(r.pl) - 1) :
                       (Known(r.pl[n]) /\ Known(r.pl[n+1])) => PLess(r.pl[n], r.pl[n+1]),
              "the parameters do not increase")
    \cup Must("C11", /\ r.pl[1][3] = min[3]
                     /\ \A n \in 1..Len(r.pl) : (Known(r.pl[n]) /\ Known(max)) => ~PLess(max, r.pl[n]),
              "the parameters do not start with the minimum or leave the range")
    \cup Must("C11", /\ AtTexts(r.parts) = Texts(r.pl)
                     /\ QlTexts(r.ql) = Texts(r.pl),
              "the lists are not keyed by the same parameters")
    \cup Must("C11", \A n \in 1..Len(r.parts) :
                       /\ r.parts[n].p[3] = r.parts[n].at[3]
                       /\ n <= Len(r.ql) => r.ql[n][2] = r.parts[n].q,
              "a listed partition or quality is the one of another parameter")
    \cup Must("C11", [n \in 1..Len(r.tu) |-> <<r.tu[n][1][3], r.tu[n][2]>>] = FlatParts(q, r.parts),
              "the tuples are not the parts")
    \cup Must("C11", /\ Len(direct) = Len(r.parts)
                     /\ \A n \in 1..Len(r.parts) : n <= Len(direct) =>
                          /\ BlockSet(direct[n].parts) = BlockSet(r.parts[n].parts)
                          /\ direct[n].q = r.parts[n].q,
              "a listed partition is not the one computed for its parameter alone")
    \cup Must("C11", \A n \in 1..(Len(r.parts) - 1) : BlockSet(r.parts[n].parts) # BlockSet(r.parts[n+1].parts),
              "two consecutive partitions are the same")

(* the partition listed for the greatest parameter not above p *)
LastNotAbove(r, p) ==
    LET S == {n \in 1..Len(r.pl) : ~PLess(p, r.pl[n])}
    IN  IF S = {} THEN 0 ELSE CHOOSE n \in S : \A k \in S : k <= n

(* The best value is a convex function of the parameter and that of one      *)
(* partition a straight line below it: a partition that is the best for two  *)
(* parameters is the best for all those between.  So a listed partition is   *)
(* judged at its own parameter and at the last one it stands for: the end of *)
(* the range, or the threshold before the next listed parameter (less 2^-23, *)
(* as the library subtracts in single precision, and rounded down to a       *)
(* multiple of 2^-24, or of as many bits as can be computed exactly).        *)
LastFor(r, n, th, max) ==
    IF n = Len(r.pl) THEN max
    ELSE LET x == r.pl[n+1][4] - th[4] - 128 - (IF Known(th) THEN 0 ELSE 1)
         IN  Param(x \div 64, 24)
JudgeComplete(q, cell, r, th, max, asked) ==
    LET best(n, p) ==
          \/ ~Tractable(cell, q.L * q.T, p)
          \/ IsBestOf(cell, q.kids, q.T, RootOf(q.par), BlocksOf(r.parts[n].parts), p, FALSE,
                      \A k \in 1..Len(r.pl) : Fine(r.pl[k]))
    IN
    IF ~Want("C12") THEN {}
    ELSE IF Len(r.pl) # Len(r.parts) \/ \E n \in 1..Len(r.pl) : r.pl[n][4] < 0 THEN {}
    ELSE IF \E n \in 1..Len(r.parts) : ~InRange(r.parts[n].parts, Len(q.par), q.T)
    THEN {<<"C12", "a part is not a node and an interval">>}
    ELSE Must("C12", \A x \in 1..Len(asked) :
                LET p == Param(asked[x][1], asked[x][2])
                    n == LastNotAbove(r, p)
                IN  \/ \E k \in 1..Len(r.pl) : PLess(p, r.pl[k]) /\ r.pl[k][4] - p[4] <= th[4]
                    \/ n # 0 /\ best(n, p),
              "an optimum wider than the threshold is not listed")
    \cup Must("C12", \A n \in 1..Len(r.pl) :
                /\ best(n, r.pl[n])
                /\ LET p == LastFor(r, n, th, max) IN PLess(r.pl[n], p) => best(n, p),
              "a listed partition does not last until the threshold before the next one")

JudgeCurve(r, exact) ==
    LET tol == IF exact THEN 0 ELSE 64 IN
    Must("C13", \A n \in 1..(Len(r.ql) - 1) :
                  /\ NearLe(r.ql[n][2][1], r.ql[n+1][2][1], tol)
                  /\ NearLe(r.ql[n][2][2], r.ql[n+1][2][2], tol),
         "gain or loss decrease along the list")

TSweep ==
    /\ Is("sweep")
    /\ LET pt == st.parters[Op.pid]
           q == pt.of
           cell == st.heap[pt.mat]
           ks == <<"sweep", cell.sym, q.par, Res.th[3], Res.min[3], Res.max[3]>>
           val == KeysOfLists(Res)
           K(n) == <<"best", cell.sym, q.par, Res.parts[n].at[3]>>
       IN  /\ st' = Sweep(st, Op.pid, <<Res.th[3], Res.min[3], Res.max[3]>>, cell.sym, Res)
           /\ Report(E, JudgeLists(q, cell, Res, Res.direct, Res.min, Res.max)
                        \cup JudgeComplete(q, cell, Res, Res.th, Res.max, Op.asked)
                        \cup JudgeCurve(Res, cell.exact)
                        \cup UNION {JudgePartition(Tilings(q.kind), Res.parts[n], q, cell) : n \in 1..Len(Res.parts)}
                        \cup UNION {JudgeBest(Bests(q.kind), Res.parts[n], q, cell, Res.parts[n].at) : n \in 1..Len(Res.parts)}
                        \cup UNION {JudgeShared(Res.parts[n], cell) : n \in 1..Len(Res.parts)}
                        \cup Keep(SameMat(Res.mdg0, cell) /\ SameMat(Res.mdg, cell), "the sweep modified the qualities")
                        \cup Keep(Len(Res.direct) = Len(Res.parts) =>
                                    \A n \in 1..Len(Res.parts) : Res.direct[n].key = Res.parts[n].key /\ Res.direct[n].qdg = Res.parts[n].qdg,
                                  "the sweep lists another partition than the one computed afterwards")
                        \cup Keep(Recall(ks, val), "the same qualities and request gave another sweep")
                        \cup Keep(\A n \in 1..Len(Res.parts) : Recall(K(n), <<Res.parts[n].key, Res.parts[n].qdg>>),
                                  "the sweep lists another partition than the one computed before"))
           /\ memo' = Learn(ks, val)

(* the lists stay as the last sweep made them *)
TLists ==
    /\ Is("lists")
    /\ LET pt == st.parters[Op.pid] cell == st.heap[pt.mat] IN
       Report(E, Keep(IF pt.swept
                             THEN (cell.sym = pt.sweep[2]) => KeysOfLists(Res) = KeysOfLists(pt.lists)
                             ELSE Res.pl = <<>> /\ Res.parts = <<>> /\ Res.ql = <<>> /\ Res.tu = <<>>,
                      "the lists are not those of the last sweep")
                 \cup Keep(Res.mdg = cell.dg, "the qualities were modified"))
    /\ UNCHANGED <<st, memo>>

(* (gain-1)^2+loss^2, exactly in units of 1/den^2, or as a fixed-point number *)
Square(x) == LET n == IF IsNeg(x) THEN Norm(Times(-1, x)) ELSE Norm(x) IN Mul(n, n)
ScoreInt(q, den) == (q[1][1] - den) * (q[1][1] - den) + q[2][1] * q[2][1]
Score(q) == Norm(Plus(Square(Minus(q[1], FromInt(1))), Square(q[2])))

JudgeP(cell, lists, r) ==
    IF ~Want("C14") \/ lists.pl = <<>> THEN {}
    ELSE LET n == Len(lists.pl)
             S == {k \in 1..n : lists.pl[k][3] = r.opt[3]}
         IN  Must("C14", r.min[3] = lists.pl[1][3], "the minimum is not the first listed parameter")
        \cup Must("C14", r.max[3] = lists.pl[n][3], "the maximum is not the last listed parameter")
        \cup (IF cell.den = 0 \/ Len(lists.ql) # n THEN {}
              ELSE IF \E k \in 1..n : \E c \in {1, 2} : ~Within(lists.ql[k][2][c], 16000) THEN {}
              ELSE Must("C14", /\ S # {}
                               /\ LET o == CHOOSE k \in S : TRUE IN
                                  IF cell.exact
                                  THEN \A k \in 1..n :
                                         LET a == ScoreInt(lists.ql[k][2], cell.den)
                                             b == ScoreInt(lists.ql[o][2], cell.den)
                                         IN  IF k <= o THEN b <= a ELSE b < a
                                  ELSE \A k \in 1..n : LET x == Score(lists.ql[k][2]) IN NearLe(Score(lists.ql[o][2]), x, 2 + (x[1] \div 1000)),
                        "the optimum is not the last listed parameter of the least score"))

TGetp ==
    /\ Is("getp")
    /\ LET pt == st.parters[Op.pid] IN
       Report(E, IF pt.swept THEN JudgeP(st.heap[pt.mat], pt.lists, Res) ELSE {})
    /\ UNCHANGED <<st, memo>>

(* the area, recorded as (auc-1)*scale *)
JudgeAuc(cell, lists, r, scale) ==
    IF ~Want("C14") \/ cell.den = 0 \/ (\E k \in 1..Len(lists.ql) : \E c \in {1, 2} : ~Within(lists.ql[k][2][c], 16000)) THEN {}
    ELSE LET n == Len(lists.ql)
             g(k) == lists.ql[k][2][1]
             o(k) == lists.ql[k][2][2]
             ks == [k \in 1..(n-1) |-> k]
         IN  IF cell.exact
             THEN \* scale = den^2; twice the area is an integer
                  LET X == FoldLeft(LAMBDA acc, k : acc + (g(k+1)[1] - g(k)[1]) * (o(k)[1] + o(k+1)[1]), 0, ks)
                      big == X + 2 * scale
                      tol == 1 + (big \div 2000000) * (n + 2)
                      fine == 4 + (1 + (big \div 4)) * (n + 2)      \* single precision, in units of 2^-20
                  IN  Must("C14", /\ IsNum(r.auc)
                                  /\ LET d == Norm(Plus(Times(2, r.auc), FromInt(X))) IN
                                     IF big < 2^20 THEN Small(d, fine)
                                     ELSE d[1] >= -tol /\ d[1] <= tol - (IF tol = 1 THEN 1 ELSE 0),
                           "the area under the curve is wrong")
             ELSE LET X == FoldLeft(LAMBDA acc, k : Norm(Plus(acc, Mul(Norm(Minus(g(k+1), g(k))), Norm(Plus(o(k), o(k+1)))))), Zero, ks)
                      good == \A k \in 1..(n-1) : ~IsNeg(Minus(g(k+1), g(k))) /\ ~IsNeg(Plus(o(k), o(k+1)))
                  IN  Must("C14", ~good \/ Near(Times(2, r.auc), Times(-1, X), 64 + 2 * X[1]),
                           "the area under the curve is wrong")

TAuc ==
    /\ Is("auc")
    /\ LET pt == st.parters[Op.pid] IN
       Report(E, IF pt.swept THEN JudgeAuc(st.heap[pt.mat], pt.lists, Res, Op.scale)
                 ELSE Must("C14", IsNum(Res.auc) /\ Res.auc = Zero, "the area without any listed parameter is not 1"))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------
(* Aggregates, comparisons *)

BlockSum(s, leaves, i, j, k) ==
    FoldLeft(LAMBDA acc, h : acc + FoldLeft(LAMBDA x, t : x + Val(s, h, k, t), 0, [n \in 1..(j - i + 1) |-> i + n - 1]),
             0, leaves)

\* parts refer to the qualities of the matrix, which may have been normalised since
JudgeAgg(prop, s, b0, r) ==
  LET parts == b0.rec.parts obs == st.heap[b0.mat].obs IN
    IF ~Want(prop) THEN {}
    ELSE IF Len(r.agg) # Len(parts) THEN {<<prop, "not one aggregate per part">>}
    ELSE Must(prop, \A n \in 1..Len(parts) :
               LET x == r.agg[n].part y == parts[n] IN
               /\ BlockOf(x) = BlockOf(y) /\ <<x[4], x[7], x[8]>> = <<y[4], y[7], y[8]>>
               /\ <<x[5], x[6]>> \in {<<y[5], y[6]>>, At(obs, BlockOf(y))}, "an aggregate is not that of its part")
    \cup Must(prop, \A n \in 1..Len(parts) :
               LET b == BlockOf(parts[n])
                   leaves == SetToSeq(LeavesUnder(s.kids, b[1]))
                   size == Len(leaves) * (b[3] - b[2] + 1)
                   a == r.agg[n]
               IN  /\ Len(a.sum) = s.V /\ Len(a.mean) = s.V
                   /\ \A k \in 1..s.V :
                        LET S == BlockSum(s, leaves, b[2], b[3], k - 1) IN
                        /\ Near(a.sum[k], FromInt(S), 1)
                        /\ IsNum(a.mean[k]) /\ Near(Times(size, Norm(a.mean[k])), FromInt(S), 1 + (size \div 512)),
              "a sum or a mean is not that of the cells of the part")

TAgg ==
    /\ Is("agg")
    /\ Report(E, Every("C16", LAMBDA p : JudgeAgg(p, st.stores[Op.sid], st.parts[Op.bid], Res)))
    /\ UNCHANGED <<st, memo>>

(* an aggregation is made once; the qualities of its parts stay those of the *)
(* matrix, which may be normalised                                           *)
AggFacts(agg) == [n \in 1..Len(agg) |-> LET x == agg[n].part IN <<x[1], x[2], x[3], x[4], x[7], x[8], agg[n].sum, agg[n].mean>>]
TAggkeep ==
    /\ Is("aggkeep")
    /\ st' = KeepAgg(st, Op.aid, AggFacts(Res.agg))
    /\ Report(E, Every("C16", LAMBDA p : JudgeAgg(p, st.stores[Op.sid], st.parts[Op.bid], Res)))
    /\ UNCHANGED memo
TDumpagg ==
    /\ Is("dumpagg")
    /\ Report(E, Keep(AggFacts(Res.agg) = st.aggs[Op.aid], "an aggregation was modified"))
    /\ UNCHANGED <<st, memo>>

(* parts that are kept without their partition *)
PlaceOf(parts) == [n \in 1..Len(parts) |-> LET x == parts[n] IN <<x[1], x[2], x[3], x[4], x[7], x[8]>>]
TTake ==
    /\ Is("take")
    /\ st' = TakeParts(st, Op.tid, Op.bid, Res.parts)
    /\ Report(E, Keep(LET b == st.parts[Op.bid] IN PlaceOf(Res.parts) = PlaceOf(b.rec.parts), "a partition has other parts than before"))
    /\ UNCHANGED memo
TDumptake ==
    /\ Is("dumptake")
    /\ LET t == st.takes[Op.tid] IN
       Report(E, Keep(/\ PlaceOf(Res.parts) = PlaceOf(t.facts)
                      /\ SymOf(st, t.mat) = t.sym => Res.parts = t.facts, "parts were modified"))
    /\ UNCHANGED <<st, memo>>

(* objects end or are copied *)
TLoose == Is("loose") /\ UNCHANGED <<st, memo, nbad>>
TDrop ==
    /\ Is("drop")
    /\ st' = Drop(st, Op.what, Op.id)
    /\ UNCHANGED <<memo, nbad>>
TCopy ==
    /\ Is("copy")
    /\ st' = IF Op.what = "store" THEN CopyStore(st, Op.from, Op.to)
             ELSE IF Op.what = "parter" THEN CopyParter(st, Op.from, Op.to)
             ELSE CopyPart(st, Op.from, Op.to)
    /\ Report(E, IF Op.what = "store"
                 THEN Must("C24", Res.v = st.stores[Op.from].val /\ Res.idx = Res.v, "a copy has other values")
                      \cup JudgeStore(st.stores[Op.from], Res)
                 ELSE IF Op.what = "part"
                 THEN LET b == st.parts[Op.from] IN
                      Must("C24", Res.key = b.rec.key /\ Res.qdg = b.rec.qdg /\ Res.p = b.rec.p /\ Res.dec = b.rec.dec
                                  /\ Res.mdg = st.heap[b.mat].dg, "a copy is another partition")
                 ELSE LET pt == st.parters[Op.from] IN
                      Must("C24", IF pt.swept
                                  THEN (st.heap[pt.mat].sym = pt.sweep[2]) => KeysOfLists(Res) = KeysOfLists(pt.lists)
                                  ELSE Res.pl = <<>> /\ Res.parts = <<>> /\ Res.ql = <<>> /\ Res.tu = <<>>,
                           "a copy has other lists"))
    /\ UNCHANGED memo

PartId(x) == <<x[1], x[2], x[3], x[4]>>

\* of two hierarchies the same numbers are not the same nodes: then only symmetry counts
JudgeEq(a, b, r, alike) ==
    LET same == {PartId(a.parts[n]) : n \in 1..Len(a.parts)} = {PartId(b.parts[n]) : n \in 1..Len(b.parts)}
    IN  Must("C22", alike => (r.eq = 1) = same, "equality is not that of the parts")
   \cup Must("C22", r.ne = 1 - r.eq /\ r.eqr = r.eq /\ r.ner = r.ne, "equality is not symmetric or not the opposite of inequality")
   \cup Must("C22", \A n \in 1..Len(r.peq) :
                      LET x == r.peq[n]
                          e == PartId(a.parts[x[1] + 1]) = PartId(b.parts[x[2] + 1])
                      IN  (x[3] = 1) = e /\ x[4] = 1 - x[3],
             "two parts compare wrongly")
   \cup Must("C22", r.a.key = a.key /\ r.b.key = b.key /\ r.a.qdg = a.qdg /\ r.b.qdg = b.qdg /\ r.a.p = a.p /\ r.b.p = b.p, "comparing modified a partition")

TEq ==
    /\ Is("eq")
    /\ LET a == st.parts[Op.a] b == st.parts[Op.b] IN
       Report(E, JudgeEq(a.rec, b.rec, Res, a.par = b.par)
                 \cup JudgeShared(Res.a, st.heap[a.mat]) \cup JudgeShared(Res.b, st.heap[b.mat]))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------
(* Relations between analyses (no call is made): the block <<h, i, j>> of a  *)
(* is the block <<map[h], i, j>> of b, or with the instants reversed; times  *)
(* a factor.                                                                 *)

TRelate ==
    /\ Is("relate")
    /\ LET a == st.quals[Op.a] b == st.quals[Op.b]
           A == st.heap[a.mat].obs B == st.heap[b.mat].obs
           T == a.T
           tol == 32 * Op.factor
           image(h, i, d) == IF Op.rev THEN B[Op.map[h] + 1][T - i - d + 3 - 1][d] ELSE B[Op.map[h] + 1][i][d]
       IN  Report(E, Must("C19", /\ b.T = T
                                 /\ \A h \in 1..Len(Op.map) : Op.map[h] >= 0 =>
                                      \A i \in 1..T : \A d \in 1..(T - i + 1) :
                                         \A c \in {1, 2} :
                                            /\ IsNum(A[h][i][d][c])
                                            /\ Near(Times(Op.factor, A[h][i][d][c]), image(h, i, d)[c], tol),
                          "the qualities of the two analyses differ"))
    /\ UNCHANGED <<st, memo>>

(* the two partitions are worth the same; p with at most 10 bits *)
TRelbest ==
    /\ Is("relbest")
    /\ LET a == st.parts[Op.a].rec b == st.parts[Op.b].rec IN
       Report(E, Must("C19", /\ IsNum(a.q[1]) /\ IsNum(a.q[2]) /\ IsNum(b.q[1]) /\ IsNum(b.q[2])
                             /\ a.p[3] = b.p[3]
                             /\ (Known(a.p) /\ a.p[2] <= 10) =>
                                  LET top == Bigger(Bigger(Abs(a.q[1][1]), Abs(a.q[2][1])), Bigger(Abs(b.q[1][1]), Abs(b.q[2][1])))
                                      s == ScaleFor(top, 16)
                                      x == Op.factor * KeyS(a.q, a.p[1], a.p[2], s)
                                      y == KeyS(b.q, b.p[1], b.p[2], s)
                                  IN  /\ top < 2^24
                                      /\ x - y <= 2 * Op.factor + 1 /\ y - x <= 2 * Op.factor + 1,
                      "the best trade-offs of the two analyses differ"))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------
(* Qualities, trade-offs, triangular matrices *)

\* x, a recorded number, is the integer n over den (a power of two)
IsRatio(x, n, den) == IsNum(x) /\ Norm(Times(den, x)) = FromInt(n)
Pair(x, n1, n2, den) == IsRatio(x[1], n1, den) /\ IsRatio(x[2], n2, den)
\* x is n/d up to rounding
Quotient(x, n, d) == IsNum(x) /\ Near(Times(d, x), FromInt(n), 8)

TQarith ==
    /\ Is("qarith")
    /\ LET a == Op.a b == Op.b d == Op.den r == Res
           eq == a = b
       IN  Report(E,
             Must("C20", Pair(r.add, a[1] + b[1], a[2] + b[2], d) /\ Pair(r.iadd, a[1] + b[1], a[2] + b[2], d)
                         /\ Pair(r.acc, a[1] + b[1], a[2] + b[2], d), "a sum of qualities is wrong")
        \cup Must("C20", Pair(r.sub, a[1] - b[1], a[2] - b[2], d) /\ Pair(r.isub, a[1] - b[1], a[2] - b[2], d), "a difference of qualities is wrong")
        \cup Must("C20", Pair(r.mul, a[1] * b[1], a[2] * b[2], d * d) /\ Pair(r.imul, a[1] * b[1], a[2] * b[2], d * d), "a product of qualities is wrong")
        \cup Must("C20", b[1] # 0 /\ b[2] # 0 =>
                           /\ Len(r.div) = 2 /\ Quotient(r.div[1], a[1], b[1]) /\ Quotient(r.div[2], a[2], b[2])
                           /\ Quotient(r.idiv[1], a[1], b[1]) /\ Quotient(r.idiv[2], a[2], b[2]), "a quotient of qualities is wrong")
        \cup Must("C20", (r.eq = 1) = eq /\ r.ne = 1 - r.eq, "two qualities compare wrongly")
        \cup Must("C20", Pair(r.a, a[1], a[2], 1) /\ Pair(r.b, b[1], b[2], 1), "an operand was modified")
        \cup Must("C20", Pair(r.set, a[1], b[2], d) /\ Pair(r.self, 2 * a[1], 2 * a[2], d) /\ r.str = 1
                         /\ Pair(r.sself, 0, 0, 1) /\ Pair(r.mself, a[1] * a[1], a[2] * a[2], d * d) /\ Pair(r.pself, 2 * a[1], 2 * a[2], d) /\ r.eself = 1
                         /\ (a[1] # 0 /\ a[2] # 0 => Len(r.dself) = 2 /\ Pair(r.dself, 1, 1, 1)), "a setter, a sum with itself or the text is wrong"))
    /\ UNCHANGED <<st, memo>>

(* qualities that differ by k units of a relative 2^-e *)
TQnear ==
    /\ Is("qnear")
    /\ Report(E, Must("C20", /\ \A n \in 1..Len(Res.near) : Res.near[n] = 1
                             /\ \A n \in 1..Len(Res.far) : Res.far[n] = 0,
                      "qualities are not equal up to a relative precision of 1e-13"))
    /\ UNCHANGED <<st, memo>>

Triple(x, v, d) == \A n \in 1..3 : IsRatio(x[n], v[n], d)

TTarith ==
    /\ Is("tarith")
    /\ LET a == Op.a b == Op.b r == Res
           p == r.p[1] m == r.p[2]
           val(q) == p * q[2] - (2^m - p) * q[3]     \* times 2^m
           FromP(x, q) == IsRatio(x[1], val(q), 2^m) /\ IsRatio(x[2], q[2], 1) /\ IsRatio(x[3], q[3], 1)
           sum == [n \in 1..3 |-> a[n] + b[n]]
           dif == [n \in 1..3 |-> a[n] - b[n]]
           pro == [n \in 1..3 |-> a[n] * b[n]]
       IN  Report(E,
             Must("C20", Triple(r.add, sum, 1) /\ Triple(r.iadd, sum, 1), "a sum of trade-offs is wrong")
        \cup Must("C20", Triple(r.sub, dif, 1) /\ Triple(r.isub, dif, 1), "a difference of trade-offs is wrong")
        \cup Must("C20", Triple(r.mul, pro, 1) /\ Triple(r.imul, pro, 1), "a product of trade-offs is wrong")
        \cup Must("C20", (\A n \in 1..3 : b[n] # 0) =>
                           /\ Len(r.div) = 3
                           /\ \A n \in 1..3 : Quotient(r.div[n], a[n], b[n]) /\ Quotient(r.idiv[n], a[n], b[n]), "a quotient of trade-offs is wrong")
        \cup Must("C20", Triple(r.a, a, 1) /\ Triple(r.b, b, 1) /\ Pair(r.qa, a[2], a[3], 1) /\ Pair(r.qb, b[2], b[3], 1)
                         /\ Pair(r.qkept, a[2], a[3], 1), "an operand or the quality a trade-off was made from was modified")
        \cup Must("C20", FromP(r.fromp, a) /\ FromP(r.setp, a) /\ FromP(r.pic, b), "the value of a trade-off is wrong")
        \cup Must("C20", IsRatio(r.ckept[2], a[2] + b[2], 1) /\ IsRatio(r.ckept[3], a[3] + b[3], 1), "a trade-off does not keep a copy of the quality")
        \cup Must("C20", Triple(r.plain, <<0, a[2], a[3]>>, 1) /\ Triple(r.zero, <<0, 0, 0>>, 1), "a new trade-off has a wrong value"))
    /\ UNCHANGED <<st, memo>>

Objects == INSTANCE Alg
(* objects that are combined again and again: every call changes its target  *)
(* and no other object                                                       *)
TRegs ==
    /\ Is("regs")
    /\ LET start == [t |-> Op.t, q |-> Op.q]
           run == FoldLeft(LAMBDA acc, op : Append(acc, Objects!Apply(IF acc = <<>> THEN start ELSE acc[Len(acc)], op)), <<>>, Op.calls)
           Same(s, r) == /\ \A n \in 1..Len(s.t) : IsRatio(r.t[n][1], s.t[n][1], 1) /\ IsRatio(r.t[n][2], 2 * s.t[n][2], 1) /\ IsRatio(r.t[n][3], 2 * s.t[n][3], 1)
                         /\ \A n \in 1..Len(s.q) : Pair(r.q[n], s.q[n][1], s.q[n][2], 1)
           K(x) == <<x[1], x[2], -x[3]>>
           B(x) == IF x THEN 1 ELSE 0
       IN  Report(E,
             Must("C20", Len(Res.steps) = Len(run) /\ \A n \in 1..Len(run) : Same(run[n], Res.steps[n]),
                  "a call on qualities or trade-offs gave a wrong result or changed another object")
        \cup Must("C20", Len(Res.steps) = Len(run) /\ \A n \in 1..Len(run) :
                           Res.steps[n].cmp = <<B(KeyLess(K(run[n].t[1]), K(run[n].t[2]))), B(run[n].t[1] = run[n].t[2]), B(run[n].q[1] = run[n].q[2])>>,
                  "qualities or trade-offs compare wrongly after other calls"))
    /\ UNCHANGED <<st, memo>>

TTorder ==
    /\ Is("torder")
    /\ LET t == Op.items
           K(n) == <<t[n][1], t[n][2], -t[n][3]>>
           B(x) == IF x THEN 1 ELSE 0
       IN  Report(E,
             Must("C20", \A i \in 1..Len(t) : \A j \in 1..Len(t) :
                           LET lt == KeyLess(K(i), K(j)) gt == KeyLess(K(j), K(i)) IN
                           Res.cmp[i][j] = <<B(lt), B(~gt), B(~lt /\ ~gt), B(lt \/ gt), B(~lt), B(gt)>>,
                  "trade-offs compare wrongly")
        \cup Must("C20", \A i \in 1..Len(t) : Triple(Res.after[i], t[i], 1), "comparing modified a trade-off"))
    /\ UNCHANGED <<st, memo>>

(* the writes are replayed on a function of the positions *)
UtmDump(d, n, f) ==
    /\ d.size = n
    /\ d.elements = (n * (n + 1)) \div 2
    /\ d.at = [i \in 1..n |-> [k \in 1..(n - i + 1) |-> f[i][k]]]
    /\ Len(d.lin) = d.elements
    \* the linear index reads the same values, each as often
    /\ SortSeq(d.lin, <) = SortSeq(FlattenSeq(d.at), <)

TUtm ==
    /\ Is("utm")
    /\ LET n == Op.n
           f0 == [i \in 1..n |-> [k \in 1..(n - i + 1) |-> Op.init]]
           step(acc, w) ==     \* acc: <<function, next dump, all good>>
             IF w[1] = "d"
             THEN <<acc[1], acc[2] + 1, acc[3] /\ UtmDump(Res.dumps[acc[2]], n, acc[1])>>
             ELSE <<[acc[1] EXCEPT ![w[2] + 1][w[3] - w[2] + 1] = w[4]], acc[2], acc[3]>>
           end == FoldLeft(step, <<f0, 2, UtmDump(Res.dumps[1], n, f0)>>, Op.writes)
           last == Res.dumps[Len(Res.dumps)]
       IN  Report(E,
             Must("C21", end[3], "a position does not hold what was written there last")
        \cup \* the last dump is made after every position got a value of its own
             Must("C21", Op.distinct =>
                    {last.lin[x] : x \in 1..Len(last.lin)} = UNION {{end[1][i][k] : k \in 1..(n - i + 1)} : i \in 1..n},
                  "the linear index does not enumerate the positions once each"))
    /\ UNCHANGED <<st, memo>>

(* a big matrix after position (i,j) got the value i*n+j, in some order *)
TUtmfill ==
    /\ Is("utmfill")
    /\ LET n == Op.n
           count == (n * (n + 1)) \div 2
       IN  Report(E,
             Must("C21", /\ Res.size = n /\ Res.elements = count /\ Len(Res.at) = n
                         /\ \A i \in 1..n : /\ Len(Res.at[i]) = n - i + 1
                                            /\ \A k \in 1..(n - i + 1) : Res.at[i][k] = (i - 1) * n + i + k - 2,
                  "a position does not hold what was written there last")
        \cup Must("C21", /\ Len(Res.lin) = count
                         /\ \A x \in 1..count : /\ Res.lin[x] >= 0 /\ Res.lin[x] < n * n
                                                /\ Res.lin[x] \div n <= Res.lin[x] % n
                         /\ Cardinality({Res.lin[x] : x \in 1..count}) = count,
                  "the linear index does not enumerate the positions once each"))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------
(* Analyses at the same time.  A trace first has the calls of every analysis *)
(* alone, then those of all of them in the order in which they ended.  Every *)
(* analysis goes through its own calls in their order, and each call gives   *)
(* what it gave alone, whatever was interleaved with it (Par).               *)

TStep ==
    /\ Is("step")
    /\ LET run == <<"run", Op.th, Op.solo>>
           key == <<"alone", Op.th, Op.n>>
       IN  /\ Assert((IF Has(memo, run) THEN memo[run] ELSE 0) = Op.n, "the calls of an analysis are recorded out of order")
           /\ Report(E, IF Op.solo = 1 THEN {}
                        ELSE Must("C25", Has(memo, key) /\ memo[key] = Res.dg, "a call gave another result while other analyses were running"))
           /\ memo' = With(With(memo, run, Op.n + 1), key, IF Op.solo = 1 THEN Res.dg ELSE memo[key])
    /\ UNCHANGED st

(* all the analyses have ended; races: conflicting accesses to the same      *)
(* memory that nothing ordered                                               *)
TJoined ==
    /\ Is("joined")
    /\ Report(E, Must("C25", Res.races = 0, "two analyses use the same memory without any order")
                 \cup Must("C25", \A t \in 0..(Op.threads - 1) : memo[<<"run", t, 0>>] = memo[<<"run", t, 1>>], "an analysis did not end"))
    /\ UNCHANGED <<st, memo>>

-----------------------------------------------------------------------------

Init == l = 1 /\ st = InitState /\ memo = Empty /\ nbad = 0

Next == \/ TScenario \/ TStore \/ TFill \/ TSet \/ TGet \/ TMeta
        \/ TQual \/ TQualm \/ TCompute \/ TNormalize \/ TDumpq
        \/ TParter \/ TBest \/ TPart \/ TDumpb
        \/ TSweep \/ TLists \/ TGetp \/ TAuc
        \/ TAgg \/ TAggkeep \/ TDumpagg \/ TLoose \/ TDrop \/ TCopy \/ TEq \/ TRelate \/ TRelbest
        \/ TQarith \/ TQnear \/ TTarith \/ TRegs \/ TTorder \/ TTake \/ TDumptake \/ TUtm \/ TUtmfill \/ TStep \/ TJoined
        \/ TDied

Spec == Init /\ [][Next]_vars

(* the state of the library is one the machine allows *)
Machine == TypeOK(st) /\ NoSharedQualities(st)

NoViolation == nbad = 0

(* the next state only depends on the position: nothing else is fingerprinted *)
Position == <<l, nbad>>

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
