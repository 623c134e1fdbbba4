-------------------------------- MODULE Alg ---------------------------------
(* Qualities and trade-offs as objects (C20): registers of values that are   *)
(* combined in place or into new objects, again and again.  Every call       *)
(* changes its target and nothing else, whatever was combined before: no     *)
(* object keeps a part of another one.                                       *)
(* A trade-off is <<2*value, gain, loss>> (p in halves), a quality           *)
(* <<gain, loss>>.                                                           *)
EXTENDS Integers, Sequences

Plus(x, y)  == [n \in DOMAIN x |-> x[n] + y[n]]
Minus(x, y) == [n \in DOMAIN x |-> x[n] - y[n]]
\* (the value of the product of trade-offs is twice v*w, v and w in halves)
TTimes(x, y) == <<(x[1] * y[1]) \div 2, x[2] * y[2], x[3] * y[3]>>
QTimes(x, y) == <<x[1] * y[1], x[2] * y[2]>>
FromP(q, p) == <<p * q[1] - (2 - p) * q[2], q[1], q[2]>>

\* the targets of a call: <<name, target, a, b>>
New(s, op) ==
    LET d == op[2] a == op[3] b == op[4] n == op[1] IN
    CASE n = "tadd"   -> Plus(s.t[d], s.t[a])
      [] n = "tsub"   -> Minus(s.t[d], s.t[a])
      [] n = "tmul"   -> TTimes(s.t[d], s.t[a])
      [] n = "tplus"  -> Plus(s.t[a], s.t[b])
      [] n = "tminus" -> Minus(s.t[a], s.t[b])
      [] n = "ttimes" -> TTimes(s.t[a], s.t[b])
      [] n \in {"tset", "tnew"} -> FromP(s.q[a], b)
      [] n = "tpic"   -> FromP(<<s.t[d][2], s.t[d][3]>>, b)
      [] n = "tval"   -> <<2 * b, s.q[a][1], s.q[a][2]>>
      [] n = "tplain" -> <<0, s.q[a][1], s.q[a][2]>>
      [] n = "tnull"  -> <<0, 0, 0>>
      [] n = "qadd"   -> Plus(s.q[d], s.q[a])
      [] n = "qsub"   -> Minus(s.q[d], s.q[a])
      [] n = "qmul"   -> QTimes(s.q[d], s.q[a])
      [] n = "qplus"  -> Plus(s.q[a], s.q[b])
      [] n = "qminus" -> Minus(s.q[a], s.q[b])
      [] n = "qtimes" -> QTimes(s.q[a], s.q[b])
      [] n = "qacc"   -> Plus(s.q[d], <<a, b>>)
      [] n = "qput"   -> <<a, b>>
OnT(op) == op[1] \in {"tadd", "tsub", "tmul", "tplus", "tminus", "ttimes", "tset", "tnew", "tpic", "tval", "tplain", "tnull"}
Apply(s, op) == IF OnT(op) THEN [s EXCEPT !.t[op[2]] = New(s, op)] ELSE [s EXCEPT !.q[op[2]] = New(s, op)]

\* halves stay halves, and numbers small
Can(s, op, top) ==
    /\ op[1] = "tmul" => (s.t[op[2]][1] * s.t[op[3]][1]) % 2 = 0
    /\ op[1] = "ttimes" => (s.t[op[3]][1] * s.t[op[4]][1]) % 2 = 0
    /\ \A n \in DOMAIN New(s, op) : New(s, op)[n] \in (-top)..top
=============================================================================
