-------------------------------- MODULE OAlgo -------------------------------
(* The best ordered partition as the library computes it: suffixes of the    *)
(* sequence from the last instant, each cut where it is worth most (C04),    *)
(* then the cuts followed from the first instant (C01).                      *)
EXTENDS Problems, Agg

CONSTANTS MaxT, Top, Samples, Bits,
          Variant  \* "none", or a wrong design: then the model must fail


VARIABLES M, a, i, c, val, cut, parts, pc
vars == <<M, a, i, c, val, cut, parts, pc>>

T == Len(M[1])
One == 2^Bits
K == KeysOf(M, a, One - a)
W(x, y) == K[1][x + 1][y - x + 1]

Init ==
    /\ M \in UNION {SomeMatrices(<<-1>>, n, Pairs(Top), TRUE, Samples) : n \in 1..MaxT}
    /\ a \in 0..One
    /\ i = T - 1 /\ c = T - 1
    /\ val = [x \in 0..(T-1) |-> IF x = T - 1 THEN W(x, x) ELSE <<0, 0, 0>>]
    /\ cut = [x \in 0..(T-1) |-> T - 1]
    /\ parts = <<>> /\ pc = "cut"

(* the interval i..c followed by the best of the rest *)
Try ==
    /\ pc = "cut" /\ c < T - 1
    /\ LET x == KeyPlus(W(i, c), val[c + 1]) IN
       IF IF Variant = "value only" THEN val[i][1] < x[1]      \* ties are not broken by gain and loss
          ELSE IF Variant = "no last cut" THEN KeyLess(val[i], x) /\ c < T - 2
          ELSE KeyLess(val[i], x)
       THEN val' = [val EXCEPT ![i] = x] /\ cut' = [cut EXCEPT ![i] = c]
       ELSE UNCHANGED <<val, cut>>
    /\ c' = c + 1
    /\ UNCHANGED <<M, a, i, parts, pc>>

(* the suffix before *)
Back ==
    /\ pc = "cut" /\ c = T - 1 /\ i > 0
    /\ i' = i - 1 /\ c' = i - 1
    /\ val' = [val EXCEPT ![i - 1] = W(i - 1, T - 1)]
    /\ UNCHANGED <<M, a, cut, parts, pc>>

Start ==
    /\ pc = "cut" /\ c = T - 1 /\ i = 0
    /\ pc' = "follow"
    /\ UNCHANGED <<M, a, i, c, val, cut, parts>>

Follow ==
    /\ pc = "follow" /\ i < T
    /\ parts' = Append(parts, <<0, i, cut[i]>>)
    /\ i' = cut[i] + 1
    /\ UNCHANGED <<M, a, c, val, cut, pc>>

End == /\ pc = "follow" /\ i = T /\ pc' = "done" /\ UNCHANGED <<M, a, i, c, val, cut, parts>>

Next == Try \/ Back \/ Start \/ Follow \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the suffix from x as a problem of its own
Suffix(x) == <<[y \in 1..(T - x) |-> M[1][y + x]]>>
SuffixBest(x) == BestKey(KeysOf(Suffix(x), a, One - a), <<<<>>>>, T - x, 0)

(* the suffixes that are finished have their best value *)
SuffixesBest == pc = "cut" => \A x \in 0..(T-1) : x > i => val[x] = SuffixBest(x)
(* cuts stay in the range and never go backwards *)
Cuts == \A x \in 0..(T-1) : x <= cut[x] /\ cut[x] < T
Done == pc = "done"
Tiles == Done =>
    /\ parts[1][2] = 0 /\ parts[Len(parts)][3] = T - 1
    /\ \A n \in 1..(Len(parts) - 1) : parts[n + 1][2] = parts[n][3] + 1
    /\ Covers(<<-1>>, <<<<>>>>, T, parts)
Optimal == Done => Worth(K, parts) = BestOfAll(K, <<-1>>, T)
ValueIsWorth == Done => val[0] = Worth(K, parts)
Terminates == <>Done
=============================================================================
