------------------------------- MODULE Proofs -------------------------------
(* What TLC checks within bounds elsewhere, proved for all integers (tlapm). *)
EXTENDS Order, TLAPS, NaturalsInduction

K == Int \X Int \X Int
Q == Int \X Int

(* C20, C04-C06: one total order, with which sums are compatible *)
THEOREM Trichotomy == \A x, y \in K : /\ KeyLess(x, y) \/ KeyLess(y, x) \/ x = y
                                      /\ ~(KeyLess(x, y) /\ KeyLess(y, x)) /\ ~KeyLess(x, x)
  BY DEF KeyLess, K
THEOREM Transitive == \A x, y, z \in K : KeyLess(x, y) /\ KeyLess(y, z) => KeyLess(x, z)
  BY DEF KeyLess, K
THEOREM Compatible == \A x, y, z \in K : KeyLess(x, y) <=> KeyLess(KeyPlus(x, z), KeyPlus(y, z))
  BY DEF KeyLess, K, KeyPlus
THEOREM SumsOfBest == \A x, y, u, v \in K : ~KeyLess(x, u) /\ ~KeyLess(y, v) => ~KeyLess(KeyPlus(x, y), KeyPlus(u, v))
  BY DEF KeyLess, K, KeyPlus
THEOREM MaxIsGreatest == \A x, y \in K : KeyMax(x, y) \in {x, y} /\ ~KeyLess(KeyMax(x, y), x) /\ ~KeyLess(KeyMax(x, y), y)
  BY DEF KeyLess, K, KeyMax

(* the key of a sum is the sum of the keys: the optimum may be found part by part *)
THEOREM Additive == \A q, r \in Q, a, b \in Int : Key(<<q[1] + r[1], q[2] + r[2]>>, a, b) = KeyPlus(Key(q, a, b), Key(r, a, b))
<1> TAKE q, r \in Q, a, b \in Int
<1>1. a * (q[1] + r[1]) - b * (q[2] + r[2]) = (a * q[1] - b * q[2]) + (a * r[1] - b * r[2]) BY Z3 DEF Q
<1>2. q[1] \in Int /\ q[2] \in Int /\ r[1] \in Int /\ r[2] \in Int BY DEF Q
<1> QED BY <1>1, <1>2 DEF Key, KeyPlus

(* C04: worths V that no last part improves are not below the worth of any   *)
(* partition: c are its ends, S what its first parts are worth together      *)
THEOREM Bellman ==
    ASSUME NEW T \in Nat, NEW V \in [0..T -> K], NEW W \in [(0..T) \X (0..T) -> K],
           \A i, j \in 0..T : i < j => ~KeyLess(V[j], KeyPlus(V[i], W[<<i, j>>])),
           NEW m \in Nat, NEW c \in [0..m -> 0..T], NEW S \in [0..m -> K],
           S[0] = V[c[0]],
           \A k \in 0..m : k < m => c[k] < c[k + 1] /\ S[k + 1] = KeyPlus(S[k], W[<<c[k], c[k + 1]>>])
    PROVE  \A k \in 0..m : ~KeyLess(V[c[k]], S[k])
<1> DEFINE P(k) == k \in 0..m => ~KeyLess(V[c[k]], S[k])
<1>1. P(0)
  <2> SUFFICES ASSUME 0 \in 0..m PROVE ~KeyLess(V[c[0]], S[0]) OBVIOUS
  <2>1. c[0] \in 0..T OBVIOUS
  <2>2. V[c[0]] \in K BY <2>1
  <2> QED BY <2>2, Trichotomy
<1>2. \A k \in Nat : P(k) => P(k + 1)
  <2> SUFFICES ASSUME NEW k \in Nat, P(k), k + 1 \in 0..m PROVE ~KeyLess(V[c[k + 1]], S[k + 1]) OBVIOUS
  <2>1. k \in 0..m /\ k < m OBVIOUS
  <2>2. c[k] \in 0..T /\ c[k + 1] \in 0..T /\ c[k] < c[k + 1] BY <2>1
  <2>3. S[k + 1] = KeyPlus(S[k], W[<<c[k], c[k + 1]>>]) BY <2>1
  <2>4. ~KeyLess(V[c[k]], S[k]) BY <2>1
  <2> DEFINE u == V[c[k]]
             v == V[c[k + 1]]
             w == W[<<c[k], c[k + 1]>>]
             s == S[k]
  <2>5. u \in K /\ v \in K /\ w \in K /\ s \in K BY <2>1, <2>2
  <2>6. ~KeyLess(v, KeyPlus(u, w)) BY <2>2
  <2>7. ~KeyLess(u, s) BY <2>4
  <2>8. S[k + 1] = KeyPlus(s, w) BY <2>3
  <2> HIDE DEF u, v, w, s
  <2>9. ~KeyLess(KeyPlus(u, w), KeyPlus(s, w)) BY <2>5, <2>7, Compatible
  <2>10. KeyPlus(u, w) \in K /\ KeyPlus(s, w) \in K BY <2>5 DEF KeyPlus, K
  <2>11. ~KeyLess(v, KeyPlus(s, w)) BY <2>5, <2>6, <2>9, <2>10 DEF KeyLess, K
  <2> QED BY <2>8, <2>11 DEF v
<1>3. \A k \in Nat : P(k)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

LEMMA Sign == \A x, y \in Int : x > 0 /\ x * y >= 0 => y >= 0
<1> TAKE x, y \in Int
<1> HAVE x > 0 /\ x * y >= 0
<1> SUFFICES ASSUME y < 0 PROVE FALSE OBVIOUS
<1>1. x * (0 - y - 1) >= 0 BY Z3
<1> QED BY <1>1, Z3
LEMMA NotNegative == \A x, y \in Int : x >= 0 /\ y >= 0 => x * y >= 0
  BY Z3

(* C12: what is not less at both ends of an interval is not less inside: a   *)
(* partition that is best at two parameters is best between them             *)
THEOREM Line == \A a, b, c, s, t \in Int : a <= b /\ b <= c /\ s * a + t >= 0 /\ s * c + t >= 0 => s * b + t >= 0
<1> TAKE a, b, c, s, t \in Int
<1> HAVE a <= b /\ b <= c /\ s * a + t >= 0 /\ s * c + t >= 0
<1>1. CASE s >= 0
  <2>1. s * (b - a) >= 0 BY <1>1, Z3
  <2> QED BY <2>1, Z3
<1>2. CASE s < 0
  <2>1. (-s) * (c - b) >= 0 BY <1>2, Z3
  <2> QED BY <2>1, Z3
<1> QED BY <1>1, <1>2

Worth(g, l, p, n) == p * g - (n - p) * l
THEOREM BestBetween ==
    \A g, l, h, m, a, b, c, n \in Int :
       a <= b /\ b <= c /\ Worth(g, l, a, n) >= Worth(h, m, a, n) /\ Worth(g, l, c, n) >= Worth(h, m, c, n)
       => Worth(g, l, b, n) >= Worth(h, m, b, n)
<1> TAKE g, l, h, m, a, b, c, n \in Int
<1> HAVE a <= b /\ b <= c /\ Worth(g, l, a, n) >= Worth(h, m, a, n) /\ Worth(g, l, c, n) >= Worth(h, m, c, n)
<1> DEFINE s == (g - h) + (l - m)
           t == n * (m - l)
<1>0. s \in Int /\ t \in Int BY Z3
<1>1. \A p \in Int : Worth(g, l, p, n) - Worth(h, m, p, n) = s * p + t BY Z3 DEF Worth
<1>1a. \A p \in Int : Worth(g, l, p, n) \in Int /\ Worth(h, m, p, n) \in Int BY Z3 DEF Worth
<1>2. s * a + t >= 0 /\ s * c + t >= 0
  <2>1. Worth(g, l, a, n) - Worth(h, m, a, n) = s * a + t BY <1>1
  <2>2. Worth(g, l, c, n) - Worth(h, m, c, n) = s * c + t BY <1>1
  <2>3. Worth(g, l, a, n) \in Int /\ Worth(h, m, a, n) \in Int /\ Worth(g, l, c, n) \in Int /\ Worth(h, m, c, n) \in Int BY <1>1a
  <2> HIDE DEF s, t
  <2> QED BY <2>1, <2>2, <2>3
<1>3. s * b + t >= 0
  <2> HIDE DEF s, t
  <2> QED BY <1>0, <1>2, Line
<1>4. Worth(g, l, b, n) - Worth(h, m, b, n) = s * b + t BY <1>1
<1>5. Worth(g, l, b, n) \in Int /\ Worth(h, m, b, n) \in Int BY <1>1a
<1> HIDE DEF s, t
<1> QED BY <1>3, <1>4, <1>5

(* C13: of two best partitions, that of the greater parameter has at least the gain and at least the loss *)
THEOREM Monotone ==
    \A g, l, h, m, p, q, n \in Int :
       0 <= p /\ p < q /\ q <= n /\ Worth(g, l, p, n) >= Worth(h, m, p, n) /\ Worth(h, m, q, n) >= Worth(g, l, q, n)
       => h >= g /\ m >= l
<1> TAKE g, l, h, m, p, q, n \in Int
<1> HAVE 0 <= p /\ p < q /\ q <= n /\ Worth(g, l, p, n) >= Worth(h, m, p, n) /\ Worth(h, m, q, n) >= Worth(g, l, q, n)
<1> DEFINE s == (h - g) + (m - l)
<1>0. s \in Int OBVIOUS
<1>1. p * s <= n * (m - l) BY Z3 DEF Worth
<1>2. q * s >= n * (m - l) BY Z3 DEF Worth
<1>3. (q - p) * s >= 0
  <2> HIDE DEF s
  <2> QED BY <1>0, <1>1, <1>2, Z3
<1>4. s >= 0
  <2>1. q - p \in Int /\ q - p > 0 OBVIOUS
  <2> HIDE DEF s
  <2> QED BY <1>0, <1>3, <2>1, Sign
<1>5. n * (m - l) >= 0
  <2>1. p * s >= 0
    <3> HIDE DEF s
    <3> QED BY <1>0, <1>4, Z3
  <2> HIDE DEF s
  <2> QED BY <2>1, <1>0, <1>1, Z3
<1>5a. n > 0 /\ m - l \in Int OBVIOUS
<1>6. m - l >= 0 BY <1>5, <1>5a, Sign
<1>7. n * (h - g) = n * s - n * (m - l) BY Z3
<1>8. n * (h - g) >= (n - q) * s
  <2> HIDE DEF s
  <2> QED BY <1>0, <1>2, <1>7, Z3
<1>9. (n - q) * s >= 0
  <2> HIDE DEF s
  <2> QED BY <1>0, <1>4, Z3
<1>10. n * (h - g) >= 0
  <2> HIDE DEF s
  <2> QED BY <1>0, <1>8, <1>9, Z3
<1>10a. h - g \in Int OBVIOUS
<1>11. h - g >= 0 BY <1>10, <1>10a, <1>5a, Sign
<1> QED BY <1>6, <1>11

(* C21: twice the index of a triangular matrix, diagonal by diagonal; two positions have two indices *)
S2(n, d) == 2 * d * n - d * (d - 1)
Index2(n, i, j) == S2(n, j - i) + 2 * i
THEOREM DiagonalsApart == \A n, d, e \in Int : 0 <= d /\ 1 <= e /\ d + e < n => S2(n, d + e) - S2(n, d) >= 2 * (n - d)
<1> TAKE n, d, e \in Int
<1> HAVE 0 <= d /\ 1 <= e /\ d + e < n
<1>1. S2(n, d + e) - S2(n, d) - 2 * (n - d) = (e - 1) * (2 * (n - d) - e) BY Z3 DEF S2
<1>2. (e - 1) * (2 * (n - d) - e) >= 0 BY Z3
<1>3. S2(n, d + e) \in Int /\ S2(n, d) \in Int BY Z3 DEF S2
<1> QED BY <1>1, <1>2, <1>3
LEMMA Gap == \A x, y, n, i, j, k \in Int : j < n /\ 0 <= k /\ y - x >= 2 * (n - (j - i)) => x + 2 * i < y + 2 * k
<1> TAKE x, y, n, i, j, k \in Int
<1> HAVE j < n /\ 0 <= k /\ y - x >= 2 * (n - (j - i))
<1>1. y + 2 * k - (x + 2 * i) >= 2 * (n - j) + 2 * k BY Z3
<1>2. 2 * (n - j) + 2 * k > 0 BY Z3
<1> QED BY <1>1, <1>2, Z3
THEOREM Later ==
    \A n, i, j, k, m \in Int :
       0 <= i /\ i <= j /\ j < n /\ 0 <= k /\ k <= m /\ m < n /\ j - i < m - k => Index2(n, i, j) < Index2(n, k, m)
<1> TAKE n, i, j, k, m \in Int
<1> HAVE 0 <= i /\ i <= j /\ j < n /\ 0 <= k /\ k <= m /\ m < n /\ j - i < m - k
<1> DEFINE d == j - i
           e == (m - k) - (j - i)
<1>1. d \in Int /\ e \in Int /\ 0 <= d /\ 1 <= e /\ d + e < n /\ d + e = m - k OBVIOUS
<1>2. S2(n, m - k) - S2(n, j - i) >= 2 * (n - (j - i))
  <2>1. S2(n, d + e) - S2(n, d) >= 2 * (n - d)
    <3> HIDE DEF d, e
    <3> QED BY <1>1, DiagonalsApart
  <2> QED BY <2>1, <1>1
<1>3. S2(n, m - k) \in Int /\ S2(n, j - i) \in Int BY Z3 DEF S2
<1>4. Index2(n, i, j) = S2(n, j - i) + 2 * i /\ Index2(n, k, m) = S2(n, m - k) + 2 * k BY DEF Index2
<1> HIDE DEF d, e
<1>5. \A x, y \in Int : y - x >= 2 * (n - (j - i)) => x + 2 * i < y + 2 * k BY Gap
<1> QED BY <1>2, <1>3, <1>4, <1>5
THEOREM TwoPositions ==
    \A n, i, j, k, m \in Int :
       0 <= i /\ i <= j /\ j < n /\ 0 <= k /\ k <= m /\ m < n /\ Index2(n, i, j) = Index2(n, k, m) => i = k /\ j = m
<1> TAKE n, i, j, k, m \in Int
<1> HAVE 0 <= i /\ i <= j /\ j < n /\ 0 <= k /\ k <= m /\ m < n /\ Index2(n, i, j) = Index2(n, k, m)
<1>0. Index2(n, i, j) \in Int /\ Index2(n, k, m) \in Int BY Z3 DEF Index2, S2
<1>1. ~(j - i < m - k) BY <1>0, Later
<1>2. ~(m - k < j - i) BY <1>0, Later
<1>3. j - i = m - k BY <1>1, <1>2
<1>4. S2(n, m - k) \in Int BY Z3 DEF S2
<1> QED BY <1>3, <1>4 DEF Index2
\* the first is 0, the last n(n+1)/2 - 1
THEOREM FirstIndex == \A n \in Int : Index2(n, 0, 0) = 0
  BY Z3 DEF Index2, S2
THEOREM LastIndex == \A n \in Int : Index2(n, 0, n - 1) = n * (n + 1) - 2
  BY Z3 DEF Index2, S2

(* C17: two coordinates have two flat indices *)
THEOREM TwoCoordinates ==
    \A J, a, b, c, d \in Int : 0 <= b /\ b < J /\ 0 <= d /\ d < J /\ a * J + b = c * J + d => a = c /\ b = d
<1> TAKE J, a, b, c, d \in Int
<1> HAVE 0 <= b /\ b < J /\ 0 <= d /\ d < J /\ a * J + b = c * J + d
<1>1. (a - c) * J = d - b /\ (c - a) * J = b - d BY Z3
<1>2. ~(a > c)
  <2> SUFFICES ASSUME a > c PROVE FALSE OBVIOUS
  <2>1. (a - c - 1) * J >= 0
    <3>1. a - c - 1 \in Int /\ a - c - 1 >= 0 /\ J >= 0 OBVIOUS
    <3> QED BY <3>1, NotNegative
  <2>2. (a - c - 1) * J = (a - c) * J - J BY Z3
  <2>3. (a - c) * J \in Int BY Z3
  <2> QED BY <1>1, <2>1, <2>2, <2>3
<1>3. ~(a < c)
  <2> SUFFICES ASSUME a < c PROVE FALSE OBVIOUS
  <2>1. (c - a - 1) * J >= 0
    <3>1. c - a - 1 \in Int /\ c - a - 1 >= 0 /\ J >= 0 OBVIOUS
    <3> QED BY <3>1, NotNegative
  <2>2. (c - a - 1) * J = (c - a) * J - J BY Z3
  <2>3. (c - a) * J \in Int BY Z3
  <2> QED BY <1>1, <2>1, <2>2, <2>3
<1>4. a = c BY <1>2, <1>3
<1>5. a * J \in Int /\ c * J \in Int BY Z3
<1> QED BY <1>4, <1>5
=============================================================================
