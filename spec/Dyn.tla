-------------------------------- MODULE Dyn --------------------------------
(* The optimum over all partitions, for any way to add and compare what the  *)
(* blocks are worth.  K[h+1][i+1][j-i+1] is the worth of block <<h, i, j>>.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Sum2(_, _), Best2(_, _), Null

Worth(K, parts) == FoldLeft(LAMBDA acc, b : Sum2(acc, K[b[1] + 1][b[2] + 1][b[3] - b[2] + 1]), Null, parts)

(* by recursion on the hierarchy and the instants.  Every partition into     *)
(* blocks either is one block, or has no block of the root of its region and *)
(* is a partition of each child's region, or has a block of that root and    *)
(* can be cut in time beside it.                                              *)
(* K is the matrix of keys.                                                  *)

(* the best of the nodes of a region, segment by segment: row i holds the    *)
(* intervals i..j, j = i..T-1                                                *)
Rows(base, T) ==
    \* base(i, j); result[i+1][j-i+1]
    LET Row(i, later) ==    \* later[k] is row i+k
            FoldLeft(LAMBDA row, j :
                        Append(row,
                          FoldLeft(LAMBDA best, c :
                                     Best2(best, Sum2(row[c - i + 1], later[c - i + 1][j - c])),
                                   base[i + 1][j - i + 1],
                                   [n \in 1..(j - i) |-> i + n - 1])),
                     <<>>, [n \in 1..(T - i) |-> i + n - 1])
    IN  FoldLeft(LAMBDA later, n : <<Row(T - n, later)>> \o later,
                 <<>>, [n \in 1..T |-> n])

RECURSIVE BestRows(_, _, _, _)
RECURSIVE BaseRows(_, _, _, _)
BaseRows(K, kids, T, h) ==
    IF kids[h + 1] = <<>> THEN K[h + 1]
    ELSE LET sum == FoldLeft(LAMBDA acc, c :
                               LET r == BestRows(K, kids, T, c) IN
                               IF acc = <<>> THEN r
                               ELSE [i \in 1..T |-> [d \in 1..(T - i + 1) |-> Sum2(acc[i][d], r[i][d])]],
                             <<>>, kids[h + 1])
         IN  TLCEval([i \in 1..T |-> [d \in 1..(T - i + 1) |-> Best2(K[h + 1][i][d], sum[i][d])]])
BestRows(K, kids, T, h) == TLCEval(Rows(BaseRows(K, kids, T, h), T))

(* only the whole sequence is needed at the root: best[j+1] of the first j *)
Best(K, kids, T, root) ==
    LET base == BaseRows(K, kids, T, root)
        best == FoldLeft(LAMBDA acc, j :
                           Append(acc,
                             FoldLeft(LAMBDA x, c : Best2(x, Sum2(acc[c + 1], base[c + 1][j - c])),
                                      base[1][j], [n \in 1..(j - 1) |-> n])),
                         <<Null>>, [n \in 1..T |-> n])
    IN  best[T + 1]
=============================================================================
