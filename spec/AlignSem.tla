------------------------------ MODULE AlignSem ------------------------------
(***************************************************************************)
(* Meaning of the distances between sequences and between frames.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

INF == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))

(* ---- dynamic time warping: d[i][j], n by m, integers ---- *)
(* all the monotonic alignments of (1,1)..(n,m), as sequences of cells *)
RECURSIVE PathsTo(_, _)
PathsTo(i, j) ==
  IF i = 1 /\ j = 1 THEN {<< <<1, 1>> >>}
  ELSE {Append(p, <<i, j>>) : p \in
         (IF i > 1 THEN PathsTo(i - 1, j) ELSE {})
         \cup (IF j > 1 THEN PathsTo(i, j - 1) ELSE {})
         \cup (IF i > 1 /\ j > 1 THEN PathsTo(i - 1, j - 1) ELSE {})}
RECURSIVE PathCost(_, _, _)
PathCost(d, p, k) == IF k = 0 THEN 0 ELSE d[p[k][1]][p[k][2]] + PathCost(d, p, k - 1)
DtwMin(d, n, m) == Min({PathCost(d, p, Len(p)) : p \in PathsTo(n, m)})
DtwLens(d, n, m) == {Len(p) : p \in {q \in PathsTo(n, m) : PathCost(d, q, Len(q)) = DtwMin(d, n, m)}}

(* the same by dynamic programming, with the lengths of the optimal paths:
   a row is a sequence of [c, ls] *)
Best(cells, v) == LET c == Min({x.c : x \in cells})
                  IN [c |-> c + v, ls |-> {k + 1 : k \in UNION {x.ls : x \in {y \in cells : y.c = c}}}]
FirstRow(r) == FoldLeft(LAMBDA acc, v : Append(acc,
                 IF acc = <<>> THEN [c |-> v, ls |-> {1}]
                 ELSE [c |-> acc[Len(acc)].c + v, ls |-> {k + 1 : k \in acc[Len(acc)].ls}]), <<>>, r)
NextRow(prev, r) == FoldLeft(LAMBDA acc, v :
                 LET j == Len(acc) + 1 IN
                 Append(acc, IF j = 1 THEN Best({prev[1]}, v)
                             ELSE Best({prev[j], prev[j - 1], acc[j - 1]}, v)), <<>>, r)
DtwDP(d) == LET last == FoldLeft(LAMBDA prev, r : IF prev = <<>> THEN FirstRow(r) ELSE NextRow(prev, r), <<>>, d)
            IN last[Len(last)]

(* ---- edit distance of two sequences ---- *)
RECURSIVE Edit(_, _, _, _)
Edit(x, y, i, j) == IF i = 0 THEN j ELSE IF j = 0 THEN i
  ELSE Min3(Edit(x, y, i - 1, j) + 1, Edit(x, y, i, j - 1) + 1,
            Edit(x, y, i - 1, j - 1) + (IF x[i] = y[j] THEN 0 ELSE 1))
EditRow(prev, a, y) == FoldLeft(LAMBDA acc, b :
      LET j == Len(acc) IN
      Append(acc, Min3(prev[j + 1] + 1, acc[j] + 1, prev[j] + (IF a = b THEN 0 ELSE 1))),
      <<prev[1] + 1>>, y)
EditDP(x, y) == LET last == FoldLeft(LAMBDA prev, a : EditRow(prev, a, y),
                                     [j \in 1..(Len(y) + 1) |-> j - 1], x)
                IN last[Len(last)]

(* ---- uniform time warping: frame j (from 0) of the n2 frames of the longer
   sequence faces the position (2j+1) n1 / (2 n2) of the n1 frames of the
   shorter one; at a border it faces both neighbours, by halves ---- *)
UtwAt(j, n1, n2) == LET a == n1 * (2 * j + 1)
                        q == a \div (2 * n2)
                    IN IF a % (2 * n2) = 0 THEN {<<q - 1, 1>>, <<q, 1>>} ELSE {<<q, 2>>}
(* twice the distance; D[i][j] between frame i of the shorter and j of the longer *)
Utw2(D, n1, n2) == FoldSet(LAMBDA j, acc : acc + FoldSet(LAMBDA w, a : a + w[2] * D[w[1] + 1][j + 1], 0, UtwAt(j, n1, n2)),
                           0, 0..(n2 - 1))

(* ---- frames ---- *)
RECURSIVE DotTo(_, _, _)
DotTo(x, y, k) == IF k = 0 THEN 0 ELSE x[k] * y[k] + DotTo(x, y, k - 1)
Dot(x, y) == DotTo(x, y, Len(x))
Null(x) == \A k \in 1..Len(x) : x[k] = 0
(* angle in units of pi / 12, when it is one of the remarkable ones; else -1 *)
Angle12(x, y) ==
  IF Null(x) /\ Null(y) THEN 0 ELSE IF Null(x) \/ Null(y) THEN 12 ELSE
  LET c == Dot(x, y)
      q == 4 * c * c
      n == Dot(x, x) * Dot(y, y)
      a == IF q = 0 THEN 6 ELSE IF q = n THEN 4 ELSE IF q = 2 * n THEN 3
           ELSE IF q = 3 * n THEN 2 ELSE IF q = 4 * n THEN 0 ELSE -1
  IN IF a = -1 THEN -1 ELSE IF c < 0 THEN 12 - a ELSE a
(* the cosine of (x, y) is greater than that of (u, v); no null frame *)
CosGreater(x, y, u, v) ==
  LET a == Dot(x, y)
      b == Dot(u, v)
      p == a * a * Dot(u, u) * Dot(v, v)
      q == b * b * Dot(x, x) * Dot(y, y)
  IN CASE a >= 0 /\ b < 0 -> TRUE
       [] a < 0 /\ b >= 0 -> FALSE
       [] a >= 0 -> p > q
       [] OTHER -> p < q
=============================================================================
