------------------------------ MODULE FixedSem ------------------------------
(***************************************************************************)
(* The values of the frame distances, as real numbers, in fixed point.     *)
(* TLC has neither reals nor floats, so a real number r is represented by  *)
(* an integer within a stated distance of r * U, all the intermediate      *)
(* products being less than 2^31.  Frames are rows of natural numbers,     *)
(* which stand for the distribution obtained by dividing by their sum.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

U == 10000000                                  \* unit of logarithms: 1e-7
Abs2(a) == IF a < 0 THEN -a ELSE a
SumI(f(_), n) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
RowSum(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)

(* ln n - ln (n-1) = 2 atanh(1/(2n-1)), with 10 U to limit the rounding *)
Step10(n) == LET z == 2 * n - 1
                 t == (20 * U) \div z
             IN t + t \div (3 * z * z)
                  + (IF n < 16 THEN (t \div (z * z)) \div (5 * z * z)
                               + ((t \div (z * z)) \div (z * z)) \div (7 * z * z)
                               + (((t \div (z * z)) \div (z * z)) \div (z * z)) \div (9 * z * z)
                               + ((((t \div (z * z)) \div (z * z)) \div (z * z)) \div (z * z)) \div (11 * z * z)
                               + (((((t \div (z * z)) \div (z * z)) \div (z * z)) \div (z * z)) \div (z * z)) \div (13 * z * z)
                     ELSE 0)
MaxLn == 1300
(* Ln[n]: ln(n) * U, within MaxLn / 3 units *)
Ln10 == FoldLeft(LAMBDA acc, n : Append(acc, acc[n - 1] + Step10(n)), <<0>>, [i \in 1..MaxLn - 1 |-> i + 1])
Ln == [n \in 1..MaxLn |-> Ln10[n] \div 10]
LnZero(eps) == -(eps * Ln[2])                  \* ln of the epsilon 2^-eps which replaces 0

(* S * KL(x || y): sum of x_i (ln x_i/S - ln y_i/T), with 0 ln 0 = 0 *)
KlS(x, y, eps) ==
  LET S == RowSum(x)
      R == RowSum(y)
      lp(a, s) == IF a = 0 THEN LnZero(eps) ELSE Ln[a] - Ln[s]
  IN SumI(LAMBDA i : IF x[i] = 0 THEN 0 ELSE x[i] * ((lp(x[i], S) - lp(y[i], R)) \div 100), Len(x)) \* units of 100/U
KlUnit == U \div 100                           \* 1e-5
Kl(x, y, eps) == KlS(x, y, eps) \div RowSum(x)
SymKl(x, y, eps) == (Kl(x, y, eps) + Kl(y, x, eps)) \div 2

(* Jensen-Shannon: the middle is (x_i R + y_i S) / (2 S R) *)
Js(x, y) ==
  LET S == RowSum(x)
      R == RowSum(y)
      lm(i) == Ln[x[i] * R + y[i] * S] - Ln[2] - Ln[S] - Ln[R]
      part(z, s) == SumI(LAMBDA i : IF z[i] = 0 THEN 0 ELSE z[i] * ((Ln[z[i]] - Ln[s] - lm(i)) \div 100), Len(z)) \div s
  IN (part(x, S) + part(y, R)) \div 2

(* integer square root, by bisection *)
RECURSIVE SqrtB(_, _, _)
SqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET mid == (lo + hi) \div 2 IN
                         IF mid * mid <= n THEN SqrtB(n, mid, hi) ELSE SqrtB(n, lo, mid)
Sqrt1000(n) == IF n = 0 THEN 0 ELSE SqrtB(n * 1000000, 0, 46340)    \* 1000 sqrt(n), n < 2147
(* square of the Hellinger distance: 1 - sum sqrt(x_i y_i) / sqrt(S R), in 1e-5 *)
Hel2(x, y) ==
  LET c == SumI(LAMBDA i : Sqrt1000(x[i] * y[i]), Len(x))
      t == Sqrt1000(RowSum(x) * RowSum(y))
  IN 100000 - 10 * ((c * 10000) \div t)

(* cosine: v = angle / pi.  With v in 1e-5, cos(pi v) by its series, 1e-4 *)
Dot(x, y) == SumI(LAMBDA i : x[i] * y[i], Len(x))
Cos4(v) ==                                     \* cos(pi v / 10^5) * 10^4
  LET r == IF v > 50000 THEN 100000 - v ELSE v                     \* 0..1/2
      a == (r * 31416) \div 100000                                 \* radians, 1e-4
      q == (a * a) \div 10000                                      \* a^2, 1e-4
      c == 10000 - q \div 2 + ((q * q) \div 10000) \div 24
             - ((((q * q) \div 10000) * q) \div 10000) \div 720
             + (((((((q * q) \div 10000) * q) \div 100000) * q) \div 1000)) \div 40320
  IN IF v > 50000 THEN -c ELSE c
(* dot and cos have the same sign and dot^2 = cos^2 |x|^2 |y|^2 *)
CosDiff(x, y, v) ==
  LET t == (Sqrt1000(Dot(x, x)) * Sqrt1000(Dot(y, y))) \div 1000 IN
  Abs2(Cos4(v) - 10 * ((Dot(x, y) * 1000000) \div t))          \* 1e-4
=============================================================================
