-------------------------------- MODULE Barrier --------------------------------
(* Admissible barrier weights. A row of a linear constraint moves from d0 to d0 + delta as the weight k goes from 0   *)
(* to 1; the weight is admissible when all rows stay within the bound B. The set of admissible weights is an interval *)
(* (possibly empty or unbounded). Weights and ends of intervals are fractions <<num, den>> with den > 0.              *)
EXTENDS Integers, Sequences, FiniteSets
AbsB(x) == IF x < 0 THEN -x ELSE x
Frac(n, d) == IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
RowOk(r, B, k) == AbsB(r[1] * k[2] + k[1] * r[2]) <= B * k[2]
AdmissibleWeight(rows, B, k) == \A i \in DOMAIN rows : RowOk(rows[i], B, k)
Moving(rows) == {rows[i] : i \in {j \in DOMAIN rows : rows[j][2] # 0}}
Upper(r, B) == Frac(IF r[2] > 0 THEN B - r[1] ELSE -B - r[1], r[2])
Lower(r, B) == Frac(IF r[2] > 0 THEN -B - r[1] ELSE B - r[1], r[2])
LeastUpper(rows, B) == LET S == {Upper(r, B) : r \in Moving(rows)} IN CHOOSE x \in S : \A y \in S : Leq(x, y)
GreatestLower(rows, B) == LET S == {Lower(r, B) : r \in Moving(rows)} IN CHOOSE x \in S : \A y \in S : Leq(y, x)
(* what the line search of a constraint must report *)
Bounded(rows) == Moving(rows) # {}
Stuck(rows, B) == \E i \in DOMAIN rows : rows[i][2] = 0 /\ AbsB(rows[i][1]) > B
EmptyInterval(rows, B) == Stuck(rows, B) \/ (Bounded(rows) /\ Less(LeastUpper(rows, B), GreatestLower(rows, B)))
PointInterval(rows, B) == ~Stuck(rows, B) /\ Bounded(rows) /\ ~Less(LeastUpper(rows, B), GreatestLower(rows, B)) /\ Leq(LeastUpper(rows, B), GreatestLower(rows, B))

(* ---- divergence: a spectrum lam (tenths), a weight k; the bound is |k lam - 1|^2 / (1 - max |k lam - 1|), finite    *)
(* when every |k lam - 1| < 1. Everything scaled by S; k given as an integer times 1/S.                               *)
RECURSIVE SumOf(_, _)
SumOf(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOf(f, n - 1)
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
Dist(lam, k, S) == [i \in DOMAIN lam |-> AbsB((k * lam[i]) \div 10 - S)]
NormInf(lam, k, S) == LET d == Dist(lam, k, S) IN MaxIn({d[i] : i \in DOMAIN d})
NormSq(lam, k, S) == LET d == Dist(lam, k, S) IN SumOf([i \in DOMAIN d |-> (d[i] * d[i]) \div S], Len(lam))
(* the bound at k is at most D/10, with a margin in units of 1/S *)
Within(lam, k, D, S, margin) == /\ NormInf(lam, k, S) < S
                                /\ NormSq(lam, k, S) <= (D * (S - NormInf(lam, k, S))) \div 10 + margin
===============================================================================
