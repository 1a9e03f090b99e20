----------------------------- MODULE BarrierModel -----------------------------
(* "rows": all constraints of Len1 rows over small integers: the interval is the set of admissible weights, and the  *)
(* smallest of the upper ends is the largest weight that is admissible for several constraints at once.              *)
(* "spectra": all spectra of three values: the weights within a bound are contiguous, so that the larger of the two  *)
(* solutions of bound = D is within it, and there is one whenever any weight is.                                    *)
EXTENDS Barrier, TLC, Json
CONSTANTS Mode, Wide
VARIABLES rows, B, lam, D
vars == <<rows, B, lam, D>>
V == IF Wide THEN -4..4 ELSE -3..3
Dl == IF Wide THEN -3..3 ELSE -2..2
L == IF Wide THEN {1, 4, 7, 10, 13, 16, 20, 25, 30} ELSE {1, 5, 10, 14, 30}
Init == \/ Mode = "rows" /\ B \in {1, 2} /\ rows \in [1..2 -> V \X Dl] /\ lam = <<>> /\ D = 0
        \/ Mode = "spectra" /\ B = 0 /\ rows = <<>> /\ D \in {5, 10, 20, 40} /\ lam \in [1..3 -> L]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Grid == {<<p, 6>> : p \in -60..60}
IsInterval == Mode = "rows" =>
  \A k \in Grid : AdmissibleWeight(rows, B, k) <=>
     /\ ~Stuck(rows, B)
     /\ Bounded(rows) => Leq(k, LeastUpper(rows, B)) /\ Leq(GreatestLower(rows, B), k)
EmptyIsEmpty == Mode = "rows" =>
  IF EmptyInterval(rows, B) THEN \A k \in Grid : ~AdmissibleWeight(rows, B, k)
  ELSE Bounded(rows) => AdmissibleWeight(rows, B, LeastUpper(rows, B)) /\ AdmissibleWeight(rows, B, GreatestLower(rows, B))
(* each row as a constraint of its own: together they admit what the rows admit *)
One(i) == <<rows[i]>>
SmallestUpperIsLargestCommon == (Mode = "rows" /\ \A i \in {1, 2} : Bounded(One(i)) /\ ~EmptyInterval(One(i), B)) =>
  LET ups == {LeastUpper(One(i), B) : i \in {1, 2}}  k == CHOOSE x \in ups : \A y \in ups : Leq(x, y)
      los == {GreatestLower(One(i), B) : i \in {1, 2}}  m == CHOOSE x \in los : \A y \in los : Leq(y, x)
  IN IF Leq(m, k) THEN AdmissibleWeight(rows, B, k) /\ \A x \in Grid : Less(k, x) => ~AdmissibleWeight(rows, B, x)
     ELSE EmptyInterval(rows, B)
(* ---- *)
S == 1000
Ks == {20 * i : i \in 1..150}
In(k) == Within(lam, k, D, S, 0)
Contiguous == Mode = "spectra" => \A a, b \in {k \in Ks : In(k)} : \A k \in Ks : (a < k /\ k < b) => Within(lam, k, D, S, 5)
Emit == Mode = "rows" => PrintT("@@" \o ToJson([rows |-> rows, bound |-> B]))
===============================================================================
