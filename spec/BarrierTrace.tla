----------------------------- MODULE BarrierTrace -----------------------------
(* Line searches of single constraints ("ls"), inverses of the divergence bound ("div"), the weight chosen by a solve  *)
(* with one iteration ("first"), and weights chosen from scripted spectra ("pick"), judged by Barrier.                  *)
EXTENDS TraceBase, Barrier
VARIABLE l
TraceInit == l = 1
(* ---- ls: integer data, the reported ends times 10^4 ---- *)
RowsOf(r) == [i \in 1..Len(r.c) |->
               LET d0 == 1 + r.w[i] * (Dot(r.A[i], r.y0) - r.c[i] * r.c0)
                   d1 == 1 + r.w[i] * (Dot(r.A[i], r.y1) - r.c[i] * r.c1)
               IN <<2 * d0, 2 * (d1 - d0)>>]
End(x, f) == IF Abs(x) > 20000000 THEN FALSE ELSE Near(x * f[2], 10000 * f[1], f[2] + Abs(x) \div 10000)
LsVerdict(r) ==
  IF r.kind \in {"eq", "cost"} THEN Failed({<<"a constraint without cone restricts the weight", ~r.fail /\ Abs(r.lo) >= Big /\ Abs(r.up) >= Big>>})
  ELSE LET rows == RowsOf(r)  B == r.bound2 IN
  IF PointInterval(rows, B) THEN {}
  ELSE IF EmptyInterval(rows, B) THEN Failed({<<"an empty interval is not reported", r.fail>>})
  ELSE Failed({<<"a nonempty interval is reported as empty", ~r.fail>>})
       \cup (IF r.fail THEN {}
             ELSE IF Bounded(rows) THEN Failed({<<"upper end", End(r.up, LeastUpper(rows, B))>>, <<"lower end", End(r.lo, GreatestLower(rows, B))>>})
             ELSE Failed({<<"an unbounded interval is bounded", r.up >= Big /\ r.lo <= -Big>>}))
(* ---- div: spectrum in tenths, requested bound D tenths, k and the bounds times 10^4 ---- *)
S == 10000
Exists(lam, D) == \E k \in {(S * 20 * j) \div (64 * MaxIn(Range(lam))) : j \in 1..63} : Within(lam, k, D, S, -(S \div 20))
Positive(lam) == \A i \in DOMAIN lam : lam[i] > 0
DivVerdict(r) ==
  IF ~Positive(r.lam) THEN Failed({<<"a weight although no bound is finite", r.kk <= 0>>})
  ELSE Failed({<<"the bound at the returned weight exceeds the requested one", r.kk > 0 => Within(r.lam, r.kk, r.D, S, S \div 100)>>,
               <<"no weight although there is one", Exists(r.lam, r.D) => r.kk > 0>>,
               <<"neither a weight nor the sign that there is none", r.kk > 0 \/ r.kk = -S>>})
(* the bound itself at weight k0: f (1 - norm) = |k0 lam - 1|^2 *)
BoundVerdict(r) ==
  LET n == NormInf(r.lam, r.k0, S) IN
  IF n > S - 500 THEN {}
  ELSE Failed({<<"value of the bound", Near((r.f \div 10) * ((S - n) \div 10), NormSq(r.lam, r.k0, S) * 100, 20000 + r.f * 5)>>})
(* ---- first: rows of the direction at weight 0 and their change, in units in which the largest change is one;      *)
(* everything times 10^4 ---- *)
FirstVerdict(r) ==
  LET at(i, k) == r.d0[i] + ((k \div 10) * r.delta[i]) \div 1000
      slop(i, k) == 20 + r.bound \div 500 + Abs(k) \div 5000 + Abs(r.delta[i]) \div 500
      inside(k) == \A i \in DOMAIN r.d0 : Abs(at(i, k)) <= r.bound + slop(i, k)
      tight(k) == \E i \in DOMAIN r.d0 : (r.delta[i] > 0 /\ at(i, k) > r.bound - slop(i, k)) \/ (r.delta[i] < 0 /\ -at(i, k) > r.bound - slop(i, k))
      strictly(k) == \A i \in DOMAIN r.d0 : Abs(at(i, k)) <= r.bound - slop(i, k)
      Ks == {r.kmin + 2000 * j : j \in 1..60}
      resting == \E i \in DOMAIN r.d0 : Abs(r.delta[i]) <= 20 /\ Near(Abs(r.d0[i]), r.bound, 20)   \* at the bound: rounding decides
  IN IF resting \/ \E x \in Range(r.d0) : Abs(x) > 1000000 THEN {}
     ELSE IF Abs(r.kk) > 2000000 \/ r.kk >= r.kmax - 1 THEN {}
     ELSE IF r.kk <= r.kmin + 1 THEN
       Failed({<<"a larger weight is admissible for all constraints", r.kmin < 1000000 => ~\E k \in Ks : strictly(k)>>})
     ELSE Failed({<<"the weight is not admissible for all constraints", inside(r.kk)>>,
                  <<"the weight is not the largest admissible one", tight(r.kk)>>})
(* ---- pick: spectra of the constraints (tenths), requested bound per rank D (tenths), chosen k times 10^4 ---- *)
PickVerdict(r) ==
  IF ~Positive(r.lam) \/ r.kk <= r.kmin + 1 \/ r.kk >= r.kmax - 1 THEN
     Failed({<<"the smallest weight although a larger one is within the bound",
               (Positive(r.lam) /\ r.kk <= r.kmin + 1) => ~\E k \in {(S * 20 * j) \div (64 * MaxIn(Range(r.lam))) : j \in 1..63} : k > r.kmin + 500 /\ Within(r.lam, k, r.D, S, -(S \div 20))>>})
  ELSE Failed({<<"the bound at the chosen weight exceeds the requested one", Exists(r.lam, r.D) => Within(r.lam, r.kk, r.D, S, S \div 50)>>})
Verdict(r) == CASE r.k \in Unexpected -> {r.k} [] r.k = "ls" -> LsVerdict(r) [] r.k = "div" -> DivVerdict(r) \cup BoundVerdict(r)
                [] r.k = "first" -> FirstVerdict(r) [] r.k = "pick" -> PickVerdict(r) [] OTHER -> {}
TraceNext == /\ l <= TraceLen /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
===============================================================================
