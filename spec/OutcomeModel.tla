---------------------------- MODULE OutcomeModel ----------------------------
(* The certificates of module Outcome are sound: every program of a small family, with every candidate certificate, *)
(* is compared with brute force over a grid of points. The family: one variable, one block of three inequalities,   *)
(* optionally the equality y = f.                                                                                  *)
EXTENDS Outcome, TLC
CONSTANTS Neg, Hi
VARIABLES p, rows
E1 == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]]
Sum3(z) == [i \in 1..3 |-> <<z[i], E1[i]>>]
Vec == [1..3 -> (-Neg)..Hi]
T3(f) == <<f[1], f[2], f[3]>>
Dotv(a, x) == a[1] * x[1] + a[2] * x[2] + a[3] * x[3]
Plan(fate, family, A, C, x, t, y, d, eq, f, lam) ==
  LET s == T3([i \in 1..3 |-> C[i] - A[i] * y])
      ray == T3([i \in 1..3 |-> -A[i] * d])
  IN [k |-> "plan", fate |-> fate, family |-> family, n |-> 1,
      cons |-> << [kind |-> "linear", A |-> <<A>>, C |-> C, Q |-> <<>>, vars |-> <<1>>, s |-> s, sf |-> Sum3(s), x |-> x, xf |-> Sum3(x),
                   rayf |-> <<>>, has |-> 1, xt |-> Sum3(t)] >>,
      order |-> <<1>>, E |-> IF eq THEN <<<<1>>>> ELSE <<>>, f |-> IF eq THEN <<f>> ELSE <<>>,
      lam |-> IF eq THEN <<lam>> ELSE <<>>, lamt |-> IF eq THEN <<lam>> ELSE <<>>, Z |-> <<>>, H |-> <<<<0>>>>, qp |-> 0,
      b |-> IF fate = "unbounded" THEN <<lam>> ELSE <<Dotv(A, IF fate = "infeasible" THEN t ELSE x) + (IF eq THEN lam ELSE 0)>>, y |-> <<y>>, d |-> <<d>>, v0 |-> 1]
Init == p = <<>> /\ rows \in [1..3 -> -1..1]
Next == /\ p = <<>>
        /\ rows' = rows
        /\ \E C0 \in Vec, x0 \in [1..3 -> 0..1], t0 \in {x \in [1..3 -> 0..1] : x[3] = x[2]}, y \in -1..1, d \in {-1, 1}, eq \in BOOLEAN :
             \E fate \in {"optimal", "infeasible", "unbounded"}, family \in {"vertex", "interior"}, lam \in {-1, 1} :
                /\ (fate = "optimal" \/ family = "vertex") /\ (fate = "infeasible" \/ t0 = [i \in 1..3 |-> 0])
                /\ (fate # "infeasible" \/ y = 0) /\ (eq \/ fate = "unbounded" \/ lam = 1)
                /\ p' = Plan(fate, family, T3(rows), T3(C0), T3(x0), T3(t0), y, d, eq, IF eq THEN y ELSE 0, lam)
Spec == Init /\ [][Next]_<<p, rows>>
Grid == -4..4
FeasibleAt(y) == /\ \A i \in 1..3 : p.cons[1].C[i] - p.cons[1].A[1][i] * y >= 0
                 /\ \A i \in Idx(p.f) : y = p.f[i]
Sound == (p # <<>> /\ PlanOk(p)) =>
  CASE p.fate = "optimal" -> /\ \A y \in Grid : FeasibleAt(y) => 2 * p.b[1] * y <= (IF p.family = "vertex" THEN Value2(p) ELSE Upper2(p))
                             /\ FeasibleAt(p.y[1]) /\ Value2(p) <= Upper2(p)
    [] p.fate = "infeasible" -> \A y \in Grid : ~FeasibleAt(y)
    [] p.fate = "unbounded" -> \E y \in Grid : FeasibleAt(y) /\ p.b[1] * y >= 3
(* each fate has certificates in the family: every one of these is violated *)
NoOptimum == ~(p # <<>> /\ p.fate = "optimal" /\ PlanOk(p))
NoFarkas == ~(p # <<>> /\ p.fate = "infeasible" /\ PlanOk(p))
NoRay == ~(p # <<>> /\ p.fate = "unbounded" /\ PlanOk(p))
=============================================================================
