---------------------------- MODULE OutcomeTrace ----------------------------
(* Recorded outcomes of solves against the certificate that was planted in the program.                            *)
EXTENDS TraceBase, Outcome
VARIABLES l, p
TraceInit == l = 1 /\ p = [fate |-> "none"]
(* coefficient times multiplier, in the coordinates in which multipliers are reported (times 1000) *)
Plain(c, a, x) ==
  IF IsMatrixKind(c) THEN LET n == Rows(a) IN HSum([i \in 1..n |-> HSum([j \in 1..n |-> a[1][i][j] * x[(j - 1) * n + i]], n)], n)
  ELSE PDot(a, x)
Size(c, a) == IF IsMatrixKind(c) THEN LET n == Rows(a) IN HSum([i \in 1..n |-> HSum([j \in 1..n |-> Abs(a[1][i][j])], n)], n)
              ELSE HSum([i \in 1..Len(a) |-> Abs(a[i])], Len(a))
MultLen(c) == IF IsMatrixKind(c) THEN Rows(c.C) * Rows(c.C) ELSE Len(c.C)
(* position in the listing of the program of constraint i of the plan *)
Pos(i) == CHOOSE j \in Idx(p.order) : p.order[j] = i
AdjX(r, v) == SumOver(Idx(p.cons), LAMBDA i : SumOver({j \in Idx(p.cons[i].vars) : p.cons[i].vars[j] = v},
                                                      LAMBDA j : Plain(p.cons[i], p.cons[i].A[j], r.mult[Pos(i)])))
AdjSize(v) == SumOver(Idx(p.cons), LAMBDA i : SumOver({j \in Idx(p.cons[i].vars) : p.cons[i].vars[j] = v},
                                                      LAMBDA j : Size(p.cons[i], p.cons[i].A[j])))
HYr(r, v) == HSum([u \in 1..p.n |-> p.H[v][u] * r.y[u]], p.n)          \* times 10^4
(* b - A'x - H y, times 1000 *)
Residual(r) == TLCEval([v \in 1..p.n |-> 1000 * p.b[v] - AdjX(r, v) - HYr(r, v) \div 10])
DualResidualOk(r, t) ==
  \A k \in Idx(p.Z) : \E res \in {Residual(r)} :
    Near(PDot(p.Z[k], res), 0, HSum([v \in 1..p.n |-> Abs(p.Z[k][v]) * (3 * t + AdjSize(v) + Abs(p.b[v]) \div 2)], p.n))
Obj2(r) == 2 * PDot(p.b, r.y) - HSum([v \in 1..p.n |-> (r.y[v] \div 100) * (HYr(r, v) \div 100)], p.n)    \* times 10^4
TotalRank == SumOver(Idx(p.cons), LAMBDA i : RankOf(p.cons[i]))
(* the duality gap that remains at the final barrier parameter, times 10^4, with a margin *)
GapLeft(r) == TotalRank * (Min2(r.mu, 500000000) \div 60)
ObjTol(r, t) == 2 * GapLeft(r) + 100 * t + 20 * Abs(Value2(p)) + HSum([v \in 1..p.n |-> HSum([u \in 1..p.n |-> 100 * Abs(p.H[v][u]) * 10], p.n)], p.n)
EqualityAt(j) == p.order[j] = 0
SolvedBad(r, t) ==
  Failed(
   {<<"feasibility", \A j \in Idx(r.margin) : r.margin[j] >= (IF EqualityAt(j) THEN -20 ELSE -5) /\ r.margin[j] < Big>>,
    <<"size of the multipliers", ~Has(r, "wrong_size")>>,
    <<"objective", LET o == Obj2(r) IN
         IF \E v \in 1..p.n : Abs(r.y[v]) > 2000000 THEN TRUE      \* too large to be evaluated in integers
         ELSE IF p.family = "vertex" THEN Near(o, 10000 * Value2(p), ObjTol(r, t))
         ELSE o >= 10000 * Value2(p) - ObjTol(r, t) /\ o <= 10000 * Upper2(p) + ObjTol(r, t)>>}
   \cup IF ~r.multok THEN {} ELSE
   {<<"multipliers in their cones", \A j \in Idx(r.dmargin) : r.dmargin[j] >= -20 /\ r.dmargin[j] < Big>>,
    <<"stationarity", r.allmult => DualResidualOk(r, t)>>,
    <<"complementarity", (r.allmult /\ r.mu < 100000000) => Near(r.gap, 0, GapLeft(r) + 50 * t + Abs(Value2(p)) \div 2)>>})
Verdict(r) ==
  CASE r.k \in Unexpected -> {r.k}
    [] r.k = "plan" -> IF PlanOk(r) THEN {} ELSE {"the plan is not a certificate"}
    [] r.k = "solve" ->
        (IF r.ret # (r.solved = 1) THEN {"the returned value is not the status"} ELSE {}) \cup
        CASE p.fate = "optimal" ->
               (IF r.pinf = 1 \/ r.dinf = 1 THEN {"a flag of infeasibility on a solvable problem"} ELSE {})
               \cup (IF r.solved = 1 THEN SolvedBad(r, r.args.tol) ELSE IF r.args.must = 1 THEN {"a well-posed problem was not solved"} ELSE {})
          [] p.fate = "infeasible" -> Failed({<<"an infeasible problem was reported solved", r.solved = 0>>,
                                              <<"the wrong side is flagged", r.args.flags = 1 => r.dinf = 0>>})
          [] p.fate = "unbounded" -> Failed({<<"an unbounded problem was reported solved", r.solved = 0>>,
                                             <<"the wrong side is flagged", r.args.flags = 1 => r.pinf = 0>>})
    [] OTHER -> {r.k}
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ p' = IF Trace[l].k = "plan" THEN Trace[l] ELSE p
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, p>>
=============================================================================
