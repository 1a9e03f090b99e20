----------------------------- MODULE TwoSidedTrace -----------------------------
(* What the code made of two-sided rows: the converted system, and the best point of programs that hold the rows.     *)
EXTENDS TraceBase, TwoSided
VARIABLES l
TraceInit == l = 1
(* Rows are reported with their largest coefficient scaled to one (or, if there is none, the right side): a in        *)
(* millionths, b in ten-thousandths (fine) and tenths (coarse).                                                  *)
RowNorm(a) == MaxOf({Abs(a[i]) : i \in DOMAIN a} \cup {0})
Round(p, q) == IF p >= 0 THEN (2 * p + q) \div (2 * q) ELSE -((2 * (-p) + q) \div (2 * q))
NormB(b, n, u) == IF Abs(b) >= 200000 THEN (IF u = 10 THEN (b \div n) * u ELSE IF b > 0 THEN Big ELSE -Big) ELSE Round(b * u, n)
Is(e, o) ==
  LET n == RowNorm(e.a) IN
  IF n = 0 THEN /\ \A i \in DOMAIN e.a : o.a[i] = 0
                /\ o.bf = (IF e.b = 0 THEN 0 ELSE IF e.b > 0 THEN 10000 ELSE -10000)
  ELSE /\ \A i \in DOMAIN e.a : Near(o.a[i], Round(e.a[i] * 1000000, n), 2)
       /\ IF Abs(e.b) >= 50000 THEN Near(o.bc, NormB(e.b, n, 10), 100) ELSE Near(o.bf, NormB(e.b, n, 10000), 2)
Opposite(o) == [o EXCEPT !.a = Neg(o.a), !.bf = -o.bf, !.bc = -o.bc]
CountOf(S, P(_)) == Cardinality({i \in DOMAIN S : P(S[i])})
SameRow(e, f) == LET m == RowNorm(e.a)  n == RowNorm(f.a) IN   \* up to positive scaling
   IF m = 0 \/ n = 0 THEN m = n /\ (e.b > 0) = (f.b > 0) /\ (e.b < 0) = (f.b < 0)
   ELSE (\A i \in DOMAIN e.a : e.a[i] * n = f.a[i] * m) /\ IF Abs(e.b) < 50000 /\ Abs(f.b) < 50000 THEN e.b * n = f.b * m
           ELSE Abs(e.b) >= 50000 /\ Abs(f.b) >= 50000 /\ NormB(e.b, m, 10) = NormB(f.b, n, 10)
Negated(e) == [a |-> Neg(e.a), b |-> -e.b]
SameEq(e, f) == SameRow(e, f) \/ SameRow(e, Negated(f))
IsEqOut(e, o) == Is(e, o) \/ Is(e, Opposite(o))
SameLists(E, O, SameR(_, _), IsR(_, _)) ==
  /\ Len(E) = Len(O)
  /\ \A i \in DOMAIN E : CountOf(E, LAMBDA f : SameR(E[i], f)) = CountOf(O, LAMBDA o : IsR(E[i], o))
PreVerdict(r) ==
  LET E == TLCEval(Eqs(r.args))  L == TLCEval(Les(r.args)) IN
  Failed({<<"the equations are not those of the rows with equal bounds", SameLists(E, r.eq, SameEq, IsEqOut)>>,
          <<"the inequalities are not those of the finite bounds", SameLists(L, r.le, SameRow, Is)>>})
Tol == 60
RowHolds(e, y, eq) == LET v == e.a[1] * y[1] + e.a[2] * y[2] IN
   Abs(e.b) > 50000 \/ (v - e.b * 10000 <= Tol * (1 + RowNorm(e.a)) /\ (eq => e.b * 10000 - v <= Tol * (1 + RowNorm(e.a))))
Best(c, V) == MaxOf({Round((c[1] * p[1] + c[2] * p[2]) * 10000, p[3]) : p \in V})
LpVerdict(r) ==
  LET rows == r.args.rows  V == TLCEval(Vertices(rows))  E == TLCEval(Eqs(rows))  L == TLCEval(Les(rows))  c == r.args.c IN
  Failed({<<"the returned value is not the status", r.ret = (r.solved = 1)>>})
  \cup IF V = {} THEN Failed({<<"an empty set was reported solved", r.solved = 0>>})
       ELSE IF r.solved = 0 THEN Failed({<<"a feasible bounded program was not solved", ~(HasInside(rows, V) /\ Regular(rows))>>})
       ELSE IF ~HasInside(rows, V) THEN {}
       ELSE IF \E i \in 1..2 : Abs(r.y[i]) > 100000000 THEN {"the solution violates a row"}
       ELSE Failed({<<"the solution violates a row", (\A i \in DOMAIN E : RowHolds(E[i], r.y, TRUE)) /\ (\A i \in DOMAIN L : RowHolds(L[i], r.y, FALSE))>>,
                    <<"the solution is not the best point", Near(c[1] * r.y[1] + c[2] * r.y[2], Best(c, V), 400)>>})
Verdict(r) == IF r.k \in Unexpected THEN {r.k}
              ELSE IF r.k = "pre" THEN PreVerdict(r)
              ELSE IF r.k = "lp" THEN LpVerdict(r) ELSE {}
TraceNext == /\ l <= TraceLen /\ Report(l, Verdict(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
