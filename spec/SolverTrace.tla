------------------------------ MODULE SolverTrace ------------------------------
(* Recorded calls of the constraints during solves, validated against SolverLoop. Within an iteration the order    *)
(* of calls to different constraints is free; each must be asked for its direction and then updated, with the same *)
(* parameters. All decisions (stop, centering, next k, step length, abandoned warm start) must be the specified.   *)
EXTENDS TraceBase, SolverLoop
VARIABLES l, st
(* st: the session: cfg of the program, the solve's configuration c, loop state s, phase, and what the current     *)
(* iteration has collected: P, T, I (probes asked, stepped, restarted), lo/up/lsfail of the line search, k, d, y.   *)
Fresh == [P |-> {}, T |-> {}, I |-> {}, lo |-> -Big, up |-> Big, found |-> TRUE, asked |-> FALSE, k |-> 0, cw |-> 0, d |-> -One, y |-> <<>>,
          failed |-> FALSE]
TraceInit == l = 1 /\ st = [prog |-> [probes |-> 0], c |-> [maxit |-> 0], s |-> [i |-> 0], phase |-> "idle", it0 |-> <<>>, reason |-> "none", it |-> Fresh, dual |-> 0,
                            scb |-> 1, scc |-> 1, lost |-> FALSE]
AllOf(t) == 0..(t.prog.probes - 1)
All == AllOf(st)
CloseTo(a, b) == Near(a, b, 2 + Abs(b) \div 50000)
Square(x) == x * x

(* The state before the iteration, rescaled *)
NowOf(t) == Rescaled(t.c, t.s)
Now == NowOf(st)
(* The iteration that has been collected is over when every constraint has been updated or restarted. *)
Complete(t) == t.it.T = AllOf(t) \/ (t.it.I = AllOf(t) /\ (t.it.P = AllOf(t) \/ t.it.failed))
Finished(t) ==      \* [s, phase, reason] after a complete iteration
  IF t.it.failed THEN [s |-> AfterForgiven(t.c, NowOf(t)), phase |-> "run", reason |-> "none"]
  ELSE LET u == WithK(t.c, NowOf(t), t.it.k)
           done == Done(t.c, u, t.it.d, Final(t.c, t.s))
       IN [s |-> After(t.c, u, t.it.d), phase |-> IF done THEN "over" ELSE "run", reason |-> IF done THEN "converged" ELSE "none"]

(* y solves g y = k (b/scb + AQc/scc) - 2 AW; everything times 10^4 *)
DirectionOk(r) ==
  \A j \in 1..Len(r.y) :
    Near(st.prog.g * r.y[j], ((r.kk \div 100) * st.prog.b[j]) \div Now.scb + ((r.kk \div 100) * st.prog.AQc[j]) \div Now.scc - 20000 * st.prog.AW[j],
         st.prog.g + 4 + Abs(st.prog.b[j]) + Abs(st.prog.AQc[j]) + Abs(r.y[j]) \div 10000)
ExpectedK == FromLineSearch(st.c, Now, st.it.found /\ st.it.lo <= st.it.up /\ st.it.up < Big, st.it.up)
KOk(r) ==
  IF ~UpdatesMu(st.c, Now) THEN r.kk = Now.k \/ CloseTo(r.kk, Clamp(Now.k, st.c.kmin, Now.kmax))
  ELSE IF st.c.ls THEN CloseTo(r.kk, ExpectedK)
  ELSE r.kk >= st.c.kmin - 1 /\ r.kk <= Max2(Now.kmax, st.c.kmin) + 1

PrepBad(r) ==
  IF st.phase = "dual" THEN
    Failed({<<"multipliers are prepared with an affine step", r.affine /\ r.cw = 0 /\ r.ew = 0>>})
  ELSE IF st.phase # "run" \/ ~Goes(st.c, st.s) THEN
    {IF st.phase = "over" THEN "the loop went on after it had converged" ELSE
     IF AtLimit(st.c, st.s) THEN "more iterations than the limit" ELSE "more final centering steps than configured"}
  ELSE Failed(
    {<<"a direction after a failed factorization", ~st.it.failed>>,
     <<"a constraint is asked twice or after the step", r.p \notin st.it.P /\ st.it.T = {}>>,
     <<"barrier parameter", IF st.it.P = {} THEN KOk(r) ELSE r.kk = st.it.k>>,
     <<"barrier parameter leaves its limits", r.kk >= st.c.kmin - 1 /\ r.kk <= Max2(Now.kmax, st.c.kmin) + Now.kmax \div 100000 + 1>>,
     <<"the line search was not consulted", (st.c.ls /\ UpdatesMu(st.c, Now)) => st.it.asked>>,
     <<"weight of the affine term", CloseTo(r.cw * Now.scc, r.kk)>>,
     <<"weight of the identity", r.ew = One /\ ~r.affine>>,
     <<"direction", DirectionOk(r)>>})
StepOf(d) == IF d <= 1414213 THEN One ELSE (8 * One) \div Square((2 * d) \div One)   \* norms above sqrt 2 are multiples of 1/2
TakeBad(r) ==
  Failed({<<"a step without a direction for every constraint", st.phase = "run" /\ st.it.P = All>>,
          <<"a constraint is stepped twice", r.p \notin st.it.T>>,
          <<"a step although the warm start has to be abandoned", ~Abandons(st.c, Now, st.it.d)>>,
          <<"the step uses other parameters than its direction", r.kk = st.it.k /\ r.cw = st.it.cw /\ r.ew = One /\ ~r.affine>>,
          <<"step length", Near(r.step, StepOf(st.it.d), 2)>>})
IdentBad(r) ==
  IF st.phase = "begin" THEN {}
  ELSE Failed({<<"restart of a constraint outside an abandoned warm start",
                 st.phase = "run" /\ IF st.it.failed THEN Forgives(st.c, Now) ELSE st.it.P = All /\ Abandons(st.c, Now, st.it.d)>>})
(* reason the loop ended, when no further iteration was begun *)
EndReason == IF st.reason # "none" THEN st.reason
             ELSE IF st.it.failed THEN IF Forgives(st.c, Now) THEN "early" ELSE "failed"
             ELSE IF AtLimit(st.c, st.s) THEN "limit" ELSE IF Centered(st.c, st.s) THEN "centered" ELSE "early"
(* mu grew too large: the flags are the signs of <b, y> and <c, x>, by a margin (times 10^4) *)
ByK == Dot(st.prog.b, st.it0) * st.s.scc
CxK == (20000 * st.prog.wc + Dot(st.prog.AQc, st.it0) - ((st.s.k \div 100) * st.prog.cqc) \div st.s.scc) * st.s.scb
FlagsOk(r) == /\ Abs(ByK - 5000) > 100 => (r.dinf = 1) = (ByK > 5000)
              /\ Abs(CxK + 5000) > 100 => (r.pinf = 1) = (CxK < -5000)
EndBad(r) ==
  LET why == EndReason
      s == st.s
      ysc == IF Feasible(st.c, s) /\ why # "failed" THEN TRUE ELSE FALSE
      want == Solved(st.c, s, why)
  IN Failed(
    {<<"the solver stopped before a reason to", why # "early">>,
     <<"an unfinished iteration", why = "failed" \/ (st.it.P = {} /\ st.it.T = {})>>,
     <<"status", (r.solved = 1) = want /\ r.ret = want>>,
     <<"number of iterations", r.num = s.num>>,
     <<"recorded barrier parameters", why = "failed" \/ Len(r.mu) = s.num>>,
     <<"multipliers were not prepared", (st.c.dual /\ why # "failed") => st.dual = st.prog.probes>>,
     <<"infeasibility flags", why = "failed" \/ s.num = 0 \/ ysc \/ FlagsOk(r)>>,
     <<"infeasibility flags of a run that is not infeasible", (why = "failed" \/ s.num = 0 \/ ysc) => r.pinf = 0 /\ r.dinf = 0>>,
     <<"returned point",
        s.num = 0 \/ why = "failed" \/
        IF ysc THEN \A j \in 1..Len(r.y) : Near(r.y[j] * (s.k \div 10000), 100 * st.it0[j] * s.scc, 300 * s.scc + Abs(r.y[j]) + (s.k \div 10000))
        ELSE \A j \in 1..Len(r.y) : Near(r.y[j], st.it0[j], 1)>>})

(* Before a record is judged: if the collected iteration is complete, the loop has moved on. *)
Starts(r) == r.k \in {"ls", "eig", "prep", "fail", "end"}
Advance(t, r) ==
  IF t.phase = "run" /\ Starts(r) /\ Complete(t)
  THEN LET f == Finished(t) IN [t EXCEPT !.s = f.s, !.phase = f.phase, !.reason = f.reason, !.it = Fresh, !.it0 = IF t.it.failed THEN @ ELSE t.it.y]
  ELSE IF t.phase = "begin" /\ r.k # "ident" THEN [t EXCEPT !.phase = "run"] ELSE t
IsDualPrep(t, r) == r.k = "prep" /\ r.affine /\ t.phase \in {"run", "over", "dual"} /\ t.it.P = {}
Judge(r) ==
  CASE r.k \in Unexpected -> {r.k}
    [] st.lost -> {}
    [] r.k = "prep" -> PrepBad(r)
    [] r.k = "take" -> TakeBad(r)
    [] r.k = "ident" -> IdentBad(r)
    [] r.k = "ls" -> Failed({<<"bound of the line search", CloseTo(r.bound, st.c.dub)>>,
                             <<"weights of the line search", r.c0 = 0 /\ CloseTo(r.c1 * Now.scc, One)>>})
    [] r.k = "eig" -> Failed({<<"weight of the divergence search", CloseTo(r.cw * Now.scc, One)>>})
    [] r.k = "end" -> EndBad(r)
    [] OTHER -> {}
Update(r) ==
  CASE r.k = "prog" -> [st EXCEPT !.prog = r, !.phase = "idle", !.scb = 1, !.scc = 1, !.lost = FALSE]
    [] r.k = "start" -> [st EXCEPT !.c = r.args, !.s = Begin(r.args, st.scb, st.scc), !.phase = "begin", !.reason = "none", !.it = Fresh,
                                   !.dual = 0, !.it0 = <<>>]
    [] r.k = "prep" -> IF st.phase = "dual" THEN [st EXCEPT !.dual = @ + 1]
                       ELSE [st EXCEPT !.it.P = @ \cup {r.p}, !.it.k = r.kk, !.it.cw = r.cw, !.it.d = Max2(@, r.ninf), !.it.y = r.y]
    [] r.k = "take" -> [st EXCEPT !.it.T = @ \cup {r.p}]
    [] r.k = "ident" -> IF st.phase = "begin" THEN st ELSE [st EXCEPT !.it.I = @ \cup {r.p}]
    [] r.k = "ls" -> [st EXCEPT !.it.asked = TRUE, !.it.found = @ /\ ~r.fail, !.it.lo = Max2(@, r.lo), !.it.up = Min2(@, r.up)]
    [] r.k = "fail" -> [st EXCEPT !.it.failed = TRUE]
    [] r.k = "end" -> [st EXCEPT !.phase = "idle", !.scb = IF st.s.i = 0 /\ ~st.it.failed THEN st.s.scb ELSE Now.scb,
                               !.scc = IF st.s.i = 0 /\ ~st.it.failed THEN st.s.scc ELSE Now.scc]
    [] OTHER -> st
(* The state in which the next record is judged *)
Advanced(t, r) == LET u == Advance(t, r) IN IF IsDualPrep(u, r) THEN [u EXCEPT !.phase = "dual"] ELSE u
TraceNext ==
  /\ l <= TraceLen
  /\ Report(l, Judge(Trace[l]))
  /\ LET u == IF Trace[l].k \in Unexpected THEN [st EXCEPT !.lost = TRUE] ELSE Update(Trace[l])
     IN st' = IF l = TraceLen \/ u.lost \/ Trace[l + 1].k \in Unexpected THEN u ELSE Advanced(u, Trace[l + 1])
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
=============================================================================
