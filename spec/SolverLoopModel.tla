---------------------------- MODULE SolverLoopModel ----------------------------
(* All runs of the loop over the answers of the constraints: proposals of the line search, norms of directions,   *)
(* failed factorizations. Mode "small": every configuration of a small family, exhaustively. "wide": more of them. "walk": random *)
(* sessions of several solves, which are emitted as scripts for the real solver.                                  *)
EXTENDS SolverLoop, FiniteSets, TLC, Json
CONSTANTS Mode, Solves
Small == Mode # "walk"      \* "small", "wide": exhaustive
Wide == Mode = "wide"
VARIABLES c, s, phase, reason, script, hist, ok
vars == <<c, s, phase, reason, script, hist, ok>>
Pick(S) == IF Small THEN S ELSE {RandomElement(S)}
Half == 500000
Norms == IF Small THEN {0, 2 * One, 4 * One}
         ELSE {0, 5000, 20000, Half, One, 3 * Half, 2 * One, 5 * Half, 3 * One, 10 * One}
Props == IF Small THEN {-1, Half, 3 * One, 40 * One}
         ELSE {-1, -1, 0, 1234, Half, 3 * Half, 3 * One, 5 * One, 11 * One, 17 * One, 40 * One, 90 * One, 300 * One}
Free == [maxit |-> 0, fcs |-> 0, icw |-> 0, icc |-> 0, tol |-> 10000, abort |-> 2 * One, kmax |-> 10 * One, kmin |-> One,
         kinf |-> 3162, ktol |-> "never", ls |-> TRUE, rescale |-> FALSE, warm |-> FALSE, dual |-> FALSE, nb |-> 1, na |-> 1]
Ready == [Free EXCEPT !.maxit = 0]
Init == /\ c = Ready /\ s = Begin(Ready, 1, 1) /\ phase = "config" /\ reason = "none" /\ script = <<>> /\ hist = <<>> /\ ok = TRUE
(* one solve is configured; the cost and the constraints of a session do not change *)
Configure ==
  /\ phase = "config" /\ Len(hist) < Solves
  /\ \E maxit \in Pick(IF Wide THEN {1, 2, 3, 4, 6} ELSE IF Small THEN {1, 2, 4} ELSE 0..9), fcs \in Pick(IF Wide THEN 0..3 ELSE IF Small THEN {0, 1, 2} ELSE 0..5),
        icw \in Pick(IF Wide THEN 0..2 ELSE IF Small THEN {0, 1} ELSE 0..3), icc \in Pick(IF Wide THEN 0..2 ELSE IF Small THEN {1} ELSE 0..3),
        warm \in Pick(IF Len(hist) = 0 /\ Mode = "walk" THEN {FALSE, FALSE, TRUE} ELSE {FALSE, TRUE}),
        ktol \in Pick(IF Small THEN {"never", "after"} ELSE {"never", "after", "always"} \cup (IF RandomElement(1..3) > 1 THEN {"never"} ELSE {})),
        kmax \in Pick({IF Small THEN 10 * One ELSE RandomElement({3 * One, 10 * One, 20 * One})}),
        kmin \in Pick({One, 100000}), kinf \in Pick(IF Small THEN {2 * One} ELSE {3162, 2 * One, 19 * One}),
        rescale \in Pick(IF Small /\ ~Wide THEN {FALSE} ELSE BOOLEAN), ls \in Pick(IF Wide THEN BOOLEAN ELSE IF Small THEN {TRUE} ELSE {TRUE, TRUE, FALSE}),
        tol \in Pick(IF Wide THEN {0, 10000} ELSE IF Small THEN {10000} ELSE {0, 10000, 3 * Half}), ab \in Pick(IF Small THEN {2 * One} ELSE {One, 2 * One, 5 * One}),
        dual \in Pick(IF Small THEN {FALSE} ELSE BOOLEAN), nb \in Pick(IF Small THEN {1} ELSE IF Len(hist) = 0 THEN {1, 4} ELSE {c.nb}),
        na \in Pick(IF Small THEN {1} ELSE IF Len(hist) = 0 THEN {1, 4} ELSE {c.na}) :
     LET n == [Free EXCEPT !.maxit = maxit, !.fcs = fcs, !.icw = icw, !.icc = icc, !.warm = warm, !.ktol = ktol, !.kmax = kmax, !.kmin = kmin,
                           !.kinf = kinf, !.rescale = rescale, !.ls = ls, !.tol = tol, !.abort = ab, !.dual = dual, !.nb = nb, !.na = na]
     IN /\ c' = n /\ s' = Begin(n, s.scb, s.scc)
  /\ phase' = "run" /\ reason' = "none" /\ script' = <<>> /\ hist' = hist /\ ok' = TRUE
End(r) == /\ phase' = "config" /\ reason' = r /\ hist' = Append(hist, [c |-> c, script |-> script'])
Iterate ==
  /\ phase = "run" /\ Goes(c, s)
  /\ \E p \in Pick(Props), d \in Pick(Norms), f \in Pick(IF Small \/ RandomElement(1..12) = 1 THEN BOOLEAN ELSE {FALSE}) :
       LET t == Rescaled(c, s)
           k == IF UpdatesMu(c, t) THEN FromLineSearch(c, t, p >= 0, p) ELSE Clamp(t.k, c.kmin, t.kmax)
           u == WithK(c, t, k)
           final == Final(c, s)
       IN /\ script' = Append(script, [p |-> p, d |-> d, f |-> f])
          /\ IF f THEN IF Forgives(c, t) THEN s' = AfterForgiven(c, t) /\ UNCHANGED <<phase, reason, hist, ok>>
                       ELSE s' = t /\ End("failed") /\ ok' = ok
             ELSE /\ s' = After(c, u, d)
                  /\ ok' = (ok /\ k >= c.kmin /\ (k <= t.kmax \/ k = c.kmin)
                            /\ (~UpdatesMu(c, t) => (k = t.k \/ t.k = 0)))
                  /\ IF Done(c, u, d, final) THEN End("converged") ELSE UNCHANGED <<phase, reason, hist>>
  /\ c' = c
Stop == /\ phase = "run" /\ ~Goes(c, s)
        /\ script' = script /\ s' = s /\ c' = c /\ ok' = ok
        /\ End(IF AtLimit(c, s) THEN "limit" ELSE "centered")
Next == Configure \/ Iterate \/ Stop
Spec == Init /\ [][Next]_vars
View == <<c, s, phase, reason, ok, Len(hist)>>
Emit == (phase = "config" /\ Len(hist) = Solves) => PrintT("@@" \o ToJson(hist))
(* ---------------- design properties (C09) ---------------- *)
IterationsBounded == s.num <= c.maxit /\ (phase = "run" => s.i <= c.maxit)
CenteringBounded == s.cs <= c.fcs \/ c.ktol # "never" \/ Ics(c) > 0 \/ s.cs <= c.maxit
BarrierInLimits == ok
LimitIsNotSolved == (phase = "config" /\ reason = "limit") => ~Solved(c, s, reason)
FailedIsNotSolved == (phase = "config" /\ reason = "failed") => ~Solved(c, s, reason)
SolvedIsCentered == (phase = "config" /\ Len(hist) > 0 /\ Solved(c, s, reason)) =>
                       reason \in {"converged", "centered"} /\ (reason = "converged" => s.d <= c.tol) /\ s.d < One
=============================================================================
