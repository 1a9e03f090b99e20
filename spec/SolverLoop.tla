------------------------------ MODULE SolverLoop ------------------------------
(* The interior-point loop as a state machine. Quantities are integers: k (inverse square root of mu), norms and  *)
(* weights scaled by 10^6. A configuration c:                                                                    *)
(*   maxit fcs icw icc   iteration limit, final centering steps, initial centering steps (warm, cold)            *)
(*   tol abort           final centering tolerance, norm at which a warm start is abandoned                      *)
(*   kmax kmin kinf      target of k, smallest k, k below which the problem is declared infeasible               *)
(*   ktol                when the KKT error exceeds its tolerance: "never", "after" (from the second iteration)  *)
(*                       or "always"                                                                            *)
(*   ls rescale warm dual   line search, rescaling, warm start, multipliers wanted                               *)
(*   nb na               1 + |b|, 1 + |A Q c|; root = sqrt(nb * na) when rescaling                               *)
(* A state s of a solve: i (iteration), k, kmax (after rescaling), cs (centering steps so far), abrt (warm start  *)
(* abandoned), scb, scc (denominators of the scalings), num (completed iterations), d (last norm).               *)
EXTENDS Integers, Sequences
One == 1000000
Begin(c, scb, scc) == [i |-> 0, k |-> 0, kmax |-> c.kmax, cs |-> 0, abrt |-> FALSE, scb |-> IF c.warm THEN scb ELSE 1,
                       scc |-> IF c.warm THEN scc ELSE 1, num |-> 0, d |-> 0]
Ics(c) == IF c.warm THEN c.icw ELSE c.icc
Initial(c, s) == s.i < Ics(c)
KktBad(c, s) == c.ktol = "always" \/ (c.ktol = "after" /\ s.num > 0)
Final(c, s) == s.k >= s.kmax \/ KktBad(c, s) \/ s.i >= c.maxit - c.fcs
UpdatesMu(c, s) == s.i = 0 \/ ~(Initial(c, s) \/ Final(c, s)) \/ s.abrt

(* Reasons to leave the loop before an iteration *)
AtLimit(c, s) == s.i >= c.maxit
Centered(c, s) == ~AtLimit(c, s) /\ Final(c, s) /\ s.cs >= c.fcs
Goes(c, s) == ~AtLimit(c, s) /\ ~Centered(c, s)

(* The scalings are chosen in the first iteration of a cold start; the target is scaled in every solve. *)
Rescaled(c, s) ==
  IF s.i > 0 \/ ~c.rescale THEN s
  ELSE LET b == IF c.warm THEN s.scb ELSE c.nb
           a == IF c.warm THEN s.scc ELSE c.na
           R == CHOOSE r \in 1..1000 : r * r = b * a
       IN [s EXCEPT !.scb = b, !.scc = a, !.kmax = c.kmax * R]
SquareOk(c, s) == \E r \in 1..1000 : r * r = (IF c.warm THEN s.scb * s.scc ELSE c.nb * c.na)

Clamp(x, lo, hi) == LET y == IF x > hi THEN hi ELSE x IN IF y < lo THEN lo ELSE y
(* A line search proposes a k, or nothing (then k is kept); k = 0 is no proposal. *)
FromLineSearch(c, s, found, k) ==
  LET t == IF found /\ k >= 0 THEN k ELSE s.k IN Clamp(IF t > 0 THEN t ELSE s.k \div 2, c.kmin, s.kmax)

(* The iteration proper: the new k, then the norm d of the direction. *)
WithK(c, s, k) == [s EXCEPT !.k = k, !.cs = IF UpdatesMu(c, s) \/ Initial(c, s) THEN s.cs ELSE s.cs + 1]
Abandons(c, s, d) == c.warm /\ s.i = 0 /\ d >= c.abort
(* final: whether the iteration was a final centering one (decided before k was updated) *)
Done(c, s, d, final) == (final \/ s.k >= s.kmax) /\ (IF d < 0 THEN -d ELSE d) <= c.tol
After(c, s, d) == [s EXCEPT !.i = @ + 1, !.num = s.i + 1, !.d = d, !.abrt = Abandons(c, s, d)]
(* A factorization that fails ends the solve, except in the first iteration of a warm start. *)
Forgives(c, s) == c.warm /\ s.i = 0
AfterForgiven(c, s) == [s EXCEPT !.i = @ + 1, !.abrt = TRUE]

(* The verdict: reason is "limit", "centered", "converged" or "failed". *)
Feasible(c, s) == s.k >= c.kinf
AbsOf(x) == IF x < 0 THEN -x ELSE x
(* A direction of norm less than one certifies a feasible point; a barrier parameter that is still at its upper    *)
(* limit (although the target is below) belongs to diverging iterates.                                            *)
Certified(c, s) == s.num > 0 /\ AbsOf(s.d) < One /\ ~(s.k <= c.kmin /\ c.kmin < s.kmax)
Solved(c, s, reason) ==
  /\ reason # "failed" /\ Feasible(c, s) /\ Certified(c, s)
  /\ \/ reason = "converged"
     \/ reason = "centered" /\ s.i < c.maxit - 1
=============================================================================
