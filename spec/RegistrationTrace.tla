--------------------------- MODULE RegistrationTrace ---------------------------
(* Validates recorded registrations. Records: start (number of variables), add (the call, its answer, and the  *)
(* variables and multipliers the program then has for every constraint), solved (this program against a fresh  *)
(* one that was given the accepted calls only).                                                                *)
EXTENDS TraceBase, Registration
VARIABLES l, n, seen   \* seen: the cliques and multipliers reported by the previous record
Cliques(r) == r.cliques
Known(p) == UNION {Range(p.duals[i]) : i \in 1..Len(p.duals)}
AddFaults(r) ==
  LET a == r.args ok == Accepts(n, a) k == Len(seen.cliques) vs == VarsOf(n, a) IN
  IF r.ok # ok THEN {IF ok THEN "a valid constraint was refused" ELSE "an invalid constraint was accepted"}
  ELSE IF ~ok THEN Failed({
      <<"a refused call changed the registered constraints", r.cliques = seen.cliques /\ r.duals = seen.duals>>,
      <<"a refused call changed the size of the system", r.size = seen.size>>,
      <<"a refused call changed the number of constraints", r.num = seen.num>>})
  ELSE IF Len(r.cliques) # k + 1 \/ Len(r.duals) # k + 1 \/ r.num # seen.num + 1 THEN {"not exactly one constraint added"}
  ELSE LET c == r.cliques[k + 1] d == r.duals[k + 1] m == RowsOf(a) IN Failed({
      <<"an earlier constraint was renumbered", SubSeq(r.cliques, 1, k) = seen.cliques /\ SubSeq(r.duals, 1, k) = seen.duals>>,
      <<"variables differ from those given", Len(c) = Len(vs) + m /\ SubSeq(c, 1, Len(vs)) = vs>>,
      <<"number of multipliers", Len(d) = m /\ Cardinality(Range(d)) = m>>,
      <<"multipliers are not attached to the constraint", SubSeq(c, Len(vs) + 1, Len(c)) = d>>,
      <<"multipliers are not fresh", Range(d) \cap (Known(seen) \cup (0..(n - 1))) = {}>>,
      <<"multipliers outside the system", \A x \in Range(d) : x < r.size>>,
      <<"size of the system", r.size = seen.size + m>>})
SolvedFaults(r) == Failed({
  <<"outcome differs from a program without the refused calls", r.solved1 = r.solved2>>,
  <<"number of rows differs from the multipliers", r.size1 = r.size2>>,
  <<"solution differs from a program without the refused calls",
      r.solved1 /\ r.solved2 => \A i \in 1..Len(r.y1) : Near(r.y1[i], r.y2[i], 200)>>})
Verdict(r) == CASE r.k = "start" -> {}
                [] r.k = "add" -> AddFaults(r)
                [] r.k = "solved" -> SolvedFaults(r)
                [] OTHER -> {r.k}
Nothing(k) == [cliques |-> <<>>, duals |-> <<>>, size |-> k, num |-> 0]
TraceInit == l = 1 /\ n = 0 /\ seen = Nothing(0)
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ n' = IF Trace[l].k = "start" THEN Trace[l].n ELSE n
             /\ seen' = CASE Trace[l].k = "start" -> Nothing(Trace[l].n)
                          [] Trace[l].k = "add" -> [cliques |-> Trace[l].cliques, duals |-> Trace[l].duals,
                                                    size |-> Trace[l].size, num |-> Trace[l].num]
                          [] OTHER -> seen
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, n, seen>>
=============================================================================
