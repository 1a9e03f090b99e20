------------------------------ MODULE StatsTrace ------------------------------
(* Recorded queries about the last solve. The list of iterations is rebuilt from what the constraints were told       *)
(* (records prep, fail, ident of scripted solves), or taken from the solve of a twin (record solve).                  *)
EXTENDS TraceBase, Statistics
VARIABLES l, st
Fresh == [L |-> <<>>, failed |-> FALSE, num |-> 0, covered |-> 0, cons |-> <<>>, mult |-> <<>>, dual |-> FALSE]
TraceInit == l = 1 /\ st = Fresh
RECURSIVE NoTail(_)
NoTail(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Step(r) ==
  CASE r.k = "session" -> Fresh
    [] r.k = "con" -> [st EXCEPT !.cons = Append(@, [kind |-> r.kind, n |-> r.n])]
    [] r.k = "start" -> [st EXCEPT !.L = <<>>, !.failed = FALSE]
    [] r.k = "fail" -> [st EXCEPT !.failed = TRUE]
    [] r.k = "ident" /\ r.p = 0 /\ st.failed -> [st EXCEPT !.L = Append(@, 0), !.failed = FALSE]   \* a forgiven failure chose no parameter
    [] r.k = "prep" /\ r.p = 0 /\ ~r.affine -> [st EXCEPT !.L = Append(@, r.kk)]
    [] r.k = "end" -> [st EXCEPT !.L = NoTail(@)]
    [] r.k = "solve" -> [st EXCEPT !.L = r.cpp.ks, !.num = r.c.num, !.covered = IF r.c.num > 0 THEN Len(st.cons) ELSE @, !.mult = r.cpp.mult, !.dual = r.dual]
    [] OTHER -> st
Same(a, b, tol) == a = b \/ Near(a, b, tol + Abs(b) \div 10000)
Wild == \E i \in DOMAIN st.L : Abs(st.L[i]) >= 900000000
StatsVerdict(r) ==
  LET n == Len(st.L) IN
  IF n # r.num THEN {"status and statistics disagree on the number of iterations"}
  ELSE UNION {Failed({<<"an index without an iteration changed the output", e.touched => Answers(st.L, e.i)>>,
                      <<"an iteration has no statistics", Answers(st.L, e.i) => e.touched>>})
              \cup (IF e.touched /\ Answers(st.L, e.i)
                    THEN Failed({<<"number of the iteration", e.it = Entry(st.L, e.i).it>>,
                                 <<"barrier parameter of the iteration", Wild \/ Same(e.kk, Entry(st.L, e.i).k, 3)>>})
                    ELSE {}) : e \in Range(r.all)}
SameSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i], tol) \/ Abs(b[i]) >= 10000000
DualsVerdict(r) ==
  UNION {Failed({<<"memory next to the output changed", e.guard>>,
                 <<"an invalid index or a constraint without multiplier changed the output", e.touched => HasMultiplier(st, e.i)>>,
                 <<"a multiplier is not reported", HasMultiplier(st, e.i) => e.touched>>,
                 <<"size of the multiplier", Covered(st, e.i) => e.size = Size(st.cons[e.i + 1]) /\ e.cpp = e.size>>,
                 <<"size of a constraint that was never solved", (0 <= e.i /\ e.i < Len(st.cons) /\ ~Covered(st, e.i)) => e.size \in {0, Size(st.cons[e.i + 1])}>>,
                 <<"value of the multiplier", (HasMultiplier(st, e.i) /\ st.dual /\ ~Wild) => SameSeq(e.x, st.mult[e.i + 1], 20)>>})
         : e \in Range(r.all)}
(* ---- at a solution, multiplier and slack of every constraint balance on the central path: their product is mu ---- *)
Rank(c) == CASE c.kind = "soc" -> 2 [] OTHER -> c.n
CentralVerdict(r) ==
  IF r.solved = 0 THEN {}
  ELSE UNION {Failed({<<"multiplier times slack of " \o c.kind, Near(c.total, 1000 * Rank(c), r.tol * Rank(c))>>,
                      <<"multiplier times slack of a row", \A q \in DOMAIN c.prod : Near(c.prod[q], 1000, r.tol)>>})
              : c \in {x \in Range(r.all) : x.has /\ x.judged}}
Verdict(r) == CASE r.k \in Unexpected -> {r.k}
                [] r.k = "stats" -> StatsVerdict(r)
                [] r.k = "duals" -> DualsVerdict(r)
                [] r.k = "central" -> CentralVerdict(r)
                [] r.k = "end" -> Failed({<<"iterations in the status", Len(NoTail(st.L)) = r.num>>})
                [] OTHER -> {}
TraceNext == /\ l <= TraceLen /\ Report(l, Verdict(Trace[l])) /\ st' = Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
===============================================================================
