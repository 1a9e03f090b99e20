------------------------------- MODULE KKTTrace -------------------------------
(* Validates recorded sessions of the code's Newton-system solver against NewtonSystem. The first record of *)
(* a case is the program; the following ones are the calls with their results.                             *)
EXTENDS TraceBase, NewtonSystem

VARIABLES l, st   \* st: the program, its exact system, and the protocol state
CONSTANT Checks   \* which property is judged: "C02" (assembly) or "C03" (factor and solve)

Fresh(r) == [n |-> r.n, cons |-> r.cons, K |-> KKT(r.n, r.cons), AW |-> Vector(r.n, r.cons, "AW"),
             AQc |-> Vector(r.n, r.cons, "AQc"), mode |-> 0, refine |-> 0, phase |-> "none",
             hasEq |-> \E i \in 1..Len(r.cons) : IsEq(r.cons[i])]

Step(r) ==
  CASE r.k = "prog" -> Fresh(r)
    [] r.k = "mode" -> [st EXCEPT !.mode = r.mode, !.phase = "none"]
    [] r.k = "refine" -> [st EXCEPT !.refine = r.refine, !.phase = "none"]
    [] r.k \in {"assemble", "assemble3"} -> [st EXCEPT !.phase = "assembled"]
    [] r.k = "factor" -> [st EXCEPT !.phase = IF r.ok THEN "factored" ELSE "failed"]
    [] OTHER -> st

AssemblyFaults(r) ==
  Failed({<<"matrix is not the sum of the contributions", r.K = st.K>>,
          <<"AW is not the sum of the contributions", r.AW = st.AW>>,
          <<"AQc is not the sum of the contributions", r.AQc = st.AQc>>,
          <<"<w,c> is not the sum of the contributions", r.wc = Scalar(st.cons, "wc")>>,
          <<"<c,Qc> is not the sum of the contributions", Has(r, "cqc") => r.cqc = Scalar(st.cons, "cqc")>>})

FactorFaults(r) ==
  LET d == Definite(st.K) IN
  IF st.hasEq \/ st.mode = 2 THEN Failed({<<"factorization failed", r.ok>>})
  ELSE Failed({<<"positive definite system rejected", d = "yes" => r.ok>>,
               <<"indefinite system accepted", d = "no" => ~r.ok>>})

SolveFaults(r) ==
  IF st.phase # "factored" \/ ~r.judge THEN {}
  ELSE Failed({<<"generator: K want = b", \A i \in 1..Len(st.K) : Dot(st.K[i], r.want) = r.b[i]>>,
               <<"solution is wrong", Len(r.x) = Len(r.want) /\
                                      \A i \in 1..Len(r.x) : Near(r.x[i], 1000 * r.want[i], 3)>>})

Verdict(r) ==
  CASE r.k = "prog" -> {}
    [] r.k = "init" -> Failed({<<"system size", r.size = SystemSize(st.n, st.cons)>>})
    [] r.k = "added" -> Failed({<<"constraint rejected", r.ok>>})
    [] r.k \in {"mode", "refine"} -> {}
    [] r.k \in {"assemble", "assemble3"} -> IF Checks = "C02" THEN AssemblyFaults(r) ELSE {}
    [] r.k = "factor" -> IF Checks = "C03" THEN FactorFaults(r) ELSE {}
    [] r.k = "solve" -> IF Checks = "C03" THEN SolveFaults(r) ELSE {}
    [] OTHER -> {r.k}

TraceInit == l = 1 /\ st = [n |-> 0]
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ st' = Step(Trace[l])
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
=============================================================================
