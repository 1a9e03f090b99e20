------------------------------ MODULE CApiTrace ------------------------------
(* Validates recorded call histories of the C interface against CApi. Each record carries the call, the       *)
(* returned code and id, and the Newton data of every constraint the program holds after the call.            *)
EXTENDS TraceBase, CApi
CONSTANT Checks   \* "calls": return codes, ids and frame; "data": the same plus solves compared (C06)
VARIABLES l, s

Same(got, K) ==
  LET want == NewtonData(K)
      m == Len(want.AW)
  IN /\ Len(got.AW) >= m
     /\ \A i \in 1..Len(got.AW) : LET w == IF i <= m THEN want.AW[i] ELSE 0 IN got.AW[i] = w
     /\ \A i \in 1..Len(got.AQc) : LET w == IF i <= m THEN want.AQc[i] ELSE 0 IN got.AQc[i] = w
     /\ \A i \in 1..Len(got.G) : \A j \in 1..Len(got.G) :
          (j <= i \/ K.kind = "quad") =>
             got.G[i][j] = IF i <= m /\ j <= m THEN want.G[i][j] ELSE 0
     /\ got.wc = want.wc /\ got.cqc = want.cqc /\ got.rank = RankOf(K)
DataFaults(r, t) ==
  IF r.ncons # Len(t.cons) \/ Len(r.cons) # Len(t.cons) THEN {"number of constraints"}
  ELSE {<<"constraint", i - 1, IF r.cons[i].vars # t.cons[i].vars THEN "variables" ELSE "coefficients">> :
           i \in {j \in 1..Len(t.cons) : r.cons[j].vars # t.cons[j].vars \/ ~Same(r.cons[j], t.cons[j])}}
NewIds == {"lmi", "soc", "lin", "quad"}
IdFaults(r) ==
  LET a == r.args ok == Ok(s, a) IN
  Failed({<<"id of the new constraint", a.op \in NewIds \cup {"sparse", "dense", "denselin"} =>
              IF ok THEN r.id = Len(s.cons)
              ELSE IF a.op \in NewIds THEN a.nullid # 0 \/ r.id = -77 ELSE r.id < 0>>})
RetFaults(r) ==
  LET a == r.args ok == Ok(s, a) IN
  Failed({<<"accepted a call it must refuse", ~ok => IF a.op = "sparse" THEN r.ret < 0 ELSE r.ret # 0>>,
          <<"refused a valid call", ok => IF a.op \in {"sparse", "dense", "denselin"} THEN r.ret = Len(s.cons)
                                          ELSE r.ret = 0>>})
(* The program built in one shot from the final coefficients has the same data and the same solution. *)
ShotFaults(r) ==
  DataFaults([ncons |-> Len(r.cons), cons |-> r.cons], s)
  \cup Failed({<<"one-shot construction refused", r.added>>,
               <<"outcome differs from the one-shot program", r.solved1 = r.solved2>>,
               <<"solution differs from the one-shot program", r.solved1 /\ r.solved2 =>
                   \A i \in 1..Len(r.y1) : Near(r.y1[i], r.y2[i], 200)>>})
Verdict(r) ==
  CASE r.k = "call" -> RetFaults(r) \cup IdFaults(r) \cup DataFaults(r, Next1(s, r.args))
                       \cup Failed({<<"number of variables", r.n = Next1(s, r.args).n>>})
    [] r.k = "start" -> {}
    [] r.k = "oneshot" -> ShotFaults(r)
    [] OTHER -> {r.k}
TraceInit == l = 1 /\ s = Empty
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ s' = CASE Trace[l].k = "start" -> Empty
                       [] Trace[l].k = "call" -> Next1(s, Trace[l].args)
                       [] OTHER -> s
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s>>
=============================================================================
