------------------------------ MODULE LayoutTrace ------------------------------
(* Recorded areas and footprints of workspaces, recorded calls of a constraint among others and alone, and      *)
(* recorded histories of programs that share a buffer.                                                          *)
EXTENDS TraceBase, Layout, SharedBuffer
VARIABLE l, sh
SetOf(q) == {q[i] : i \in 1..Len(q)}
Cells(a) == a.off..(a.off + a.len - 1)
Mapped == {"W", "temp_1", "temp_2", "weighted_constraints", "W1", "temp1_1", "temp2_1", "temp3_1", "G", "AW", "AQc",
           "system AW", "system AQc", "diagonal", "off_diagonal"}
LaidOut(r) ==
  {<<"an area leaves the buffer", AllInside(r.areas, r.size)>>,
   <<"areas overlap", AllApart(r.areas)>>,
   <<"alignment", \A i \in 1..Len(r.areas) : r.areas[i].name \in Mapped => Aligned(r.areas[i])>>}
FootOk(r) ==
  LET F == [c \in 1..r.count |-> SetOf(r.foot[c])] IN
  {<<"a constraint writes outside the buffer", \A c \in 1..r.count : \A x \in F[c] : x >= 0 /\ x < r.size>>,
   <<"two constraints write the same cells", \A c, d \in 1..r.count : c < d => F[c] \cap F[d] = {}>>,
   <<"a constraint writes into an area of another owner",
       \A c \in 1..r.count : \A i \in 1..Len(r.areas) :
           r.areas[i].owner = c - 1 \/ Cells(r.areas[i]) \cap F[c] = {}>>}
Close(a, b) == a = b \/ Near(a, b, 1 + Abs(a) \div 100000)
CloseSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i])
SameData(r) ==
  IF r.op = 1 THEN {<<"Newton matrix", Close(r.among.G, r.alone.G)>>, <<"AW", CloseSeq(r.among.AW, r.alone.AW)>>,
                    <<"AQc", CloseSeq(r.among.AQc, r.alone.AQc)>>, <<"<w,c>", Close(r.among.wc, r.alone.wc)>>,
                    <<"<c,Qc>", Close(r.among.cqc, r.alone.cqc)>>}
  ELSE {<<"squared norm", Close(r.among.nsq, r.alone.nsq)>>, <<"norm", Close(r.among.ninf, r.alone.ninf)>>}
SameOutcome(g, w) == /\ g.solved = w.solved /\ g.iter = w.iter /\ Len(g.y) = Len(w.y)
                     /\ \A i \in 1..Len(g.y) : g.y[i] = w.y[i] \/ Near(g.y[i], w.y[i], 20 + Abs(w.y[i]) \div 2000)

TraceInit == l = 1 /\ sh = SharedInit(0)
Verdict(r) ==
  CASE r.k \in Unexpected -> {r.k}
    [] r.k = "areas" -> Failed(LaidOut(r))
    [] r.k = "layout" -> Failed(LaidOut(r) \cup FootOk(r))
    [] r.k = "both" -> Failed(SameData(r))
    [] r.k = "sizes" -> Failed({<<"structures are not ordered by size", \A i \in 1..(Len(r.need) - 1) : r.need[i] < r.need[i + 1]>>,
                                <<"preallocated buffer", r.buffer = 0 \/ \A i \in 1..Len(r.need) : r.need[i] <= r.buffer>>})
    [] r.k = "solve" ->
         LET want == Reference(sh, r.args) IN
         Failed({<<"the harness replayed another history", want.defined => (Len(want.seq) = r.nref /\ want.seq = r.args.ref)>>,
                 <<"result differs from a program with its own buffer", ~want.defined \/ SameOutcome(r.got, r.want)>>})
    [] OTHER -> {}
Step(r) ==
  CASE r.k = "sizes" -> SharedInit(IF r.buffer = 0 THEN 0 ELSE 9)
    [] r.k = "new" -> NewInstance(sh, r.args)
    [] r.k = "solve" -> AfterSolve(sh, r.args)
    [] OTHER -> sh
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ sh' = (IF Trace[l].k \in Unexpected THEN sh ELSE Step(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, sh>>
=============================================================================
