---------------------------- MODULE HistorySession ----------------------------
(* Histories of programs: creation (with a buffer of their own, or on the buffer of another program of the same    *)
(* shape), solves from cold and warm starts with changing costs, limits and options, changes of coefficients,       *)
(* late constraints. "small": all histories up to Depth; "walk": random ones (simulation).                         *)
EXTENDS SolveHistory, TLC, Json
CONSTANTS Mode, Depth, Bases
VARIABLES s, hist, prev
vars == <<s, hist, prev>>
Limits == IF Mode = "small" THEN {2, 5} ELSE {1, 2, 3, 4, 6, 9, 14, 25}
Costs == IF Mode = "small" THEN {1, 2} ELSE {1, 2, 3}
Opts == IF Mode = "small" THEN {1} ELSE 1..3
MaxInst == IF Mode = "small" THEN 2 ELSE 4
Pick(S) == IF Mode = "small" THEN S ELSE {RandomElement(S)}
Alive(b) == {i \in 1..Len(s.inst) : s.inst[i].buf = b}
Init == s = NewInst(HistoryInit, <<1>>, 0) /\ hist = <<[op |-> "new", base |-> 1, buf |-> 0, own |-> 1]>> /\ prev = s
DoNew(base, buf) ==
  /\ Len(s.inst) < MaxInst
  /\ IF buf = 0 THEN s' = NewInst(s, <<base>>, 0) ELSE s' = NewInst(s, s.inst[buf].def, s.inst[buf].buf)
  /\ hist' = Append(hist, [op |-> "new", base |-> base, buf |-> buf, own |-> IF buf = 0 THEN Len(s.bufs) + 1 ELSE s.inst[buf].buf])
DoSolve(i, cold, room, cost, opt, abrt) ==
  LET c == IF cold THEN FALSE ELSE abrt
      cont == ~cold /\ Finds(s, i, room)
      t == Prepared(s, i, cold, room, <<s.inst[i].def, cost>>)
      lab == <<s.inst[i].def, cost, opt>>
      u == IF c THEN Moved(Reset(t, i), i, lab, room - 1) ELSE Moved(t, i, lab, room)
  IN /\ s' = u
     /\ hist' = Append(hist, [op |-> "solve", i |-> i, cold |-> cold, limit |-> room, cost |-> cost, opt |-> opt, abrt |-> c, cont |-> cont])
DoUpd(i) == s' = Changed(s, i, Len(hist)) /\ hist' = Append(hist, [op |-> "upd", i |-> i])
DoLate(i) == /\ ~Shared(s, s.inst[i].buf) /\ s' = Enlarged(s, i, -Len(hist)) /\ hist' = Append(hist, [op |-> "late", i |-> i])
DoFeas(i) == s' = Prepared(s, i, TRUE, 25, <<>>) /\ hist' = Append(hist, [op |-> "feas", i |-> i])
Next ==
  /\ Len(hist) < Depth /\ prev' = s
  /\ \E i \in Pick(1..Len(s.inst)) :
     IF Mode = "small" THEN
          \/ \E b \in {0, 1} : DoNew(1, b)
          \/ \E cold \in BOOLEAN, room \in Limits, cost \in Costs, a \in BOOLEAN : DoSolve(i, cold, room, cost, 1, a)
          \/ DoUpd(i)
          \/ DoLate(i)
     ELSE \E k \in {RandomElement(1..20)}, cold \in {RandomElement(1..5) < 3}, room \in {RandomElement(Limits)}, cost \in {RandomElement({1, 1} \cup Costs)},
             opt \in {RandomElement(1..4)}, abrt \in {RandomElement(1..6) = 1}, base \in {RandomElement(1..Bases)}, buf \in {RandomElement(0..Len(s.inst))} :
          CASE k <= 2 /\ Len(s.inst) < MaxInst -> DoNew(base, buf)
            [] k = 3 -> DoUpd(i)
            [] k = 4 /\ ~Shared(s, s.inst[i].buf) -> DoLate(i)
            [] k = 5 -> DoFeas(i)
            [] OTHER -> DoSolve(i, cold, room, cost, IF opt > 2 THEN 1 ELSE opt, abrt)
Spec == Init /\ [][Next]_vars
Emit == (Mode = "walk" /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
(* ---- design properties ---- *)
Last == hist[Len(hist)]
Now == BufOf(s, Last.i)
IsSolve == Last.op = "solve"
(* A cold solve leaves a point that depends only on itself. *)
ColdForgets == (IsSolve /\ Last.cold) => Now.scal = <<s.inst[Last.i].def, Last.cost>> /\ Now.pts = <<<<<<s.inst[Last.i].def, Last.cost, Last.opt>>, Last.limit>>>>
(* A program with its own buffer continues after every solve, unless it was enlarged. *)
WarmContinues == (IsSolve /\ ~Last.cold /\ ~Last.abrt /\ ~Shared(prev, prev.inst[Last.i].buf) /\ prev.inst[Last.i].bound)
                  => /\ Last.cont
                     /\ Now.pts = Extend(BufOf(prev, Last.i).pts, <<s.inst[Last.i].def, Last.cost, Last.opt>>, Last.limit)
(* Splitting a run does not matter. *)
Splits == (IsSolve /\ ~Last.cold /\ ~Last.abrt /\ Last.cont) =>
           LET lab == <<s.inst[Last.i].def, Last.cost, Last.opt>>
               b == BufOf(prev, Last.i).pts
           IN \A n \in 0..Last.limit : Extend(Extend(b, lab, n), lab, Last.limit - n) = Now.pts
(* What a solve does to other buffers: nothing. *)
OthersKept == IsSolve => \A b \in 1..Len(prev.bufs) : b = s.inst[Last.i].buf \/ s.bufs[b] = prev.bufs[b]
(* A program whose memory has moved never continues. *)
NoDangling == (IsSolve /\ ~Last.cold /\ Last.cont) => (prev.inst[Last.i].fresh \/ prev.inst[Last.i].version = BufOf(prev, Last.i).version)
===============================================================================
