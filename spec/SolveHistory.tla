----------------------------- MODULE SolveHistory -----------------------------
(* What a solve may depend on. The point of a buffer is named by how it was reached: the scaling (<<>> is the unit *)
(* scaling, otherwise what it was computed from) and the iterations made since the identity, as runs <<label,      *)
(* count>> of equal iterations; a label is what an iteration depends on besides the point: the program, the cost   *)
(* and the options. Iterations are deterministic: what an iteration does is a function of point and label.         *)
(* Instances are programs on a buffer (their own, or one shared with programs of the same shape).                 *)
EXTENDS Integers, Sequences
Blank == [room |-> 0, version |-> 0, scal |-> <<>>, pts |-> <<>>, known |-> TRUE]
NewInst(s, def, buf) ==
  LET b == IF buf = 0 THEN Len(s.bufs) + 1 ELSE buf IN
  [s EXCEPT !.inst = Append(@, [def |-> def, buf |-> b, bound |-> FALSE, fresh |-> TRUE, version |-> 0]),
            !.bufs = IF buf = 0 THEN Append(@, Blank) ELSE @]
HistoryInit == [inst |-> <<>>, bufs |-> <<>>]
Shared(s, b) == \E i, j \in 1..Len(s.inst) : i # j /\ s.inst[i].buf = b /\ s.inst[j].buf = b

(* Does a warm start find a point to continue from? *)
Bound(s, i) == LET p == s.inst[i] IN p.bound /\ p.version = s.bufs[p.buf].version
Finds(s, i, room) ==
  LET p == s.inst[i]  b == s.bufs[p.buf] IN
  Bound(s, i) \/ (p.fresh /\ Shared(s, p.buf) /\ b.room > 0 /\ room <= b.room)
(* The buffer when the iterations begin. cold: scal is what the scaling is computed from (<<>> without rescaling). *)
Prepared(s, i, cold, room, scal) ==
  LET p == s.inst[i]
      b == s.bufs[p.buf]
      binds == cold \/ ~Bound(s, i)
      grows == binds /\ room > b.room
      b1 == [b EXCEPT !.room = IF grows THEN room ELSE @, !.version = IF grows THEN @ + 1 ELSE @]
      b2 == IF cold THEN [b1 EXCEPT !.scal = scal, !.pts = <<>>, !.known = TRUE]
            ELSE IF Finds(s, i, room) THEN b1 ELSE [b1 EXCEPT !.scal = <<>>, !.pts = <<>>, !.known = TRUE]
  IN [s EXCEPT !.bufs[p.buf] = b2, !.inst[i] = [@ EXCEPT !.bound = TRUE, !.fresh = FALSE, !.version = b2.version]]
Extend(pts, lab, n) ==
  IF n = 0 THEN pts
  ELSE IF pts # <<>> /\ pts[Len(pts)][1] = lab THEN [pts EXCEPT ![Len(pts)] = <<lab, @[2] + n>>]
  ELSE Append(pts, <<lab, n>>)
Prefix(pts, lab) == IF pts # <<>> /\ pts[Len(pts)][1] = lab THEN SubSeq(pts, 1, Len(pts) - 1) ELSE pts
Count(pts, lab) == IF pts # <<>> /\ pts[Len(pts)][1] = lab THEN pts[Len(pts)][2] ELSE 0
Moved(s, i, lab, n) == [s EXCEPT !.bufs[s.inst[i].buf].pts = Extend(@, lab, n)]
Reset(s, i) == [s EXCEPT !.bufs[s.inst[i].buf].pts = <<>>]          \* an abandoned warm start: the scaling stays
Lost(s, i) == [s EXCEPT !.bufs[s.inst[i].buf].known = FALSE]
BufOf(s, i) == s.bufs[s.inst[i].buf]
Changed(s, i, what) == [s EXCEPT !.inst[i].def = Append(@, what)]
Enlarged(s, i, what) == [Changed(s, i, what) EXCEPT !.inst[i].bound = FALSE]
===============================================================================
