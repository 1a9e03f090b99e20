----------------------------- MODULE SharedBuffer -----------------------------
(* Programs (instances of structures) that share one buffer. Structures are numbered by the space they need.    *)
(* The buffer's contents are the scaling point and scalings a structure reached by a sequence of solves, or      *)
(* nothing meaningful. A solve is [i, mode, cost]; its reference is the sequence of solves that a program with    *)
(* its own buffer has to make to give the same result.                                                          *)
EXTENDS Integers, Sequences
SharedInit(rank) == [rank |-> rank, version |-> 0, owner |-> 0, seq |-> <<>>, inst |-> <<>>]
NewInstance(s, st) == [s EXCEPT !.inst = Append(@, [st |-> st, started |-> FALSE, version |-> -1])]
One(a) == <<a.mode, a.cost>>
Grows(s, a) == s.inst[a.i].st > s.rank
Stale(s, a) == ~s.inst[a.i].started \/ s.inst[a.i].version # s.version
(* what a warm start finds *)
PointKept(s, a) == IF Stale(s, a) THEN ~s.inst[a.i].started /\ s.rank > 0 /\ ~Grows(s, a) ELSE TRUE
Reference(s, a) ==
  IF a.mode = "c" THEN [defined |-> TRUE, seq |-> <<One(a)>>]
  ELSE IF ~PointKept(s, a) THEN [defined |-> TRUE, seq |-> <<One(a)>>]
  ELSE IF s.owner = s.inst[a.i].st THEN [defined |-> TRUE, seq |-> Append(s.seq, One(a))]
  ELSE [defined |-> FALSE, seq |-> <<>>]
AfterSolve(s, a) ==
  LET r == Reference(s, a)
      v == IF Stale(s, a) /\ Grows(s, a) THEN s.version + 1 ELSE s.version
  IN [s EXCEPT !.rank = IF Stale(s, a) /\ Grows(s, a) THEN s.inst[a.i].st ELSE @, !.version = v,
               !.inst[a.i] = [@ EXCEPT !.started = TRUE, !.version = v],
               !.owner = IF r.defined THEN s.inst[a.i].st ELSE 0, !.seq = r.seq]
=============================================================================
