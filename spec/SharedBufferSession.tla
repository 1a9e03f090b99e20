-------------------------- MODULE SharedBufferSession --------------------------
(* All histories of up to Depth solves by up to MaxInst instances of Structures structures. *)
EXTENDS SharedBuffer, TLC, Json
CONSTANTS Depth, MaxInst, Structures, Costs, Start
VARIABLES s, hist, prev
vars == <<s, hist, prev>>
Init == s = SharedInit(Start) /\ hist = <<>> /\ prev = s
Solves == Len(SelectSeq(hist, LAMBDA x : x.op = "solve"))
New == /\ Len(s.inst) < MaxInst
       /\ \E st \in 1..Structures : s' = NewInstance(s, st) /\ hist' = Append(hist, [op |-> "new", st |-> st])
Solve == \E i \in 1..Len(s.inst), mode \in {"c", "w"}, cost \in Costs :
           LET a == [i |-> i, mode |-> mode, cost |-> cost] IN
           /\ s' = AfterSolve(s, a)
           /\ hist' = Append(hist, [op |-> "solve", i |-> i, mode |-> mode, cost |-> cost, ref |-> Reference(s, a).seq])
Next == Solves < Depth /\ (New \/ Solve) /\ prev' = s
Spec == Init /\ [][Next]_vars
Emit == Solves = Depth => PrintT("@@" \o ToJson(hist))
(* ---- design properties ---- *)
Last == hist[Len(hist)]
BufferOnlyGrows == s.rank >= prev.rank
GrowthMoves == s.rank > prev.rank => s.version > prev.version
ColdNeedsNoHistory == (hist # <<>> /\ Last.op = "solve" /\ Last.mode = "c") => s.seq = <<<<"c", Last.cost>>>>
OwnerFits == s.owner > 0 => s.owner <= s.rank
=============================================================================
