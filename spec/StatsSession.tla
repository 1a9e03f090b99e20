----------------------------- MODULE StatsSession -----------------------------
(* Sessions of solves and queries. "small": all up to Depth, with the laws of the addresses; "walk": random sessions. *)
EXTENDS Statistics, FiniteSets, TLC, Json
CONSTANTS Mode, Depth
VARIABLES L, sol, hist
vars == <<L, sol, hist>>
(* kinds of solve and the numbers of iterations they may complete *)
Kinds == {"full", "limited", "none", "warm", "longer", "refused"}
Lengths(k) == CASE k \in {"none", "refused"} -> {0} [] k = "limited" -> 1..2 [] k = "longer" -> 2..3 [] OTHER -> 0..3
Init == L = <<>> /\ sol = 0 /\ hist = <<>>
Pick(S) == IF Mode = "small" THEN S ELSE {RandomElement(S)}
Solve == \E k \in Pick(Kinds \cup {"full"}) : \E n \in Pick(Lengths(k)) :
           /\ sol' = sol + 1
           /\ L' = [i \in 1..n |-> <<sol + 1, i>>]
           /\ hist' = Append(hist, [op |-> "solve", kind |-> k])
Query == /\ \E q \in Pick({"stats", "duals"}) : hist' = Append(hist, [op |-> q])
         /\ UNCHANGED <<L, sol>>
Late == hist' = Append(hist, [op |-> "late"]) /\ UNCHANGED <<L, sol>>
Next == /\ Len(hist) < Depth
        /\ IF Mode = "small" THEN Solve \/ Query
           ELSE \E k \in {RandomElement(1..10)} : IF k <= 4 THEN Solve ELSE IF k = 5 THEN Late ELSE Query
Spec == Init /\ [][Next]_vars
Emit == (Mode = "walk" /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
(* ---- laws ---- *)
Indices == -7..7
BothWays == \A i \in Indices : Answers(L, i) /\ i >= 0 => Answers(L, i - Len(L)) /\ Entry(L, i) = Entry(L, i - Len(L))
ExactlyTheIterations == Cardinality({i \in Indices : Answers(L, i)}) = 2 * Len(L)
OfTheLastSolve == \A i \in Indices : Answers(L, i) => Entry(L, i).k[1] = sol /\ Entry(L, i).k[2] = Entry(L, i).it + 1
LastIsMinusOne == L # <<>> => Answers(L, -1) /\ Entry(L, -1).it = Len(L) - 1
===============================================================================
