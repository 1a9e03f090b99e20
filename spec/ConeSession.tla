---------------------------- MODULE ConeSession ----------------------------
(* The life of one cone constraint between the calls of the solver: which calls may follow which, and what   *)
(* is known about the scaling point. TLC enumerates every history of the given depth; they are replayed on    *)
(* constraints of every kind.                                                                                 *)
(*   point: none; unit; root (a point with a known root); ints (any integer point); frac (after a step);       *)
(*          stale (a direction was prepared and must be taken or abandoned)                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES point, hist
vars == <<point, hist>>
Init == point = "none" /\ hist = <<>>
Do(op, p) == hist' = Append(hist, op) /\ point' = p
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)]
Movable == point \in {"unit", "root", "ints"}
Next ==
  /\ Len(hist) < Depth
  /\ \/ Last \notin {"identity"} /\ Do("identity", "unit")
     \/ Last \notin {"setroot"} /\ Do("setroot", "root")
     \/ Last \notin {"setints"} /\ Do("setints", "ints")
     \/ Movable /\ Last # "affine" /\ Do("affine", "ints")
     \/ point \in {"unit", "root"} /\ Last # "prep" /\ Do("prep", "stale")
     \/ point \in {"unit", "root"} /\ Last # "eig" /\ Do("eig", point)
     \/ point \in {"unit", "root"} /\ Do("step", "frac")
     \/ point \in {"unit", "root", "ints", "frac"} /\ Last \notin {"schur", "add"} /\ Do("schur", point)
     \/ point \in {"unit", "root", "ints", "frac"} /\ Last # "add" /\ Do("add", point)
     \/ point \in {"unit", "root", "ints", "frac"} /\ Last # "dual" /\ Do("dual", point)
Spec == Init /\ [][Next]_vars
TypeOK == point \in {"none", "unit", "root", "ints", "frac", "stale"}
StartsWithPoint == hist = <<>> \/ hist[1] \in {"identity", "setroot", "setints"}
Emit == (Len(hist) = Depth /\ hist[Depth] \notin {"identity", "setroot", "setints"}) => PrintT("@@" \o ToJson(hist))
=============================================================================
