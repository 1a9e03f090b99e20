---------------------------- MODULE NewtonSession ----------------------------
(* The protocol between the interior-point loop and the linear solver, as a state machine over calls.      *)
(* Enumerated exhaustively to a given depth; every complete history is printed and replayed.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES mode, refine, st, hist
vars == <<mode, refine, st, hist>>

Do(op) == hist' = Append(hist, op)
Init == mode = 0 /\ refine = 0 /\ st = "none" /\ hist = <<>>
SetMode(m) == /\ m # mode /\ mode' = m /\ st' = "none" /\ Do("mode " \o ToString(m)) /\ UNCHANGED refine
SetRefine(k) == /\ k # refine /\ refine' = k /\ st' = "none" /\ Do("refine " \o ToString(k)) /\ UNCHANGED mode
Assemble(op) == /\ st' = "assembled" /\ Do(op) /\ UNCHANGED <<mode, refine>>
Factor == /\ st = "assembled" /\ st' = "factored" /\ Do("factor") /\ UNCHANGED <<mode, refine>>
Solve(op) == /\ st = "factored" /\ Do(op) /\ UNCHANGED <<mode, refine, st>>

Next == /\ Len(hist) < Depth
        /\ \/ \E m \in 0..2 : Len(hist) < Depth - 2 /\ SetMode(m)
           \/ \E k \in {0, 2} : Len(hist) < Depth - 2 /\ SetRefine(k)
           \/ Assemble("assemble") \/ Assemble("assemble3")
           \/ Factor
           \/ Solve("solve") \/ Solve("solvein")
Spec == Init /\ [][Next]_vars
TypeOK == mode \in 0..2 /\ refine \in {0, 2} /\ st \in {"none", "assembled", "factored"}
SolvedAfterFactor == \A i \in 1..Len(hist) : hist[i] \in {"solve", "solvein"} =>
   \E j \in 1..(i - 1) : hist[j] = "factor" /\ \A k \in (j + 1)..(i - 1) : hist[k] \in {"solve", "solvein"}
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
