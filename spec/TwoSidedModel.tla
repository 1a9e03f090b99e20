----------------------------- MODULE TwoSidedModel -----------------------------
(* All systems of a few rows (Mode "small") or random ones ("walk"); the conversion keeps the set of points.          *)
EXTENDS TwoSided, TLC, Json
CONSTANTS Mode, Rows, Cols
VARIABLES rows, done
Pick(S) == IF Mode = "small" THEN S ELSE {RandomElement(S)}
Coefs == IF Mode = "small" THEN {-1, 0, 2} ELSE {-3, -2, -1, 0, 0, 1, 2, 3}
Fin == IF Mode = "small" THEN {-1, 0, 2} ELSE {-7, -3, -2, -1, 0, 1, 2, 3, 5, 9}
Init == rows = <<>> /\ done = FALSE
Coef == IF Mode = "small" THEN [1..Cols -> Coefs] ELSE {TLCEval([i \in 1..Cols |-> RandomElement(Coefs)])}
Add == /\ ~done /\ Len(rows) < Rows
       /\ \E a \in Coef, lb \in Pick(Fin \cup {-Inf}), ub \in Pick(Fin \cup {Inf}), same \in Pick(IF Mode = "small" THEN {2} ELSE 1..4),
             big \in Pick(IF Mode = "small" THEN {3} ELSE 1..12) :
            rows' = Append(rows, IF same = 1 /\ lb # -Inf THEN [a |-> a, lb |-> lb, ub |-> lb]
                                 ELSE IF big > 5 /\ lb > ub THEN [a |-> a, lb |-> ub, ub |-> lb]
                                 ELSE IF big = 1 THEN [a |-> a, lb |-> IF lb = 9 THEN 49999990 ELSE lb, ub |-> 50000000]
                                 ELSE IF big = 2 THEN [a |-> a, lb |-> -50000000, ub |-> ub] ELSE [a |-> a, lb |-> lb, ub |-> ub])
       /\ done' = done
Stop == ~done /\ (Mode = "small" \/ Len(rows) = Rows \/ RandomElement(1..6) = 1) /\ done' = TRUE /\ rows' = rows
Next == Add \/ Stop
Spec == Init /\ [][Next]_<<rows, done>>
Grid == [1..Cols -> -3..3]
SameSet == \A x \in Grid : InOriginal(rows, x) = InConverted(rows, x)
RECURSIVE Want(_)
Want(r) == IF r = <<>> THEN 0
           ELSE Want(Tail(r)) + (IF Head(r).lb = Head(r).ub THEN 1
                                 ELSE (IF Head(r).ub < Inf THEN 1 ELSE 0) + (IF Head(r).lb > -Inf THEN 1 ELSE 0))
NoneLost == Len(Eqs(rows)) + Len(Les(rows)) = Want(rows)
(* the corners of the converted set lie in the original one *)
Corners == (Cols # 2) \/ \A p \in Vertices(rows) : p[3] = 1 => InOriginal(rows, <<p[1], p[2]>>)
Emit == (done) => PrintT("@@" \o ToJson(rows))
===============================================================================
