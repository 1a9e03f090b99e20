------------------------------ MODULE Statistics ------------------------------
(* What the queries about the last solve answer: iteration statistics, addressed from the front or from the back, and *)
(* multipliers of the constraints.                                                                                   *)
EXTENDS Integers, Sequences
(* ---- iteration statistics: L lists the barrier parameters of the iterations that the last solve completed ---- *)
Effective(L, i) == IF i < 0 THEN Len(L) + i ELSE i
Answers(L, i) == 0 <= Effective(L, i) /\ Effective(L, i) < Len(L)
Entry(L, i) == [it |-> Effective(L, i), k |-> L[Effective(L, i) + 1]]
(* ---- multipliers ---- *)
Square(x) == x * x
Size(c) == CASE c.kind = "linear" -> c.n
             [] c.kind = "soc" -> c.n + 1
             [] c.kind = "psd" -> Square(c.n)
             [] c.kind = "herm" -> Square(c.n)     \* the real part
             [] OTHER -> 0                          \* equalities and costs have none
Covered(st, i) == 0 <= i /\ i < st.covered          \* constraint i took part in the last solve with iterations
HasMultiplier(st, i) == st.num > 0 /\ Covered(st, i) /\ Size(st.cons[i + 1]) > 0
===============================================================================
