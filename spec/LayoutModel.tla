------------------------------ MODULE LayoutModel ------------------------------
(* Programs as lists of parts: for each constraint its workspace and its Newton block, then the statistics and *)
(* the residuals of the system. Every mix up to Depth constraints: the areas fit, are apart and are aligned.    *)
EXTENDS Layout, TLC
CONSTANTS Depth, Sizes, Orders
VARIABLES parts, closed
vars == <<parts, closed>>
Init == parts = <<>> /\ closed = FALSE
AddCon == \E k \in {"linear", "psd", "soc"}, n \in Sizes, m \in Orders :
             parts' = parts \o <<[kind |-> k, n |-> n, m |-> m], [kind |-> "block", n |-> 0, m |-> m]>>
Close == \E it \in 1..5, m \in Orders :
             parts' = parts \o <<[kind |-> "stats", n |-> it, m |-> 0], [kind |-> "system", n |-> 0, m |-> m]>>
Next == ~closed /\ \/ Len(parts) < 2 * Depth /\ AddCon /\ closed' = FALSE
                   \/ Close /\ closed' = TRUE
Spec == Init /\ [][Next]_vars
Fits == closed => AllInside(Lay(parts, Len(parts)), TotalSize(parts))
Disjoint == closed => AllApart(Lay(parts, Len(parts)))
AlignedAreas == closed => \A i \in 1..Len(Lay(parts, Len(parts))) :
                    LET a == Lay(parts, Len(parts))[i] IN a.kind = "stats" \/ Aligned(a)
=============================================================================
