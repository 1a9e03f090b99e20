--------------------------- MODULE EquivalenceSession ---------------------------
(* Random chains of restatements from given programs. Focus: the kinds of steps to choose from.                          *)
EXTENDS Equivalence, Json
CONSTANTS Depth, Focus
VARIABLES id, P, map, chain, cls, tries
Programs == ndJsonDeserialize("programs.ndjson")
Pool == IF Focus = "any" THEN Kinds
        ELSE IF Focus = "same" THEN {"vars", "cons", "local", "rows", "split", "merge", "bound", "widen", "quadform"}
        ELSE {"diag", "algebra", "socpair", "matsoc", "quadform", "chol", "arrow", "embed", "scale", "epi", "merge"}
(* where the harness (or the solver) has limits *)
Fits(Q) == /\ Len(Q.cons) <= 12
           \* quadratic costs need the line search, which only linear constraints have
           /\ Is(Q, {"cost"}) = {} \/ Is(Q, {"psd", "herm", "soc", "quad", "epi"}) = {}
           /\ \A i \in DOMAIN Q.cons : LET c == Q.cons[i] IN IF c.kind = "cost" \/ c.kind = "epi" THEN \A r, s \in DOMAIN c.Q : c.Q[r][s] < 100
              ELSE OrderOf(c) <= 14 /\ (IsMatrixKind(c) => Dim(c.C) < 8 \/ OrderOf(c) <= 3)
Init == \E i \in DOMAIN Programs : id = i /\ P = Programs[i] /\ map = Identity(Programs[i].n) /\ chain = <<>> /\ cls = 1 /\ tries = 0
Step == \E o \in {RandomElement({x \in Pool : StepsOf(P, x) # {}})} : \E t \in {RandomElement(StepsOf(P, o))} : \E Q \in {Apply(P, t)} :
          IF Fits(Q) THEN /\ P' = Q /\ map' = Compose(map, P, t) /\ chain' = Append(chain, t) /\ cls' = Max2(cls, ClassOf(P, t))
          ELSE UNCHANGED <<P, map, chain, cls>>
Next == /\ tries < Depth /\ tries' = tries + 1 /\ id' = id
        /\ IF \E x \in Pool : StepsOf(P, x) # {} THEN Step ELSE UNCHANGED <<P, map, chain, cls>>
Spec == Init /\ [][Next]_<<id, P, map, chain, cls, tries>>
Emit == (tries = Depth /\ chain # <<>>) => PrintT("@@" \o ToJson([id |-> id, p |-> P, map |-> map, chain |-> chain, cls |-> cls]))
=================================================================================
