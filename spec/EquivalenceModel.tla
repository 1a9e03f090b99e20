---------------------------- MODULE EquivalenceModel ----------------------------
(* Every step, and every chain of steps of a given length, from a few small programs with constraints of every kind:    *)
(* the restated program has the same feasible points (through the map) with the same objective.                          *)
EXTENDS Equivalence
CONSTANTS Depth, Reach
VARIABLES P, map, off, base, last, depth
M1(a) == <<<<<<a>>>>>>
L(kind, A, C, vs) == [kind |-> kind, A |-> A, C |-> C, Q |-> <<>>, vars |-> vs]
Bases == {
  [n |-> 2, b |-> <<1, -1>>, cons |-> <<L("linear", <<<<1, 0, -1>>, <<1, 1, 2>>>>, <<1, 2, 1>>, <<2, 1>>), L("lower", <<<<-1, 0>>, <<0, -1>>>>, <<1, 2>>, <<1, 2>>), L("eq", <<<<1>>>>, <<1>>, <<2>>)>>],
  [n |-> 2, b |-> <<2, 1>>, cons |-> <<L("psd", <<<<<<<<1, 1>>, <<1, 0>>>>>>, <<<<<<0, 1>>, <<1, -1>>>>>>>>, <<<<<<2, 1>>, <<1, 1>>>>>>, <<1, 2>>), L("upper", <<<<1>>>>, <<1>>, <<2>>),
                                       L("psd", <<<<<<<<1>>>>>>>>, <<<<<<1>>>>>>, <<1>>)>>],
  [n |-> 2, b |-> <<1, 1>>, cons |-> <<L("herm", <<<<<<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<-1, 0>>>>>>, <<<<<<0, 1>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 0>>>>>>>>,
                                               <<<<<<2, 0>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>>>>, <<2, 1>>), L("linear", <<<<1, -1>>>>, <<2, 2>>, <<1>>)>>],
  [n |-> 2, b |-> <<-1, 2>>, cons |-> <<L("soc", <<<<1, 1, 0>>, <<0, 1, 2>>>>, <<2, 0, 1>>, <<1, 2>>), [L("quad", <<<<1, 0, 1>>>>, <<3, 1, 0>>, <<2>>) EXCEPT !.Q = <<<<1, -1>>, <<-1, 2>>>>]>>],
  [n |-> 2, b |-> <<1, 2>>, cons |-> <<[L("cost", <<>>, <<>>, <<2, 1>>) EXCEPT !.Q = <<<<2, 1>>, <<1, 2>>>>], [L("cost", <<>>, <<>>, <<1>>) EXCEPT !.Q = <<<<2>>>>],
                                       L("linear", <<<<1, -1>>, <<1, 0>>>>, <<2, 1>>, <<1, 2>>)>>] }
Init == base \in Bases /\ P = base /\ map = Identity(base.n) /\ off = 0 /\ last = "none" /\ depth = 0
Next == /\ depth < Depth
        /\ \E o \in Kinds : \E t \in StepsOf(P, o) : /\ P' = Apply(P, t) /\ map' = Compose(map, P, t) /\ off' = off + StepOffset2(P, t) /\ last' = o
        /\ base' = base /\ depth' = depth + 1
Spec == Init /\ [][Next]_<<P, map, off, base, last, depth>>
Local(c, y) == TLCEval([i \in 1..Len(c.vars) |-> y[c.vars[i]]])
SlackAt(c, y) == Sc(c, -1, MinusSlack(c, Local(c, y), 1))
Sub(M, S) == LET RECURSIVE Pick(_) Pick(i) == IF i = 0 THEN <<>> ELSE IF i \in S THEN Append(Pick(i - 1), i) ELSE Pick(i - 1)
                 ix == Pick(Len(M))
             IN [r \in 1..Len(ix) |-> [s \in 1..Len(ix) |-> M[ix[r]][ix[s]]]]
RECURSIVE MatPsd(_)
MatPsd(z) == IF Dim(z) = 1 THEN \A S \in SUBSET (1..Rows(z)) : S # {} => DetOf(Sub(z[1], S)) >= 0
             ELSE IF Rows(z) = 1 THEN z[1][1][1] >= 0
             ELSE IF Rows(z) = 2 THEN z[1][1][1] >= 0 /\ z[1][2][2] >= 0 /\ z[1][1][1] * z[1][2][2] >= HSum([k \in 1..Dim(z) |-> z[k][1][2] * z[k][1][2]], Dim(z))
             ELSE IF \A k \in 2..Dim(z) : \A i, j \in 1..Rows(z) : z[k][i][j] = 0 THEN MatPsd(<<z[1]>>)
             \* otherwise blocks of order two on the diagonal
             ELSE \A i, j \in 1..Rows(z) : i <= j => z[1][i][i] >= 0 /\ z[1][i][i] * z[1][j][j] >= (IF i = j THEN 0 ELSE HSum([k \in 1..Dim(z) |-> z[k][i][j] * z[k][i][j]], Dim(z)))
Quadratic(Q, x) == HSum([i \in 1..Len(Q) |-> HSum([j \in 1..Len(Q) |-> x[i] * Q[i][j] * x[j]], Len(Q))], Len(Q))
Holds(c, y) ==
  IF c.kind = "cost" THEN TRUE
  ELSE IF c.kind = "epi" THEN 2 * y[c.vars[Len(c.vars)]] >= Quadratic(c.Q, Local(c, y))
  ELSE \E z \in {SlackAt([c EXCEPT !.kind = IF Rowwise(c) THEN "linear" ELSE c.kind], y)} :
         IF c.kind = "eq" THEN \A r \in DOMAIN z : z[r] = 0
         ELSE IF Rowwise(c) THEN \A r \in DOMAIN z : z[r] >= 0
         ELSE IF IsMatrixKind(c) THEN MatPsd(z)
         ELSE z[1] >= 0 /\ LDet(c, z) >= 0
FeasibleAt(p, y) == \A i \in DOMAIN p.cons : Holds(p.cons[i], y)
Objective2(p, y) == 2 * HSum([v \in 1..p.n |-> p.b[v] * y[v]], p.n)
                    - HSum([i \in 1..Len(p.cons) |-> IF p.cons[i].kind = "cost" THEN Quadratic(p.cons[i].Q, Local(p.cons[i], y)) ELSE 0], Len(p.cons))
Grid == [1..P.n -> (-Reach)..Reach]
SameProblem == \A z0 \in Grid : \E z \in {Ivec(P.n, LAMBDA x : z0[x])}, y \in {Image(map, z0)} :
  IF P.n = base.n THEN /\ FeasibleAt(P, z) = FeasibleAt(base, y)
                       /\ Objective2(P, z) = Objective2(base, y) - off
  ELSE FeasibleAt(P, z) => (FeasibleAt(base, y) /\ Objective2(P, z) <= Objective2(base, y) - off)
(* an epigraph variable can be lowered until it is tight *)
Tight == P.n > base.n => \A z0 \in Grid : \E z \in {Ivec(P.n, LAMBDA x : z0[x])}, y \in {Image(map, z0)} :
  (FeasibleAt(base, y) /\ Objective2(P, z) = Objective2(base, y) - off) =>
     (FeasibleAt(P, z) \/ P.n > base.n + 1)
(* the map has an inverse over the integers *)
Invertible == P.n = base.n => DetOf(Ivec(P.n, LAMBDA v : map[v][1])) \in {1, -1}
Shape == \A i \in DOMAIN P.cons : LET c == P.cons[i] IN
           /\ Len(c.vars) = Cardinality({c.vars[x] : x \in DOMAIN c.vars}) /\ \A x \in DOMAIN c.vars : c.vars[x] \in 1..P.n
           /\ (Form(c) \/ Len(c.A) = Len(c.vars))
           /\ (Bound(c) => IsSigned(c, IF c.kind = "upper" THEN 1 ELSE -1))
           /\ (IsMatrixKind(c) => HIsHermitian(c.C) /\ \A x \in DOMAIN c.A : HIsHermitian(c.A[x]))
================================================================================
