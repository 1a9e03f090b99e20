------------------------------ MODULE ConeLaws ------------------------------
(* The laws the quadratic representations of ConeData must obey, checked on every pair of elements with small *)
(* entries of a cone of each kind: they make (Q, <.,.>) a Euclidean Jordan algebra, so that Schur2 is the      *)
(* Newton system of the barrier and AffineNext / StepNext are its affine and geodesic steps.                   *)
EXTENDS ConeData, FiniteSets
CONSTANT Kind
VARIABLES x, y, n
vars == <<x, y, n>>

C0 == CASE Kind = "linear" -> [kind |-> "linear", A |-> <<>>, C |-> <<0, 0>>, Q |-> <<>>]
        [] Kind = "soc" -> [kind |-> "soc", A |-> <<>>, C |-> <<0, 0, 0>>, Q |-> <<>>]
        [] Kind = "quad" -> [kind |-> "quad", A |-> <<>>, C |-> <<0, 0, 0>>, Q |-> <<<<2, 1>>, <<1, 1>>>>]
        [] Kind = "psd" -> [kind |-> "psd", A |-> <<>>, C |-> HZero(1, 2, 2), Q |-> <<>>]
        [] Kind = "complex" -> [kind |-> "herm", A |-> <<>>, C |-> HZero(2, 2, 2), Q |-> <<>>]
        [] Kind = "octonion" -> [kind |-> "herm", A |-> <<>>, C |-> HZero(8, 1, 1), Q |-> <<>>]
K == C0
V == -1..1
Zero == Sc(K, 0, K.C)
Coord == IF IsMatrixKind(K) THEN {<<1, 1>>, <<1, 2>>, <<2, 2>>} \cup (IF Kind = "complex" THEN {<<3, 3>>} ELSE {})
         ELSE {<<i, i>> : i \in 1..Len(K.C)}
Basis(c) ==
  IF ~IsMatrixKind(K) THEN [i \in 1..Len(K.C) |-> IF i = c[1] THEN 1 ELSE 0]
  ELSE HBuild(Dim(K.C), Rows(K.C), Cols(K.C),
         LAMBDA k, i, j : IF c = <<3, 3>> THEN (IF k = 2 /\ i # j THEN i - j ELSE 0)
                          ELSE IF k = 1 /\ (<<i, j>> = c \/ <<j, i>> = c) THEN 1 ELSE 0)
Cs == CHOOSE q \in [1..Cardinality(Coord) -> Coord] : \A a, b \in 1..Cardinality(Coord) : a # b => q[a] # q[b]
D == Cardinality(Coord)
(* coordinates of x, then of y, are chosen one per step *)
Init == x = Zero /\ y = Zero /\ n = 0
Next == /\ n < 2 * D
        /\ n' = n + 1
        /\ \E v \in V : IF n < D THEN x' = Add(K, x, Sc(K, v, Basis(Cs[n + 1]))) /\ UNCHANGED y
                        ELSE y' = Add(K, y, Sc(K, v, Basis(Cs[n - D + 1]))) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
E == UnitOf(K)
SelfAdjoint == Ip(K, Q2(K, x, y), E) = Ip(K, y, Q2(K, x, E))
UnitActs == Q2(K, E, y) = Sc(K, 2, y)
(* Q(x)e is the square of x, whose trace is <x, x> *)
TraceOfSquare == Ip(K, Q2(K, x, E), E) = 2 * Ip(K, x, x)
Rank == Ip(K, E, E) = RankOf(K)
(* fundamental formula on the unit: Q(Q(x)y)e = Q(x)Q(y)Q(x)e *)
Fundamental == Q2(K, Q2(K, x, y), E) = Q2(K, x, Q2(K, y, Q2(K, x, E)))
=============================================================================
