-------------------------- MODULE HypercomplexLaws --------------------------
(* The laws the multiplication of Hypercomplex must obey. Every law is a polynomial identity of degree at   *)
(* most 2 in each argument, so checking it on the units and the sums of two units proves it for all          *)
(* elements. The quadratic representation is checked on Hermitian 2 x 2 matrices in the same way.            *)
EXTENDS Hypercomplex, FiniteSets, TLC

CONSTANT D      \* dimension of the algebra

VARIABLES x, y, X
vars == <<x, y, X>>

Elem(S) == [k \in 1..D |-> <<<<IF k \in S THEN 1 ELSE 0>>>>]
Gens == {Elem(S) : S \in {T \in SUBSET (1..D) : Cardinality(T) \in {1, 2}}}
Units == {Elem({k}) : k \in 1..D}

(* basis of the Hermitian 2 x 2 matrices *)
Diag(a, b) == [k \in 1..D |-> IF k = 1 THEN <<<<a, 0>>, <<0, b>>>> ELSE <<<<0, 0>>, <<0, 0>>>>]
Off(m) == [k \in 1..D |-> IF k = m THEN <<<<0, 1>>, <<IF k = 1 THEN 1 ELSE -1, 0>>>> ELSE <<<<0, 0>>, <<0, 0>>>>]
HB == {Diag(1, 0), Diag(0, 1)} \cup {Off(m) : m \in 1..D}

(* x, then y, runs over the generators; independently X runs over sums of two basis matrices *)
Init == x = HZero(D, 1, 1) /\ y = HZero(D, 1, 1) /\ X = HZero(D, 2, 2)
Next == \/ X = HZero(D, 2, 2) /\ x = HZero(D, 1, 1) /\ x' \in Gens /\ UNCHANGED <<y, X>>
        \/ x \in Gens /\ y = HZero(D, 1, 1) /\ y' \in Gens /\ UNCHANGED <<x, X>>
        \/ x = HZero(D, 1, 1) /\ X = HZero(D, 2, 2) /\ X' \in HB /\ UNCHANGED <<x, y>>
        \/ X \in HB /\ (\E B \in HB : X' = HAdd(X, B)) /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars

N(a) == HInner(a, a)
NormsMultiply == N(HMul(x, y)) = N(x) * N(y)
ConjReverses == HCT(HMul(x, y)) = HMul(HCT(y), HCT(x))
Alternative == /\ HMul(x, HMul(x, y)) = HMul(HMul(x, x), y)
               /\ HMul(HMul(y, x), x) = HMul(y, HMul(x, x))
NormFromConj == HMul(x, HCT(x)) = HScale(N(x), Elem({1}))
Associates == D < 8 => \A z \in Units : HMul(x, HMul(y, z)) = HMul(HMul(x, y), z)
Commutes == D < 4 => HMul(x, y) = HMul(y, x)
QuadLaws ==
  \E Q \in {TLCEval([Y \in HB |-> HQuad2(X, Y)])} :
     \A Y \in HB :
       /\ D < 8 => Q[Y] = HScale(2, HMul(X, HMul(Y, X)))
       /\ HIsHermitian(Q[Y])
       /\ HIsHermitian(HJordan2(X, Y))
       /\ HInner(X, Y) = HReTrace(HMul(X, Y))
       /\ \A Z \in HB : HInner(Q[Y], Z) = HInner(Y, Q[Z])    \* Q(x) is self-adjoint
(* the fundamental formula on the identity: Q(x)e = x.x *)
QuadOfIdentity == HQuad2(X, HId(D, 2)) = HScale(2, HMul(X, X))
=============================================================================
