------------------------------ MODULE ConeData ------------------------------
(* The symmetric cones of the solver as Euclidean Jordan algebras, and the Newton data a constraint         *)
(* C - A(y) in K contributes at a scaling point w:                                                           *)
(*   G_ij = <A_i, Q(w) A_j>,  AW_i = <A_i, w>,  AQc_i = <A_i, Q(w) C>,  <w, C>,  <C, Q(w) C>.                 *)
(* c is a record [kind, A, C, Q]; elements are integer vectors (linear, soc, quad) or hypercomplex matrices   *)
(* (psd, herm). Q2 is twice the quadratic representation, which is integral.                                 *)
EXTENDS Integers, Sequences, Hypercomplex

IsMatrixKind(c) == c.kind \in {"psd", "herm"}
IsSocKind(c) == c.kind \in {"soc", "quad"}

VDot(x, y) == HSum([i \in 1..Len(x) |-> x[i] * y[i]], Len(x))
(* inner product of the tails of two Lorentz vectors under the form Q *)
Tail1(c, x, y) ==
  LET n == Len(x) - 1 IN
  IF Len(c.Q) = 0 THEN HSum([i \in 1..n |-> x[i + 1] * y[i + 1]], n)
  ELSE HSum([i \in 1..n |-> x[i + 1] * HSum([j \in 1..n |-> c.Q[i][j] * y[j + 1]], n)], n)
LDot(c, x, y) == x[1] * y[1] + Tail1(c, x, y)
(* the form as a vector: LDot(c, x, y) is the plain product of LForm(c, x) with y *)
LForm(c, x) == TLCEval([i \in 1..Len(x) |-> IF i = 1 \/ Len(c.Q) = 0 THEN x[i]
                          ELSE HSum([j \in 1..(Len(x) - 1) |-> c.Q[i - 1][j] * x[j + 1]], Len(x) - 1)])
LDet(c, x) == x[1] * x[1] - Tail1(c, x, x)

VAdd(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
VSc(s, x) == TLCEval([i \in 1..Len(x) |-> s * x[i]])

Ip(c, x, y) ==
  CASE c.kind = "linear" -> VDot(x, y)
    [] IsMatrixKind(c) -> HInner(x, y)
    [] IsSocKind(c) -> 2 * LDot(c, x, y)

LQ2(c, w, x, d, det) == TLCEval([i \in 1..Len(w) |-> 4 * d * w[i] - 2 * det * (IF i = 1 THEN x[i] ELSE -x[i])])
Q2(c, w0, x0) ==
  The({CASE c.kind = "linear" -> TLCEval([i \in 1..Len(w) |-> 2 * w[i] * w[i] * x[i]])
         [] IsMatrixKind(c) -> IF Dim(w) = 8 THEN HQuad2(w, x) ELSE HScale(2, HMul(w, HMul(x, w)))
         [] IsSocKind(c) -> LQ2(c, w, x, LDot(c, w, x), LDet(c, w))
       : w \in {w0}, x \in {x0}})
Add(c, x, y) == IF IsMatrixKind(c) THEN HAdd(x, y) ELSE VAdd(x, y)
Sc(c, s, x) == IF IsMatrixKind(c) THEN HScale(s, x) ELSE VSc(s, x)
UnitOf(c) ==
  CASE c.kind = "linear" -> [i \in 1..Len(c.C) |-> 1]
    [] IsMatrixKind(c) -> HId(Dim(c.C), Rows(c.C))
    [] IsSocKind(c) -> [i \in 1..Len(c.C) |-> IF i = 1 THEN 1 ELSE 0]
(* x divided by a positive integer that divides every entry; Divides is asserted where it is used *)
DivBy(c, k, x) ==
  IF IsMatrixKind(c) THEN HBuild(Dim(x), Rows(x), Cols(x), LAMBDA a, i, j : x[a][i][j] \div k)
  ELSE TLCEval([i \in 1..Len(x) |-> x[i] \div k])
RankOf(c) == CASE c.kind = "linear" -> Len(c.C) [] IsMatrixKind(c) -> Rows(c.C) [] IsSocKind(c) -> 2

RECURSIVE Comb(_, _, _)
(* sum of y_i A_i over the first i coefficients, minus k C *)
Comb(c, y, i) == IF i = 0 THEN Sc(c, 0, c.C) ELSE Add(c, Comb(c, y, i - 1), Sc(c, y[i], c.A[i]))
MinusSlack(c, y, k) == Add(c, Comb(c, y, Len(c.A)), Sc(c, -k, c.C))
NegSlackOver(c, y, k, d) == Add(c, Sc(c, d, Comb(c, y, Len(c.A))), Sc(c, -k, c.C))

(* twice the Newton data at the (integer) point w *)
Schur2(c, w0) ==
  The({[G |-> TLCEval([i \in 1..Len(c.A) |-> [j \in 1..i |-> Ip(c, QA[j], c.A[i])]]),
        AW |-> TLCEval([i \in 1..Len(c.A) |-> 2 * Ip(c, c.A[i], w)]),
        AQc |-> TLCEval([i \in 1..Len(c.A) |-> Ip(c, QA[i], c.C)]),
        wc |-> 2 * Ip(c, w, c.C),
        cqc |-> Ip(c, Q2(c, w, c.C), c.C)]
       : w \in {w0}, QA \in {TLCEval([i \in 1..Len(c.A) |-> Q2(c, w0, c.A[i])])}})

(* Equalities A y = b and quadratic costs place their matrices. *)
PlainData(c) ==
  IF c.kind = "eq"
  THEN LET m == Len(c.A[1])
           r == Len(c.A)
       IN [G |-> [i \in 1..(m + r) |-> [j \in 1..i |-> IF i > m /\ j <= m THEN c.A[i - m][j] ELSE 0]],
           AW |-> [i \in 1..(m + r) |-> 0],
           AQc |-> [i \in 1..(m + r) |-> IF i > m THEN c.C[i - m] ELSE 0],
           wc |-> 0, cqc |-> 0]
  ELSE [G |-> [i \in 1..Len(c.A) |-> [j \in 1..i |-> c.A[i][j]]],
        AW |-> [i \in 1..Len(c.A) |-> 0], AQc |-> [i \in 1..Len(c.A) |-> 0], wc |-> 0, cqc |-> 0]
=============================================================================
