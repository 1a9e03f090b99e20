---------------------------- MODULE Hypercomplex ----------------------------
(* Matrices over the real, complex, quaternion and octonion algebras (dimension 1, 2, 4, 8).              *)
(* A matrix is a sequence of dim real matrices (one per unit), each a sequence of rows of integers.        *)
(* The algebras are the Cayley-Dickson doublings (a,b)(c,d) = (ac - d conj(b), conj(a)d + cb).             *)
EXTENDS Integers, Sequences, TLC

RECURSIVE UnitSgn(_, _, _), UnitIdx(_, _, _), HSum(_, _)

CSgn(i) == IF i = 0 THEN 1 ELSE -1

(* e_i e_j = UnitSgn * e_(UnitIdx), for units numbered 0..d-1 *)
UnitSgn(i, j, d) ==
  IF d = 1 THEN 1
  ELSE LET h == d \div 2 IN
       IF i < h /\ j < h THEN UnitSgn(i, j, h)
       ELSE IF i < h THEN CSgn(i) * UnitSgn(i, j - h, h)
       ELSE IF j < h THEN UnitSgn(j, i - h, h)
       ELSE -CSgn(i - h) * UnitSgn(j - h, i - h, h)

UnitIdx(i, j, d) ==
  IF d = 1 THEN 0
  ELSE LET h == d \div 2 IN
       (IF (i < h) = (j < h) THEN 0 ELSE h) + UnitIdx(i % h, j % h, h)

SgnT == TLCEval([i \in 0..7 |-> [j \in 0..7 |-> UnitSgn(i, j, 8)]])
IdxT == TLCEval([i \in 0..7 |-> [j \in 0..7 |-> UnitIdx(i, j, 8)]])

HSum(f, n) == IF n = 0 THEN 0 ELSE f[n] + HSum(f, n - 1)

Dim(X) == Len(X)
Rows(X) == Len(X[1])
Cols(X) == IF Len(X[1]) = 0 THEN 0 ELSE Len(X[1][1])

(* TLCEval: evaluate once, TLC would otherwise keep (and re-evaluate) the function as an expression *)
HBuild(d, r, c, F(_, _, _)) == TLCEval([k \in 1..d |-> [i \in 1..r |-> [j \in 1..c |-> F(k, i, j)]]])

(* Arguments of operators are unevaluated expressions to TLC; binding them to set elements evaluates them once. *)
The(S) == CHOOSE z \in S : TRUE

HAdd(X0, Y0) == The({HBuild(Dim(X), Rows(X), Cols(X), LAMBDA k, i, j : X[k][i][j] + Y[k][i][j]) : X \in {X0}, Y \in {Y0}})
HSub(X0, Y0) == The({HBuild(Dim(X), Rows(X), Cols(X), LAMBDA k, i, j : X[k][i][j] - Y[k][i][j]) : X \in {X0}, Y \in {Y0}})
HScale(s, X0) == The({HBuild(Dim(X), Rows(X), Cols(X), LAMBDA k, i, j : s * X[k][i][j]) : X \in {X0}})
HCT(X0) == The({HBuild(Dim(X), Cols(X), Rows(X), LAMBDA k, i, j : CSgn(k - 1) * X[k][j][i]) : X \in {X0}})
HId(d, n) == HBuild(d, n, n, LAMBDA k, i, j : IF k = 1 /\ i = j THEN 1 ELSE 0)
HZero(d, r, c) == HBuild(d, r, c, LAMBDA k, i, j : 0)

(* unit a times unit b gives unit k: b is the unit with UnitIdx(a, b) = k, which is UnitIdx(a, k) *)
MulEntry(X, Y, k, i, j) ==
  HSum([a \in 1..Dim(X) |->
         SgnT[a - 1][IdxT[a - 1][k - 1]]
           * HSum([t \in 1..Cols(X) |-> X[a][i][t] * Y[IdxT[a - 1][k - 1] + 1][t][j]], Cols(X))],
       Dim(X))
HMul(X0, Y0) == The({HBuild(Dim(X), Rows(X), Cols(Y), LAMBDA k, i, j : MulEntry(X, Y, k, i, j))
                       : X \in {X0}, Y \in {Y0}})

(* twice the Jordan product, so that it stays integral *)
HJordan2(X, Y) == HAdd(HMul(X, Y), HMul(Y, X))
(* twice the quadratic representation 2 x.(x.y) - (x.x).y *)
HQuad2(X, Y) == HSub(HJordan2(X, HJordan2(X, Y)), HJordan2(HMul(X, X), Y))

HReTrace(X) == HSum([i \in 1..Rows(X) |-> X[1][i][i]], Rows(X))
(* the real inner product: sum of the products of all components *)
HInner(X0, Y0) ==
  The({HSum([k \in 1..Dim(X) |->
         HSum([i \in 1..Rows(X) |-> HSum([j \in 1..Cols(X) |-> X[k][i][j] * Y[k][i][j]], Cols(X))], Rows(X))],
       Dim(X)) : X \in {X0}, Y \in {Y0}})
HIsHermitian(X) == X = HCT(X)
=============================================================================
