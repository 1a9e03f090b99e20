---------------------------- MODULE AlgebraTrace ----------------------------
(* Every recorded matrix operation returns what the algebra defines. Outputs are scaled by 4. *)
EXTENDS TraceBase, Hypercomplex

VARIABLE l
TraceInit == l = 1

NormOf(X) == HInner(X, X)

Verdict(r) ==
  IF r.k \in Unexpected THEN {r.k}
  ELSE LET X == r.x
           Y == r.y
           o == r.out
       IN Failed(
          {<<"product", o.mul = HScale(4, HMul(X, Y))>>,
           <<"conjugate transpose", o.ct = HScale(4, HCT(X))>>,
           <<"scalar multiple", o.scale = HScale(4 * r.s, X)>>,
           <<"dimension", o.dim = Len(X)>>,
           <<"squared norm", o.norm2 = NormOf(X)>>,
           <<"norm squared is norm times norm", Near(o.normnorm, NormOf(X), 0)>>,
           <<"vector of components", o.vect = [t \in 1..(Len(X) * Rows(X) * Cols(X)) |->
                  LET k == (t - 1) \div (Rows(X) * Cols(X))
                      q == (t - 1) % (Rows(X) * Cols(X))
                  IN X[k + 1][(q % Rows(X)) + 1][(q \div Rows(X)) + 1]] \/ Rows(X) # Cols(X)>>,
           <<"zero", o.zero = HZero(Len(X), Rows(X), Cols(X))>>}
          \cup (IF Rows(X) = Cols(X) THEN
                 {<<"hermitian part", o.mh = HScale(2, HAdd(X, HCT(X)))>>,
                  <<"hermitian test", o.isherm = HIsHermitian(X)>>,
                  <<"identity", o.id = HId(Len(X), Rows(X))>>} ELSE {})
          \cup (IF Rows(X) = Rows(Y) /\ Cols(X) = Cols(Y) THEN
                 {<<"sum", o.add = HScale(4, HAdd(X, Y))>>,
                  <<"inner product", o.ip = HInner(X, Y)>>,
                  <<"equality test", o.eq = (X = Y)>>} ELSE {})
          \cup (IF Rows(X) = Rows(Y) /\ Cols(X) = Cols(Y) /\ Rows(X) = Cols(X) THEN
                 {<<"Jordan product", o.jordan = HScale(2, HJordan2(X, Y))>>,
                  <<"quadratic representation", o.quad = HScale(2, HQuad2(X, Y))>>} ELSE {})
          \cup (IF Has(o, "orth") THEN
                 (* columns of the orthogonalized matrix have unit norm and are mutually orthogonal (scale 1000) *)
                 LET G == HMul(HCT(o.orth), o.orth)
                 IN {<<"orthonormal columns",
                       \A k \in 1..Len(G), i \in 1..Len(G[1]), j \in 1..Len(G[1]) :
                         Near(G[k][i][j], IF k = 1 /\ i = j THEN 1000000 ELSE 0, 12000)>>}
               ELSE {}))

TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
