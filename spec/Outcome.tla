------------------------------- MODULE Outcome -------------------------------
(* Certificates of the outcome of a conic program                                                                 *)
(*      maximize b'y - y'Hy/2   subject to   C_i - A_i(y) in K_i,   E y = f                                        *)
(* A plan p carries the data (cons, E, f, H, b) together with a certificate, exactly, in integers:                 *)
(*   optimal     a feasible y, multipliers x and lam in the cones that satisfy stationarity; complementary to the *)
(*               slack ("vertex": y is optimal), or interior on both sides ("interior": value is bracketed)        *)
(*   infeasible  x in the cone, A'x + E'lam = 0, <C, x> + f'lam < 0; and a feasible point of the other side        *)
(*   unbounded   a feasible y and a ray d: -A d in the cone, E d = 0, b'd > 0                                      *)
EXTENDS ConeData
SumOver(S, F(_)) == LET RECURSIVE Go(_) Go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + Go(T \ {x}) IN Go(S)
PDot(a, b) == HSum([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Idx(s) == DOMAIN s

(* Primitive elements generate the extreme rays; an element is in the cone if it is a nonnegative sum of such. *)
Primitive(c, e) ==
  CASE c.kind = "linear" -> \A i \in Idx(e) : e[i] >= 0
    [] IsMatrixKind(c) -> LET t == HSum([i \in 1..Rows(e) |-> e[1][i][i]], Rows(e)) IN t > 0 /\ HMul(e, e) = HScale(t, e)
    [] IsSocKind(c) -> e[1] > 0 /\ LDet(c, e) = 0
RECURSIVE FrameSum(_, _, _)
FrameSum(c, w, i) == IF i = 0 THEN Sc(c, 0, c.C) ELSE Add(c, FrameSum(c, w, i - 1), Sc(c, w[i][1], w[i][2]))
InCone(c, z, w) == z = FrameSum(c, w, Len(w)) /\ \A i \in Idx(w) : w[i][1] >= 0 /\ Primitive(c, w[i][2])
(* in the interior: a complete orthogonal family with positive coefficients *)
Interior(c, z, w) == /\ InCone(c, z, w) /\ \A i \in Idx(w) : w[i][1] > 0
                     /\ Len(w) = RankOf(c) /\ \A i, j \in Idx(w) : i # j => Ip(c, w[i][2], w[j][2]) = 0

Local(c, y) == TLCEval([i \in 1..Len(c.vars) |-> y[c.vars[i]]])
SlackOf(c, y) == Sc(c, -1, MinusSlack(c, Local(c, y), 1))
(* component v of A'x *)
Adj(c, x, v) == SumOver({i \in Idx(c.vars) : c.vars[i] = v}, LAMBDA i : Ip(c, c.A[i], x))
AdjAll(p, v, X(_)) == SumOver(Idx(p.cons), LAMBDA i : Adj(p.cons[i], X(p.cons[i]), v))
Col(E, l, v) == HSum([i \in 1..Len(E) |-> l[i] * E[i][v]], Len(E))
Sides(p, y) == \A i \in Idx(p.E) : PDot(p.E[i], y) = p.f[i]
HY(p, v, y) == HSum([u \in 1..p.n |-> p.H[v][u] * y[u]], p.n)
Pairing(p, X(_), l) == SumOver(Idx(p.cons), LAMBDA i : Ip(p.cons[i], p.cons[i].C, X(p.cons[i]))) + PDot(p.f, l)

Planted(c) == c.x
Other(c) == FrameSum(c, c.xt, Len(c.xt))
FeasiblePoint(p) == Sides(p, p.y) /\ \A i \in Idx(p.cons) : LET c == p.cons[i] IN SlackOf(c, p.y) = c.s /\ InCone(c, c.s, c.sf)
MultiplierOk(p) == \A i \in Idx(p.cons) : LET c == p.cons[i] IN InCone(c, c.x, c.xf)
Ray(p) == \A i \in Idx(p.E) : PDot(p.E[i], p.d) = 0
Moves(c, d) == MinusSlack(c, Local(c, d), 0)     \* A d
(* Both sides have a strictly feasible point next to the vertex: along d every slack becomes interior, and the      *)
(* multipliers of the two bounds of each variable can be raised to balance any change.                              *)
Boxed(p, v) == \A sg \in {1, -1} : \E i \in Idx(p.cons) : \E r \in Idx(p.cons[i].C) :
   /\ p.cons[i].kind = "linear"
   /\ \A j \in Idx(p.cons[i].vars) : p.cons[i].A[j][r] = IF p.cons[i].vars[j] = v THEN sg ELSE 0
   /\ \E j \in Idx(p.cons[i].vars) : p.cons[i].vars[j] = v
   /\ p.cons[i].s[r] > 0
Slater(p) == /\ Ray(p)
             /\ \A i \in Idx(p.cons) : LET c == p.cons[i]
                                           a == Sc(c, -1, Moves(c, p.d))
                                       IN IF c.kind = "linear" THEN \A r \in Idx(c.C) : c.s[r] > 0 \/ a[r] > 0 ELSE a = UnitOf(c)
             /\ \A v \in 1..p.n : Boxed(p, v)
Stationary(p) == \A v \in 1..p.n : p.b[v] = AdjAll(p, v, Planted) + Col(p.E, p.lam, v) + HY(p, v, p.y)
NullSpace(p) == \A k \in Idx(p.Z) : \A i \in Idx(p.E) : PDot(p.E[i], p.Z[k]) = 0
PlanOk(p) ==
  /\ NullSpace(p)
  /\ CASE p.fate = "optimal" ->
            /\ FeasiblePoint(p) /\ MultiplierOk(p) /\ Stationary(p)
            /\ IF p.family = "vertex" THEN Slater(p) /\ \A i \in Idx(p.cons) : Ip(p.cons[i], p.cons[i].s, p.cons[i].x) = 0
               ELSE \A i \in Idx(p.cons) : Interior(p.cons[i], p.cons[i].s, p.cons[i].sf) /\ Interior(p.cons[i], p.cons[i].x, p.cons[i].xf)
       [] p.fate = "infeasible" ->
            /\ MultiplierOk(p) /\ \A v \in 1..p.n : AdjAll(p, v, Planted) + Col(p.E, p.lam, v) = 0
            /\ Pairing(p, Planted, p.lam) < 0
            /\ \A i \in Idx(p.cons) : InCone(p.cons[i], Other(p.cons[i]), p.cons[i].xt)
            /\ \A v \in 1..p.n : p.b[v] = AdjAll(p, v, Other) + Col(p.E, p.lamt, v)
       [] p.fate = "unbounded" ->
            /\ FeasiblePoint(p) /\ Ray(p) /\ PDot(p.b, p.d) > 0
            /\ \A v \in 1..p.n : HY(p, v, p.d) = 0
            /\ \A i \in Idx(p.cons) : LET c == p.cons[i]
                                          a == Sc(c, -1, Moves(c, p.d))
                                      IN IF c.kind = "linear" THEN \A r \in Idx(a) : a[r] >= 0 ELSE c.rayf # <<>> /\ InCone(c, a, c.rayf)
(* twice the value of the planted point, and twice the value of the planted multipliers (an upper bound) *)
Value2(p) == 2 * PDot(p.b, p.y) - SumOver(1..p.n, LAMBDA v : p.y[v] * HY(p, v, p.y))
Upper2(p) == 2 * Pairing(p, Planted, p.lam) + SumOver(1..p.n, LAMBDA v : p.y[v] * HY(p, v, p.y))
=============================================================================
