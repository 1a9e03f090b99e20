------------------------------ MODULE Equivalence ------------------------------
(* Formulations of one problem. A program is P = [n, b, cons]: maximize b'y - (1/2) sum y'Qy over the costs, subject to  *)
(* the constraints; a constraint is [kind, A, C, Q, vars] with C - sum_j y[vars[j]] A[j] in the cone of the kind          *)
(*   linear, lower, upper  nonnegative vectors (lower and upper: the rows are minus and plus the identity)               *)
(*   eq                    zero                                                                                          *)
(*   psd, herm             positive semidefinite matrices, soc, quad: Lorentz cones                                       *)
(*   cost                  no constraint: the cost Q on vars;  epi: the last variable is at least half of x'Qx            *)
(* A step t = [op, i, j, k] restates P. With it goes the map y = M z + m from the variables z of the new program back    *)
(* to those of the old one, and a class: 1 the iterates of the solver are the same, 2 the central path is the same,       *)
(* 3 the value is the same.                                                                                              *)
EXTENDS ConeData, FiniteSets
Ivec(n, F(_)) == TLCEval([x \in 1..n |-> F(x)])
Rowwise(c) == c.kind \in {"linear", "lower", "upper", "eq"}
Bound(c) == c.kind \in {"lower", "upper"}
Form(c) == c.kind \in {"cost", "epi"}
Pos(c, v) == IF \E j \in DOMAIN c.vars : c.vars[j] = v THEN CHOOSE j \in DOMAIN c.vars : c.vars[j] = v ELSE 0
Swap(n, i, j) == Ivec(n, LAMBDA x : IF x = i THEN j ELSE IF x = j THEN i ELSE x)
Reorder(s, p) == Ivec(Len(s), LAMBDA x : s[p[x]])
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
ZeroOf(c) == IF IsMatrixKind(c) THEN HZero(Dim(c.C), Rows(c.C), Rows(c.C)) ELSE Ivec(Len(c.C), LAMBDA x : 0)
OrderOf(c) == IF IsMatrixKind(c) THEN Rows(c.C) ELSE Len(c.C)
Each(c, F(_)) == [c EXCEPT !.A = Ivec(Len(c.A), LAMBDA x : F(c.A[x])), !.C = F(c.C)]
WidenForm(Q, n) == Ivec(n, LAMBDA r : Ivec(n, LAMBDA s : IF r <= Len(Q) /\ s <= Len(Q) THEN Q[r][s] ELSE 0))
Widened(c, v) == IF Pos(c, v) > 0 THEN c
                 ELSE IF c.kind = "cost" THEN [c EXCEPT !.vars = Append(c.vars, v), !.Q = WidenForm(c.Q, Len(c.Q) + 1)]
                 ELSE [c EXCEPT !.vars = Append(c.vars, v), !.A = Append(c.A, ZeroOf(c))]
RECURSIVE WidenAll(_, _, _)
WidenAll(c, vs, x) == IF x = 0 THEN c ELSE Widened(WidenAll(c, vs, x - 1), vs[x])
(* the constraint with its variables in the order vs, which must contain them all *)
On(c0, vs) == The({IF c.kind = "cost" THEN [c EXCEPT !.vars = vs, !.Q = Ivec(Len(vs), LAMBDA r : Ivec(Len(vs), LAMBDA s : c.Q[Pos(c, vs[r])][Pos(c, vs[s])]))]
                   ELSE [c EXCEPT !.vars = vs, !.A = Ivec(Len(vs), LAMBDA x : c.A[Pos(c, vs[x])])] : c \in {WidenAll(c0, vs, Len(vs))}})
Part(c, lo, hi) == IF Bound(c) THEN [c EXCEPT !.vars = SubSeq(c.vars, lo, hi), !.C = SubSeq(c.C, lo, hi), !.A = Ivec(hi - lo + 1, LAMBDA x : SubSeq(c.A[x + lo - 1], lo, hi))]
                   ELSE [c EXCEPT !.C = SubSeq(c.C, lo, hi), !.A = Ivec(Len(c.A), LAMBDA x : SubSeq(c.A[x], lo, hi))]
Block(X0, Y0) == The({HBuild(Dim(X), Rows(X) + Rows(Y), Rows(X) + Rows(Y),
                      LAMBDA k, i, j : IF i <= Rows(X) /\ j <= Rows(X) THEN X[k][i][j] ELSE IF i > Rows(X) /\ j > Rows(X) THEN Y[k][i - Rows(X)][j - Rows(X)] ELSE 0) : X \in {X0}, Y \in {Y0}})
Union2(c, d) == c.vars \o SelectSeq(d.vars, LAMBDA v : Pos(c, v) = 0)
MergeOf(c0, d0) ==
  The({CASE c.kind = "cost" -> [c EXCEPT !.Q = Ivec(Len(c.Q), LAMBDA r : Ivec(Len(c.Q), LAMBDA s : c.Q[r][s] + d.Q[r][s]))]
         [] IsMatrixKind(c) -> [c EXCEPT !.A = Ivec(Len(c.A), LAMBDA x : Block(c.A[x], d.A[x])), !.C = Block(c.C, d.C)]
         [] OTHER -> [c EXCEPT !.A = Ivec(Len(c.A), LAMBDA x : c.A[x] \o d.A[x]), !.C = c.C \o d.C]
       : c \in {On(c0, Union2(c0, d0))}, d \in {On(d0, Union2(c0, d0))}})
IsSigned(c, s) == Len(c.A) = Len(c.C) /\ \A x \in DOMAIN c.A : \A r \in DOMAIN c.C : c.A[x][r] = IF x = r THEN s ELSE 0
DiagOf(z) == <<Ivec(Len(z), LAMBDA i : Ivec(Len(z), LAMBDA j : IF i = j THEN z[i] ELSE 0))>>
Bigger(X) == X \o Ivec(Len(X), LAMBDA k : Ivec(Rows(X), LAMBDA i : Ivec(Rows(X), LAMBDA j : 0)))
(* a Hermitian matrix of order two as a vector of the Lorentz cone *)
Vec2(X) == <<X[1][1][1] + X[1][2][2], X[1][1][1] - X[1][2][2]>> \o Ivec(Dim(X), LAMBDA k : 2 * X[k][1][2])
Arrow(z) == <<Ivec(Len(z), LAMBDA i : Ivec(Len(z), LAMBDA j : IF i = j THEN z[1] ELSE IF i = 1 THEN z[j] ELSE IF j = 1 THEN z[i] ELSE 0))>>
Embed(X) == LET n == Rows(X) IN
  <<Ivec(2 * n, LAMBDA i : Ivec(2 * n, LAMBDA j : IF i <= n /\ j <= n THEN X[1][i][j] ELSE IF i > n /\ j > n THEN X[1][i - n][j - n]
                                              ELSE IF i > n THEN X[2][i - n][j] ELSE -X[2][i][j - n]))>>
(* unit lower triangular factor of a form that has one *)
RECURSIVE Chol(_, _, _), CSum(_, _, _, _)
CSum(Q, i, j, t) == IF t = 0 THEN 0 ELSE Chol(Q, i, t) * Chol(Q, j, t) + CSum(Q, i, j, t - 1)
Chol(Q, i, j) == IF i < j THEN 0 ELSE IF i = j THEN 1 ELSE Q[i][j] - CSum(Q, i, j, j - 1)
CholOf(Q) == Ivec(Len(Q), LAMBDA i : Ivec(Len(Q), LAMBDA j : Chol(Q, i, j)))
LLt(L) == Ivec(Len(L), LAMBDA i : Ivec(Len(L), LAMBDA j : HSum([t \in 1..Len(L) |-> L[i][t] * L[j][t]], Len(L))))
TailBy(z, M) == Ivec(Len(z), LAMBDA i : IF i = 1 THEN z[1] ELSE HSum([t \in 1..(Len(z) - 1) |-> M[i - 1][t] * z[t + 1]], Len(z) - 1))
Elem(n, i, j, s) == Ivec(n, LAMBDA r : Ivec(n, LAMBDA c : IF r = c THEN 1 ELSE IF r = i /\ c = j THEN s ELSE 0))
Transp(M) == Ivec(Len(M[1]), LAMBDA i : Ivec(Len(M), LAMBDA j : M[j][i]))
RECURSIVE Minor(_, _)
(* determinant by expansion along the first row of rows rs of the columns that remain *)
Minor(M, cs) == IF cs = <<>> THEN 1
                ELSE HSum([x \in 1..Len(cs) |-> (IF x % 2 = 1 THEN 1 ELSE -1) * M[1][cs[x]] * Minor(Tail(M), Without(cs, x))], Len(cs))
DetOf(M) == Minor(M, [i \in 1..Len(M) |-> i])
Lead(Q, k) == Ivec(k, LAMBDA r : SubSeq(Q[r], 1, k))
PosDef(Q) == \A k \in 1..Len(Q) : DetOf(Lead(Q, k)) > 0

St(op, i, j, k) == [op |-> op, i |-> i, j |-> j, k |-> k]
Kinds == {"vars", "cons", "local", "rows", "split", "merge", "bound", "widen", "diag", "algebra", "socpair", "matsoc", "quadform", "chol", "arrow", "embed",
          "scale", "subst", "shift", "epi"}
Is(P, S) == {i \in DOMAIN P.cons : P.cons[i].kind \in S}
NoForms(P, i, j) == \A c \in DOMAIN P.cons : Bound(P.cons[c]) \/ P.cons[c].kind = "epi" => Pos(P.cons[c], i) = 0 /\ Pos(P.cons[c], j) = 0
(* the steps of a kind that apply to P *)
Steps(P, o) ==
  CASE o = "vars" -> {St(o, i, j, 0) : i, j \in 1..P.n}
    [] o = "cons" -> {St(o, i, j, 0) : i, j \in DOMAIN P.cons}
    [] o = "local" -> UNION {{St(o, i, j, k) : j, k \in DOMAIN P.cons[i].vars} : i \in DOMAIN P.cons \ Is(P, {"epi"})}
    [] o = "rows" -> UNION {{St(o, i, j, k) : j, k \in 1..OrderOf(P.cons[i])} : i \in Is(P, {"linear", "eq", "psd", "herm"})}
                     \cup UNION {{St(o, i, j, k) : j, k \in 2..OrderOf(P.cons[i])} : i \in Is(P, {"soc"})}
    [] o = "split" -> UNION {{St(o, i, 0, k) : k \in 1..(OrderOf(P.cons[i]) - 1)} : i \in Is(P, {"linear", "lower", "upper", "eq"})}
    [] o = "merge" -> {St(o, i, j, 0) : i, j \in Is(P, {"linear"})} \cup {St(o, i, j, 0) : i, j \in Is(P, {"eq"})} \cup {St(o, i, j, 0) : i, j \in Is(P, {"cost"})}
                      \cup {t \in {St(o, i, j, 0) : i, j \in Is(P, {"psd", "herm"})} :
                              P.cons[t.i].kind = P.cons[t.j].kind /\ Dim(P.cons[t.i].C) = Dim(P.cons[t.j].C) /\ Dim(P.cons[t.i].C) < 8}
    [] o = "bound" -> {St(o, i, 0, 0) : i \in Is(P, {"lower", "upper"})} \cup {St(o, i, 0, 0) : i \in {x \in Is(P, {"linear"}) : IsSigned(P.cons[x], 1) \/ IsSigned(P.cons[x], -1)}}
    [] o = "widen" -> {t \in {St(o, i, j, 0) : i \in DOMAIN P.cons \ Is(P, {"lower", "upper", "epi"}), j \in 1..P.n} : Pos(P.cons[t.i], t.j) = 0}
    [] o = "diag" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"linear"}) : OrderOf(P.cons[x]) <= 4}}
    [] o = "algebra" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"psd", "herm"}) : P.cons[x].kind = "psd" \/ Dim(P.cons[x].C) < 4 \/ (Dim(P.cons[x].C) = 4 /\ OrderOf(P.cons[x]) <= 3)}}
    [] o = "socpair" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"linear"}) : OrderOf(P.cons[x]) = 2}}
    [] o = "matsoc" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"psd", "herm"}) : OrderOf(P.cons[x]) = 2}}
    [] o = "quadform" -> UNION {{t \in {St(o, i, j, k) : j, k \in 1..(OrderOf(P.cons[i]) - 1)} : t.j # t.k \/ t.j = 1} : i \in Is(P, {"soc"})}
    [] o = "chol" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"quad"}) : P.cons[x].Q = <<>> \/ LLt(CholOf(P.cons[x].Q)) = P.cons[x].Q}}
    [] o = "arrow" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"soc"}) : OrderOf(P.cons[x]) <= 4}}
    [] o = "embed" -> {St(o, i, 0, 0) : i \in {x \in Is(P, {"herm"}) : Dim(P.cons[x].C) = 2 /\ OrderOf(P.cons[x]) <= 2}}
    [] o = "scale" -> {St(o, i, 0, k) : i \in DOMAIN P.cons \ Is(P, {"lower", "upper", "cost", "epi"}), k \in {2, 3}}
    [] o = "subst" -> {t \in {St(o, i, j, k) : i, j \in 1..P.n, k \in {-1, 1}} : t.i # t.j /\ NoForms(P, t.i, t.j)}
    [] o = "shift" -> {t \in {St(o, i, 0, k) : i \in 1..P.n, k \in {-1, 1, 2}} : \A c \in Is(P, {"epi"}) : Pos(P.cons[c], t.i) = 0}
    [] o = "epi" -> {St(o, i, 0, k) : i \in {x \in Is(P, {"cost"}) : PosDef(P.cons[x].Q)}, k \in {1, 2}}
NonTrivial(t) == t.op \in {"vars", "cons", "merge"} => t.i # t.j
StepsOf(P, o) == {t \in Steps(P, o) : NonTrivial(t)}

(* the constraint that replaces a single constraint *)
Restated(c, t) ==
  CASE t.op = "local" -> IF c.kind = "cost" THEN On(c, Reorder(c.vars, Swap(Len(c.vars), t.j, t.k)))
                         ELSE IF Bound(c) THEN [c EXCEPT !.vars = Reorder(c.vars, Swap(Len(c.vars), t.j, t.k)), !.C = Reorder(c.C, Swap(Len(c.vars), t.j, t.k))]
                         ELSE [c EXCEPT !.vars = Reorder(c.vars, Swap(Len(c.vars), t.j, t.k)), !.A = Reorder(c.A, Swap(Len(c.vars), t.j, t.k))]
    [] t.op = "rows" -> LET p == Swap(OrderOf(c), t.j, t.k) IN
                        Each(c, LAMBDA z : IF IsMatrixKind(c) THEN Ivec(Len(z), LAMBDA u : Ivec(Len(p), LAMBDA i : Ivec(Len(p), LAMBDA j : z[u][p[i]][p[j]]))) ELSE Reorder(z, p))
    [] t.op = "bound" -> IF Bound(c) THEN [c EXCEPT !.kind = "linear"] ELSE [c EXCEPT !.kind = IF IsSigned(c, 1) THEN "upper" ELSE "lower"]
    [] t.op = "widen" -> Widened(c, t.j)
    [] t.op = "diag" -> [Each(c, DiagOf) EXCEPT !.kind = "psd"]
    [] t.op = "algebra" -> IF c.kind = "psd" THEN [c EXCEPT !.kind = "herm"] ELSE Each(c, Bigger)
    [] t.op = "socpair" -> [Each(c, LAMBDA z : <<z[1] + z[2], z[1] - z[2]>>) EXCEPT !.kind = "soc"]
    [] t.op = "matsoc" -> [Each(c, Vec2) EXCEPT !.kind = "soc"]
    [] t.op = "quadform" -> IF t.j = t.k THEN [c EXCEPT !.kind = "quad"]
                            ELSE LET n == Len(c.C) - 1 IN [Each(c, LAMBDA z : TailBy(z, Elem(n, t.j, t.k, 1))) EXCEPT !.kind = "quad", !.Q = LLt(Transp(Elem(n, t.j, t.k, -1)))]
    [] t.op = "chol" -> IF c.Q = <<>> THEN [c EXCEPT !.kind = "soc"] ELSE [Each(c, LAMBDA z : TailBy(z, Transp(CholOf(c.Q)))) EXCEPT !.kind = "soc", !.Q = <<>>]
    [] t.op = "arrow" -> [Each(c, Arrow) EXCEPT !.kind = "psd"]
    [] t.op = "embed" -> [Each(c, Embed) EXCEPT !.kind = "psd"]
    [] t.op = "scale" -> Each(c, LAMBDA z : Sc(c, t.k, z))
Single == {"local", "rows", "bound", "widen", "diag", "algebra", "socpair", "matsoc", "quadform", "chol", "arrow", "embed", "scale"}
AddTo(c, z, x) == IF IsMatrixKind(c) THEN HAdd(z, x) ELSE VAdd(z, x)
(* y_i = z_i + s z_j in a constraint *)
Substituted(c0, i, j, s) ==
  IF Pos(c0, i) = 0 THEN c0 ELSE
  The({LET u == Pos(c, i)
           v == Pos(c, j)
       IN IF c.kind = "cost" THEN
            [c EXCEPT !.Q = Ivec(Len(c.Q), LAMBDA a : Ivec(Len(c.Q), LAMBDA b :
                 c.Q[a][b] + (IF a = v THEN s * c.Q[u][b] ELSE 0) + (IF b = v THEN s * c.Q[a][u] ELSE 0) + (IF a = v /\ b = v THEN s * s * c.Q[u][u] ELSE 0)))]
          ELSE [c EXCEPT !.A = [c.A EXCEPT ![v] = AddTo(c, c.A[v], Sc(c, s, c.A[u]))]]
       : c \in {Widened(c0, j)}})
Shifted(c, v, s) == IF Pos(c, v) = 0 \/ c.kind = "cost" THEN c ELSE [c EXCEPT !.C = AddTo(c, c.C, Sc(c, -s, c.A[Pos(c, v)]))]
(* Q e_v summed over the costs *)
CostColumn(P, u, v) == HSum([i \in 1..Len(P.cons) |-> IF P.cons[i].kind = "cost" /\ Pos(P.cons[i], u) > 0 /\ Pos(P.cons[i], v) > 0
                                                         THEN P.cons[i].Q[Pos(P.cons[i], u)][Pos(P.cons[i], v)] ELSE 0], Len(P.cons))
(* the constraint of the epigraph of a cost: the Lorentz cone of diag(1, Q) at (2 + t, t - 2, 2 x) *)
EpiQuad(c, t) == LET n == Len(c.vars) IN
  [kind |-> "quad", vars |-> Append(c.vars, t), C |-> Ivec(n + 2, LAMBDA r : IF r = 1 THEN 2 ELSE IF r = 2 THEN -2 ELSE 0),
   A |-> Append(Ivec(n, LAMBDA x : Ivec(n + 2, LAMBDA r : IF r = x + 2 THEN -2 ELSE 0)), Ivec(n + 2, LAMBDA r : IF r <= 2 THEN -1 ELSE 0)),
   Q |-> Ivec(n + 1, LAMBDA r : Ivec(n + 1, LAMBDA s : IF r = 1 \/ s = 1 THEN (IF r = s THEN 1 ELSE 0) ELSE c.Q[r - 1][s - 1]))]
Apply(P, t) ==
  CASE t.op \in Single -> [P EXCEPT !.cons[t.i] = Restated(P.cons[t.i], t)]
    [] t.op = "vars" -> LET p == Swap(P.n, t.i, t.j) IN
                        [P EXCEPT !.b = Reorder(P.b, p), !.cons = Ivec(Len(P.cons), LAMBDA i : [P.cons[i] EXCEPT !.vars = Ivec(Len(P.cons[i].vars), LAMBDA x : p[P.cons[i].vars[x]])])]
    [] t.op = "cons" -> [P EXCEPT !.cons = Reorder(P.cons, Swap(Len(P.cons), t.i, t.j))]
    [] t.op = "split" -> [P EXCEPT !.cons = Append([P.cons EXCEPT ![t.i] = Part(@, 1, t.k)], Part(P.cons[t.i], t.k + 1, OrderOf(P.cons[t.i])))]
    [] t.op = "merge" -> [P EXCEPT !.cons = Without([P.cons EXCEPT ![t.i] = MergeOf(P.cons[t.i], P.cons[t.j])], t.j)]
    [] t.op = "subst" -> [P EXCEPT !.b = [P.b EXCEPT ![t.j] = P.b[t.j] + t.k * P.b[t.i]], !.cons = Ivec(Len(P.cons), LAMBDA x : Substituted(P.cons[x], t.i, t.j, t.k))]
    [] t.op = "shift" -> [P EXCEPT !.b = Ivec(P.n, LAMBDA u : P.b[u] - t.k * CostColumn(P, u, t.i)), !.cons = Ivec(Len(P.cons), LAMBDA x : Shifted(P.cons[x], t.i, t.k))]
    [] t.op = "epi" -> LET c == P.cons[t.i] IN
                       [P EXCEPT !.n = P.n + 1, !.b = Append(P.b, -1),
                                 !.cons = [P.cons EXCEPT ![t.i] = IF t.k = 1 THEN EpiQuad(c, P.n + 1)
                                                                   ELSE [kind |-> "epi", A |-> <<>>, C |-> <<>>, Q |-> c.Q, vars |-> Append(c.vars, P.n + 1)]]]
(* the row (M, m) of the map for the old variable v, as a function of the new variables *)
Unit1(n, v) == Ivec(n, LAMBDA x : IF x = v THEN 1 ELSE 0)
StepRow(P, t, v) == LET n == IF t.op = "epi" THEN P.n + 1 ELSE P.n IN
  CASE t.op = "vars" -> <<Unit1(n, Swap(P.n, t.i, t.j)[v]), 0>>
    [] t.op = "subst" -> <<Ivec(n, LAMBDA x : IF x = v THEN 1 ELSE IF v = t.i /\ x = t.j THEN t.k ELSE 0), 0>>
    [] t.op = "shift" -> <<Unit1(n, v), IF v = t.i THEN t.k ELSE 0>>
    [] OTHER -> <<Unit1(n, v), 0>>
(* compose: y = M w + m with w = the map of the step *)
Compose(map, P, t) == LET n == IF t.op = "epi" THEN P.n + 1 ELSE P.n IN
  The({Ivec(Len(map), LAMBDA v : <<Ivec(n, LAMBDA x : HSum([u \in 1..P.n |-> map[v][1][u] * R[u][1][x]], P.n)),
                                   map[v][2] + HSum([u \in 1..P.n |-> map[v][1][u] * R[u][2]], P.n)>>)
       : R \in {Ivec(P.n, LAMBDA u : StepRow(P, t, u))}})
Identity(n) == Ivec(n, LAMBDA v : <<Unit1(n, v), 0>>)
Image(map, z) == Ivec(Len(map), LAMBDA v : map[v][2] + HSum([x \in 1..Len(z) |-> map[v][1][x] * z[x]], Len(z)))
(* twice the constant by which the objective of the old program exceeds that of the new one *)
StepOffset2(P, t) == IF t.op = "shift" THEN 2 * t.k * P.b[t.i] - t.k * t.k * CostColumn(P, t.i, t.i) ELSE 0
ClassOf(P, t) == CASE t.op \in {"arrow", "embed", "epi"} -> 3
                   [] t.op \in {"scale", "subst", "shift", "diag", "algebra", "socpair", "matsoc", "chol"} -> 2
                   [] t.op = "quadform" -> IF t.j = t.k THEN 1 ELSE 2
                   [] t.op \in {"rows", "merge"} -> IF IsMatrixKind(P.cons[t.i]) THEN 2 ELSE 1
                   [] OTHER -> IF Is(P, {"herm"}) # {} THEN 2 ELSE 1
Max2(a, b) == IF a < b THEN b ELSE a
================================================================================
