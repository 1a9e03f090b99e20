------------------------------- MODULE TwoSided -------------------------------
(* Rows lb <= a.x <= ub and what they are converted to: equations a.x = b and inequalities a.x <= b. A row is        *)
(* [a, lb, ub]; bounds of magnitude Inf or more are infinite.                                                     *)
EXTENDS Integers, Sequences, TLC
Inf == 1000000000
Neg(a) == [i \in DOMAIN a |-> -a[i]]
IsEq(r) == r.lb = r.ub
HasUpper(r) == ~IsEq(r) /\ r.ub < Inf
HasLower(r) == ~IsEq(r) /\ r.lb > -Inf
EqsOf(r) == IF IsEq(r) THEN <<[a |-> r.a, b |-> r.ub]>> ELSE <<>>
LesOf(r) == (IF HasUpper(r) THEN <<[a |-> r.a, b |-> r.ub]>> ELSE <<>>) \o (IF HasLower(r) THEN <<[a |-> Neg(r.a), b |-> -r.lb]>> ELSE <<>>)
RECURSIVE Eqs(_), Les(_), DotTo(_, _, _)
Eqs(rows) == IF rows = <<>> THEN <<>> ELSE EqsOf(Head(rows)) \o Eqs(Tail(rows))
Les(rows) == IF rows = <<>> THEN <<>> ELSE LesOf(Head(rows)) \o Les(Tail(rows))
DotTo(a, x, n) == IF n = 0 THEN 0 ELSE a[n] * x[n] + DotTo(a, x, n - 1)
Val(a, x) == DotTo(a, x, Len(a))
Meets(r, x) == r.lb <= Val(r.a, x) /\ Val(r.a, x) <= r.ub
InOriginal(rows, x) == \A i \in 1..Len(rows) : Meets(rows[i], x)
InConverted(rows, x) == /\ \A i \in 1..Len(Eqs(rows)) : Val(Eqs(rows)[i].a, x) = Eqs(rows)[i].b
                        /\ \A i \in 1..Len(Les(rows)) : Val(Les(rows)[i].a, x) <= Les(rows)[i].b
(* ------- the best point of a bounded set of the plane: points are <<p1, p2, q>>, meaning (p1/q, p2/q), q > 0 ------- *)
Det(a, c) == a[1] * c[2] - a[2] * c[1]
Cross(e, f) == LET d == Det(e.a, f.a)  u == e.b * f.a[2] - e.a[2] * f.b  v == e.a[1] * f.b - e.b * f.a[1] IN
               IF d > 0 THEN <<u, v, d>> ELSE <<-u, -v, -d>>
AtMost(e, p) == e.a[1] * p[1] + e.a[2] * p[2] <= e.b * p[3]
AtExactly(e, p) == e.a[1] * p[1] + e.a[2] * p[2] = e.b * p[3]
Lines(rows) == LET E == Eqs(rows)  L == Les(rows) IN {E[i] : i \in 1..Len(E)} \cup {L[i] : i \in {j \in 1..Len(L) : L[j].b < 1000}}
Vertices(rows) ==
  LET E == TLCEval(Eqs(rows))  L == TLCEval(Les(rows))  N == TLCEval(Lines(rows)) IN
  {p \in {Cross(x[1], x[2]) : x \in {z \in N \X N : Det(z[1].a, z[2].a) # 0}} :
     (\A i \in 1..Len(E) : AtExactly(E[i], p)) /\ (\A i \in 1..Len(L) : AtMost(L[i], p))}
(* is there a point strictly inside of all inequalities? (the mean of the corners is) *)
HasInside(rows, V) == LET L == Les(rows) IN V # {} /\ \A i \in 1..Len(L) : \E p \in V : ~AtExactly(L[i], p)
Regular(rows) == LET E == Eqs(rows) IN /\ \A i, j \in 1..Len(E) : i < j => Det(E[i].a, E[j].a) # 0
                                       /\ \A i \in 1..Len(E) : E[i].a # <<0, 0>>
===============================================================================
