-------------------------------- MODULE CApi --------------------------------
(* The C interface as a state machine. A program is the number of variables and the list of constraints     *)
(* with their exact integer coefficients; every call either performs its change or is refused and leaves     *)
(* the program as it was. The Newton data of a constraint at the identity is a function of the coefficients. *)
(* Used by CApiSession (generation of histories) and by CApiTrace (validation of recorded behaviour).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
DotSeq(a, b) == SumN([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Zeros(n) == [i \in 1..n |-> 0]

(* One constraint: kind; order (matrix order, cone order, rows); dim (hypercomplex); vars: its variables;    *)
(* A: one coefficient sequence per variable; c: affine coefficients. Matrices are flattened, see Pos.        *)
Size(kind, order, dim) == CASE kind \in {"lmi", "dlmi"} -> dim * order * order
                            [] kind = "soc" -> order + 1
                            [] kind = "lin" -> order
                            [] kind = "quad" -> order * order
Pos(K, r, c, d) == CASE K.kind \in {"lmi", "dlmi"} -> d * K.order * K.order + r * K.order + c + 1
                     [] K.kind = "quad" -> r * K.order + c + 1
                     [] OTHER -> r + 1
Constraint(kind, order, dim, vars) ==
  [kind |-> kind, order |-> order, dim |-> dim, vars |-> vars, born |-> 0,
   A |-> [i \in 1..Len(vars) |-> Zeros(Size(kind, order, dim))], c |-> Zeros(Size(kind, order, dim))]
AllVars(n) == [i \in 1..n |-> i - 1]

(* ------------------------------ which calls are accepted ------------------------------ *)
PtrOk(a) == a.nullp = 0 /\ a.nullid = 0
NewOk(s, a) ==
  CASE a.op = "setvars" -> a.nullp = 0 /\ a.a >= 1 /\ s.n = 0
    [] a.op = "lmi" -> PtrOk(a) /\ a.a >= 1 /\ a.b \in {1, 2, 4, 8} /\ (a.b = 8 => a.a <= 3)
    [] a.op = "soc" -> PtrOk(a) /\ a.a >= 1
    [] a.op = "lin" -> PtrOk(a) /\ a.a >= 1
    [] a.op = "quad" -> PtrOk(a)

HasId(s, cid) == cid >= 0 /\ cid < Len(s.cons)
EntryOk(K, v, r, c, d) ==
  CASE K.kind = "lmi" -> /\ d >= 0 /\ d < K.dim /\ r >= 0 /\ r < K.order /\ c >= 0 /\ c < K.order
                         /\ ~(v # 0 /\ r = c /\ d > 0)
    [] K.kind = "soc" -> d = 0 /\ c = 0 /\ r >= 0 /\ r <= K.order
    [] K.kind = "lin" -> d = 0 /\ c = 0 /\ r >= 0 /\ r < K.order
    [] K.kind = "quad" -> d = 0 /\ r >= 0 /\ r < K.order /\ c >= 0 /\ c < K.order
    [] K.kind = "dlmi" -> FALSE
(* Before the number of variables is known, cones accept coefficients of any variable. *)
VarOk(s, K, var) == var >= 0 /\ (var < Len(K.vars) \/ (s.n = 0 /\ K.kind \in {"lmi", "soc"}))
UpdOk(s, a) ==
  CASE a.op = "upd" -> /\ a.nullp = 0 /\ HasId(s, a.cid)
                       /\ LET K == s.cons[a.cid + 1] IN
                          K.kind # "quad" /\ EntryOk(K, a.v, a.r, a.c, a.d) /\ VarOk(s, K, a.var)
    [] a.op = "aff" -> a.nullp = 0 /\ HasId(s, a.cid) /\ EntryOk(s.cons[a.cid + 1], a.v, a.r, a.c, a.d)
    [] a.op = "qupd" -> a.nullp = 0 /\ HasId(s, a.cid) /\ EntryOk(s.cons[a.cid + 1], a.v, a.r, a.c, 0)
SetOf(q) == {q[i] : i \in 1..Len(q)}
VarsOk(s, vars) == Cardinality(SetOf(vars)) = Len(vars) /\ \A i \in 1..Len(vars) : vars[i] >= 0 /\ vars[i] < s.n
QuadVars(Q) == SelectSeq([i \in 1..Len(Q) |-> i - 1], LAMBDA i : Q[i + 1][i + 1] > 0)
ShotOk(s, a) == CASE a.op = "sparse" -> VarsOk(s, a.vars)
                  [] a.op = "addquad" -> VarsOk(s, QuadVars(a.Q))
                  [] OTHER -> TRUE
NewOps == {"setvars", "lmi", "soc", "lin", "quad"}
UpdOps == {"upd", "aff", "qupd"}
ShotOps == {"sparse", "dense", "denselin", "addquad"}
Ok(s, a) == CASE a.op \in NewOps -> NewOk(s, a)
              [] a.op \in UpdOps -> UpdOk(s, a)
              [] a.op \in ShotOps -> ShotOk(s, a)
              [] OTHER -> TRUE

(* ------------------------------ what an accepted call does ------------------------------ *)
(* Writes v at (r, c, d) and at its mirror image. *)
Written(K, seq, v, r, c, d) ==
  LET q == [seq EXCEPT ![Pos(K, r, c, d)] = v] IN
  IF K.kind = "lmi" THEN [q EXCEPT ![Pos(K, c, r, d)] = IF d = 0 THEN v ELSE -v] ELSE q
Extended(K, var) == IF var < Len(K.A) THEN K.A
                    ELSE K.A \o [i \in 1..(var + 1 - Len(K.A)) |-> Zeros(Size(K.kind, K.order, K.dim))]
Add(s, K) == [s EXCEPT !.cons = Append(@, K)]
Apply(s, a) ==
  CASE a.op = "setvars" -> [s EXCEPT !.n = a.a]
    [] a.op = "lmi" -> Add(s, Constraint("lmi", a.a, a.b, AllVars(s.n)))
    [] a.op = "soc" -> Add(s, Constraint("soc", a.a, 1, AllVars(s.n)))
    [] a.op = "lin" -> Add(s, Constraint("lin", a.a, 1, AllVars(s.n)))
    [] a.op = "quad" -> Add(s, Constraint("quad", s.n, 1, AllVars(s.n)))
    [] a.op = "upd" -> LET K == s.cons[a.cid + 1]
                           A == Extended(K, a.var)
                       IN [s EXCEPT !.cons[a.cid + 1].A =
                             [A EXCEPT ![a.var + 1] = Written(K, @, a.v, a.r, a.c, a.d)]]
    [] a.op = "aff" -> LET K == s.cons[a.cid + 1] IN
                       [s EXCEPT !.cons[a.cid + 1].c = Written(K, @, a.v, a.r, a.c, a.d)]
    [] a.op = "qupd" -> LET K == s.cons[a.cid + 1] IN
                        [s EXCEPT !.cons[a.cid + 1].c = Written(K, @, a.v, a.r, a.c, 0)]
    [] a.op = "sparse" -> Add(s, [Constraint("dlmi", a.order, 1, a.vars) EXCEPT !.A = a.A, !.c = a.cc])
    [] a.op = "dense" -> Add(s, [Constraint("dlmi", a.order, 1, AllVars(s.n)) EXCEPT !.A = a.A, !.c = a.cc])
    [] a.op = "denselin" -> Add(s, [Constraint("lin", a.order, 1, AllVars(s.n)) EXCEPT !.A = a.A, !.c = a.cc])
    [] a.op = "addquad" -> LET v == QuadVars(a.Q) IN
          Add(s, [Constraint("quad", Len(v), 1, v) EXCEPT !.c =
             [i \in 1..(Len(v) * Len(v)) |-> LET r == v[((i - 1) \div Len(v)) + 1]
                                                 c == v[((i - 1) % Len(v)) + 1]
                                             IN (a.Q[r + 1][c + 1] + a.Q[c + 1][r + 1]) \div 2]])
    [] OTHER -> s
Next1(s, a) == IF Ok(s, a) THEN Apply(s, a) ELSE s

(* ------------------------------ Newton data at the identity ------------------------------ *)
Factor(K) == IF K.kind = "soc" THEN 2 ELSE 1
Unit(K) == CASE K.kind \in {"lmi", "dlmi"} ->
                   [i \in 1..Size(K.kind, K.order, K.dim) |-> IF \E r \in 0..(K.order - 1) : Pos(K, r, r, 0) = i
                                                              THEN 1 ELSE 0]
             [] K.kind = "soc" -> [i \in 1..(K.order + 1) |-> IF i = 1 THEN 1 ELSE 0]
             [] OTHER -> [i \in 1..K.order |-> 1]
RankOf(K) == CASE K.kind = "soc" -> 2 [] K.kind = "quad" -> 0 [] OTHER -> K.order
GramEntry(K, i, j) == Factor(K) * DotSeq(K.A[i], K.A[j])
NewtonData(K) ==
  IF K.kind = "quad" THEN
    [G |-> [i \in 1..K.order |-> [j \in 1..K.order |-> K.c[(i - 1) * K.order + j]]], AW |-> Zeros(K.order),
     AQc |-> Zeros(K.order), wc |-> 0, cqc |-> 0]
  ELSE LET u == Unit(K) f == Factor(K) IN
    [G |-> [i \in 1..Len(K.A) |-> [j \in 1..Len(K.A) |-> GramEntry(K, i, j)]],
     AW |-> [i \in 1..Len(K.A) |-> f * DotSeq(K.A[i], u)], AQc |-> [i \in 1..Len(K.A) |-> f * DotSeq(K.A[i], K.c)],
     wc |-> f * DotSeq(K.c, u), cqc |-> f * DotSeq(K.c, K.c)]

(* A program can be solved when its variables are set and every constraint was created after that. *)
Covered(s) == \A v \in 0..(s.n - 1) : \E i \in 1..Len(s.cons) : \E p \in 1..Len(s.cons[i].vars) : s.cons[i].vars[p] = v
Solvable(s) == s.n >= 1 /\ Len(s.cons) >= 1 /\ Covered(s) /\ \A i \in 1..Len(s.cons) : Len(s.cons[i].vars) > 0
Empty == [n |-> 0, cons |-> <<>>]
=============================================================================
