---------------------------- MODULE NewtonSystem ----------------------------
(* What the Newton (KKT) system of a program is, and the protocol of the component that assembles, factors *)
(* and solves it. Matrices are exact integers. Used by the trace specification KKTTrace; NewtonSession     *)
(* generates the call sequences.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE NSum(_, _)
NSum(f, n) == IF n = 0 THEN 0 ELSE f[n] + NSum(f, n - 1)

IsEq(c) == c.kind = "eq"
Rows(c) == IF IsEq(c) THEN Len(c.A) ELSE 0
MultiplierStart(n, cons, i) == n + NSum([j \in 1..(i - 1) |-> Rows(cons[j])], i - 1)
SystemSize(n, cons) == MultiplierStart(n, cons, Len(cons) + 1)

(* position of variable g (0-based) in the variable list of c, or 0 *)
At(c, g) == IF \E p \in 1..Len(c.vars) : c.vars[p] = g THEN CHOOSE p \in 1..Len(c.vars) : c.vars[p] = g ELSE 0

(* contribution of constraint i to the entry (a, b) of the system, 0-based *)
Entry(n, cons, i, a, b) ==
  LET c == cons[i]
      s == MultiplierStart(n, cons, i)
      pa == At(c, a)
      pb == At(c, b)
      mult(x) == x >= s /\ x < s + Rows(c)
  IN IF IsEq(c) THEN
        IF mult(a) /\ pb > 0 THEN c.A[a - s + 1][pb]
        ELSE IF mult(b) /\ pa > 0 THEN c.A[b - s + 1][pa] ELSE 0
     ELSE IF pa = 0 \/ pb = 0 THEN 0
     ELSE IF c.kind = "probe" THEN c.G[pa][pb]
     ELSE IF c.kind = "quad" THEN c.Q[pa][pb]
     ELSE NSum([k \in 1..Len(c.A) |-> c.A[k][pa] * c.A[k][pb]], Len(c.A))

KKT(n, cons) ==
  LET N == SystemSize(n, cons) IN
  [a \in 1..N |-> [b \in 1..N |-> NSum([i \in 1..Len(cons) |-> Entry(n, cons, i, a - 1, b - 1)], Len(cons))]]

VecEntry(n, cons, i, a, which) ==
  LET c == cons[i]
      p == At(c, a)
      s == MultiplierStart(n, cons, i)
  IN IF IsEq(c) THEN IF which = "AQc" /\ a >= s /\ a < s + Rows(c) THEN c.c[a - s + 1] ELSE 0
     ELSE IF p = 0 THEN 0
     ELSE IF c.kind = "probe" THEN IF which = "AW" THEN c.AW[p] ELSE c.AQc[p]
     ELSE IF c.kind = "quad" THEN 0
     ELSE NSum([k \in 1..Len(c.A) |-> c.A[k][p] * (IF which = "AW" THEN 1 ELSE c.c[k])], Len(c.A))

Vector(n, cons, which) ==
  LET N == SystemSize(n, cons) IN
  [a \in 1..N |-> NSum([i \in 1..Len(cons) |-> VecEntry(n, cons, i, a - 1, which)], Len(cons))]

Scalar(cons, which) ==
  NSum([i \in 1..Len(cons) |->
     LET c == cons[i] IN
     IF c.kind = "probe" THEN IF which = "wc" THEN c.wc ELSE c.cqc
     ELSE IF c.kind = "lin" THEN NSum([k \in 1..Len(c.A) |-> IF which = "wc" THEN c.c[k] ELSE c.c[k] * c.c[k]],
                                       Len(c.A))
     ELSE 0], Len(cons))

(* ------------------------------ definiteness ------------------------------ *)
RECURSIVE Det(_)
Det(M) == LET m == Len(M) IN
  IF m = 0 THEN 1 ELSE IF m = 1 THEN M[1][1]
  ELSE NSum([j \in 1..m |->
         (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] *
         Det([a \in 1..(m - 1) |-> [b \in 1..(m - 1) |-> M[a + 1][IF b < j THEN b ELSE b + 1]]])], m)
Leading(M, k) == [a \in 1..k |-> [b \in 1..k |-> M[a][b]]]
IAbs(x) == IF x < 0 THEN -x ELSE x
Dominant(M) == \A i \in 1..Len(M) : M[i][i] > NSum([j \in 1..Len(M) |-> IF j = i THEN 0 ELSE IAbs(M[i][j])], Len(M))
(* "yes", "no" or "unknown" (singular, or too large to decide here) *)
Definite(M) ==
  IF Dominant(M) THEN "yes"
  ELSE IF \E i \in 1..Len(M) : M[i][i] < 0 THEN "no"
  ELSE IF \E i, j \in 1..Len(M) : M[i][i] * M[j][j] < M[i][j] * M[j][i] THEN "no"
  ELSE IF Len(M) > 4 THEN "unknown"
  ELSE LET minors == [k \in 1..Len(M) |-> Det(Leading(M, k))] IN
       IF \A k \in 1..Len(M) : minors[k] > 0 THEN "yes"
       ELSE LET f == CHOOSE k \in 1..Len(M) : minors[k] <= 0 /\ \A j \in 1..(k - 1) : minors[j] > 0
            IN IF minors[f] < 0 THEN "no" ELSE "unknown"
=============================================================================
