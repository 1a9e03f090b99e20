------------------------------ MODULE ConeTrace ------------------------------
(* One constraint as a state machine over its scaling point w (numerators w over wd; v is a known root,        *)
(* w = Q(v)e, or empty). Actions: identity, set, affine update, damped geodesic step; observations: Newton      *)
(* data, norms of the Newton direction, spectrum of the weighted slack, the multiplier. Checks C07 and C19.     *)
EXTENDS TraceBase, ConeData

VARIABLES l, st
vars == <<l, st>>

NoState == [c |-> [kind |-> "none"], w |-> <<>>, wd |-> 1, v |-> <<>>, apx |-> 0]
TraceInit == l = 1 /\ st = NoState

MaxAbs(c, x) == MaxOf({0} \cup
   (IF IsMatrixKind(c) THEN {Abs(x[k][i][j]) : k \in 1..Dim(x), i \in 1..Rows(x), j \in 1..Cols(x)}
    ELSE {Abs(x[i]) : i \in 1..Len(x)}))
SumAbs(c, x) ==
   IF IsMatrixKind(c)
   THEN HSum([k \in 1..Dim(x) |-> HSum([i \in 1..Rows(x) |-> HSum([j \in 1..Cols(x) |-> Abs(x[k][i][j])], Cols(x))], Rows(x))], Dim(x))
   ELSE 2 * HSum([i \in 1..Len(x) |-> Abs(x[i])], Len(x))

(* -------------------------------------------------------------- Newton data *)
PriorG(i, j) == 2 + 3 * (i + j - 2) + (i - 1) * (j - 1)
Prior(r, x) == IF r.init THEN 0 ELSE x

SchurBad(s, r) ==
  LET c == s.c IN
  IF c.kind \in {"eq", "cost"} THEN
    LET E == PlainData(c)
        N == Len(E.AW)
    IN Failed({<<"block", r.G = [i \in 1..N |-> [j \in 1..i |-> E.G[i][j] + Prior(r, PriorG(i, j))]]>>,
               <<"AW", r.AW = [i \in 1..N |-> E.AW[i] + Prior(r, 6 + i)]>>,
               <<"AQc", r.AQc = [i \in 1..N |-> E.AQc[i] + Prior(r, 2 * i - 6)]>>,
               <<"<w,c>", r.wc = Prior(r, 3)>>,
               <<"<c,Qc>", r.cqc = Prior(r, -5)>>})
  ELSE
    \* everything scaled by twice the denominator of w (squared where w enters twice)
    LET m == Len(c.A)
        wd == s.wd
        slack == IF wd = 1 THEN 0 ELSE 1000
        N(a, b) == Near(a, b, IF slack = 0 THEN 0 ELSE 2 + Abs(b) \div 1000000)
        apx(i) == 2 + (SumAbs(c, c.A[i]) * MaxAbs(c, s.w) * 2 * s.apx) \div 1000
        apc == 2 + (SumAbs(c, c.C) * MaxAbs(c, s.w) * 2 * s.apx) \div 1000
    IN Failed(
       {<<"scale of the recording", r.s1 = 2 * wd /\ r.s2 = 2 * wd * wd>>}
       \cup IF s.apx > 0 THEN
         {<<"AW", \A i \in 1..m : Near(r.AW[i], 2 * Ip(c, c.A[i], s.w) + Prior(r, (6 + i) * r.s1), apx(i))>>,
          <<"<w,c>", Near(r.wc, 2 * Ip(c, c.C, s.w) + Prior(r, 3 * r.s1), apc)>>}
       ELSE
         UNION {{<<"block", \A i \in 1..m : \A j \in 1..i : N(r.G[i][j], E.G[i][j] + Prior(r, PriorG(i, j) * r.s2))>>,
                 <<"AW", \A i \in 1..m : N(r.AW[i], E.AW[i] + Prior(r, (6 + i) * r.s1))>>,
                 <<"AQc", \A i \in 1..m : N(r.AQc[i], E.AQc[i] + Prior(r, (2 * i - 6) * r.s2))>>,
                 <<"<w,c>", N(r.wc, E.wc + Prior(r, 3 * r.s1))>>,
                 <<"<c,Qc>", N(r.cqc, E.cqc - Prior(r, 5 * r.s2))>>} : E \in {Schur2(c, s.w)}})

(* ---------------------------------------------------- directions with integer data *)
(* squared norm of ew e + Q(w^1/2)(-s), from products with w only *)
DirSq(c, w, ms, ew) == ew * ew * RankOf(c) + 2 * ew * Ip(c, w, ms) + Ip(c, Q2(c, w, ms), ms) \div 2
DirTrace(c, w, ms, ew) == ew * RankOf(c) + Ip(c, w, ms)

(* t = 100 norm of an element with two eigenvalues of given sum and sum of squares *)
TwoEig(t, tr, sq) ==
  /\ t < 33000
  /\ Near(t * t - 100 * Abs(tr) * t + 5000 * (tr * tr - sq), 0, 2 * t + 100 * Abs(tr) + 2)
  /\ 2 * t >= 100 * Abs(tr) - 2

(* |t| is at most the root of q, up to rounding of t *)
AbsBelow(t, q) == Abs(t) <= 1 \/ (Abs(t) - 1) * (Abs(t) - 1) <= q

(* the Lanczos iteration of the dense cone starts from a column of the slack *)
ZeroColumn(x) == \E j \in 1..Cols(x) : \A i \in 1..Rows(x) : x[1][i][j] = 0

PrepBad(s, r) ==      \* scale 100
  LET c == s.c IN
  UNION {Failed(
     LET sq == DirSq(c, s.w, ms, 1)
         tr == DirTrace(c, s.w, ms, 1)
     IN {<<"squared norm", Near(r.nsq, 100 * sq, 1)>>,
         <<"norm", sq > 100000 \/
           CASE c.kind = "linear" -> Near(r.ninf, 100 * MaxOf({Abs(1 + s.w[i] * ms[i]) : i \in 1..Len(s.w)}), 0)
             [] IsSocKind(c) -> TwoEig(r.ninf, tr, sq)
             [] IsMatrixKind(c) ->
                  \/ Dim(s.w) = 8 \/ (c.kind = "psd" /\ ZeroColumn(ms))
                  \/ /\ r.ninf < 33000
                     /\ AbsBelow(r.ninf, 10000 * sq)
                     /\ RankOf(c) = 1 => Near(r.ninf, 100 * Abs(tr), 1)
                     /\ (c.kind = "herm" /\ RankOf(c) = 2) => TwoEig(r.ninf, tr, sq)>>})
     : ms \in {MinusSlack(c, r.y, r.cw)}}

EigBad(s, r) ==       \* scale 100; of s itself, not of the direction
  LET c == s.c IN
  UNION {Failed(
     LET sq == DirSq(c, s.w, ms, 0)
         tr == -DirTrace(c, s.w, ms, 0)
         small == Abs(r.lmin) < 33000 /\ Abs(r.lmax) < 33000
     IN {<<"trace", Near(r.trace, 100 * tr, 1)>>,
         <<"frobenius norm", Near(r.frob, 100 * sq, 1)>>,
         <<"extreme eigenvalues", sq > 100000 \/
           CASE c.kind = "linear" ->
                  /\ Near(r.lmin, -100 * MaxOf({s.w[i] * ms[i] : i \in 1..Len(s.w)}), 0)
                  /\ Near(r.lmax, -100 * MinOf({s.w[i] * ms[i] : i \in 1..Len(s.w)}), 0)
             [] IsSocKind(c) \/ (c.kind = "herm" /\ Dim(s.w) < 8 /\ RankOf(c) = 2) ->
                  /\ Near(r.lmin + r.lmax, 100 * tr, 2)
                  /\ small
                  /\ Near(r.lmin * r.lmin + r.lmax * r.lmax, 10000 * sq, 2 * (Abs(r.lmin) + Abs(r.lmax)) + 2)
                  /\ r.lmin <= r.lmax
             [] IsMatrixKind(c) ->
                  \/ Dim(s.w) = 8 \/ (c.kind = "psd" /\ ZeroColumn(ms))
                  \/ /\ r.lmin <= r.lmax
                     /\ small
                     /\ AbsBelow(r.lmin, 10000 * sq)
                     /\ AbsBelow(r.lmax, 10000 * sq)
                     /\ RankOf(c) = 1 => (Near(r.lmin, 100 * tr, 1) /\ Near(r.lmax, 100 * tr, 1))>>})
     : ms \in {MinusSlack(c, r.y, r.cw)}}

AffineNext(s, r) ==
  [s EXCEPT !.w = The({Add(s.c, Sc(s.c, 1 + r.ew, s.w), DivBy(s.c, 2, Q2(s.c, s.w, ms)))
                        : ms \in {MinusSlack(s.c, r.y, r.cw)}}),
            !.v = <<>>]

(* ------------------------------------------------------------- planted steps *)
(* The direction is ln 2 times the integer element p = Q(v)(A y)/den, because Q(v) C = den e.                 *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Plant(s, r) == DivBy(s.c, 2 * r.den, Q2(s.c, s.v, Comb(s.c, r.y, Len(s.c.A))))
PlantOk(s, r) ==
  /\ Q2(s.c, s.v, s.c.C) = Sc(s.c, 2 * r.den, UnitOf(s.c))
  /\ Q2(s.c, s.v, Comb(s.c, r.y, Len(s.c.A))) = Sc(s.c, 2 * r.den, Plant(s, r))
  /\ Sc(s.c, r.sd, DivBy(s.c, r.sd, Sc(s.c, r.sn, Plant(s, r)))) = Sc(s.c, r.sn, Plant(s, r)) \/ r.quarter
Root(k2) == CHOOSE k \in 0..50 : k * k = k2

(* exp(ln 2 q) as [num, den] *)
ExpOf(c, q) ==
  CASE c.kind = "linear" ->
         LET K == MaxOf({0} \cup {-q[i] : i \in 1..Len(q)})
         IN [num |-> [i \in 1..Len(q) |-> Pow2(q[i] + K)], den |-> Pow2(K)]
    [] IsSocKind(c) ->
         LET k == Root(Tail1(c, q, q))
             a == IF q[1] < 0 THEN 0 ELSE q[1]
             b == IF q[1] < 0 THEN -q[1] ELSE 0
         IN IF k = 0 THEN [num |-> [i \in 1..Len(q) |-> IF i = 1 THEN Pow2(a) ELSE 0], den |-> Pow2(b)]
            ELSE [num |-> [i \in 1..Len(q) |-> Pow2(a) * (IF i = 1 THEN k * (Pow2(2 * k) + 1) ELSE (Pow2(2 * k) - 1) * q[i])],
                  den |-> 2 * k * Pow2(k) * Pow2(b)]
    [] IsMatrixKind(c) ->
         LET t == HReTrace(q)
             m == IF t = 0 THEN 0 ELSE HInner(q, q) \div t
         IN IF m = 0 THEN [num |-> UnitOf(c), den |-> 1]
            ELSE IF m > 0 THEN [num |-> HAdd(HScale(m, UnitOf(c)), HScale(Pow2(m) - 1, q)), den |-> m]
            ELSE [num |-> HAdd(HScale(-m * Pow2(-m), UnitOf(c)), HScale(Pow2(-m) - 1, q)), den |-> -m * Pow2(-m)]
(* exp(ln2/4 q) for q = + or - an idempotent, over 10000 *)
ExpQuarter(c, q) ==
  IF HReTrace(q) > 0 THEN [num |-> HAdd(HScale(10000, UnitOf(c)), HScale(1892, q)), den |-> 10000]
  ELSE [num |-> HAdd(HScale(10000, UnitOf(c)), HScale(1591, q)), den |-> 10000]

StepNext(s, r) ==
  The({LET E == IF r.quarter THEN ExpQuarter(s.c, p) ELSE ExpOf(s.c, DivBy(s.c, r.sd, Sc(s.c, r.sn, p)))
       IN [s EXCEPT !.w = DivBy(s.c, 2, Q2(s.c, s.v, E.num)), !.wd = E.den, !.v = <<>>,
                    !.apx = CASE s.c.kind = "psd" -> 3
                              [] s.c.kind = "herm" -> 25
                              [] OTHER -> 0]
       : p \in {Plant(s, r)}})

Ln2 == 6931           \* scale 10000
Ln2Sq == 4805
StepBad(s, r) ==      \* scale 10000
  LET c == s.c IN
  UNION {Failed(
     {<<"planted data", PlantOk(s, r)>>,
      <<"squared norm", Near(r.nsq, Ln2Sq * Ip(c, p, p), 2 + Ip(c, p, p))>>,
      <<"norm",
        CASE c.kind = "linear" -> Near(r.ninf, Ln2 * MaxAbs(c, p), 2 + MaxAbs(c, p))
          [] IsSocKind(c) -> Near(r.ninf, Ln2 * (Abs(p[1]) + Root(Tail1(c, p, p))), 2 + Abs(p[1]) + Root(Tail1(c, p, p)))
          [] IsMatrixKind(c) ->
               LET t == HReTrace(p)
                   m == IF t = 0 THEN 0 ELSE Abs(HInner(p, p) \div t)
               IN \/ Dim(p) = 8
                  \/ IF c.kind = "herm" \/ RankOf(c) = 1 \/ (RankOf(c) >= 4 /\ t > 0)
                     THEN Near(r.ninf, Ln2 * m, 3 + m)
                     ELSE r.ninf <= Ln2 * m + 3 + m>>})
     : p \in {Plant(s, r)}}

(* --------------------------------------------------------------- multiplier *)
DualBad(s, r) ==
  LET c == s.c
      n == IF IsMatrixKind(c) THEN Rows(s.w) ELSE 0
      E == IF IsMatrixKind(c) THEN [t \in 1..(n * n) |-> s.w[1][((t - 1) % n) + 1][((t - 1) \div n) + 1]]
           ELSE IF IsSocKind(c) THEN VSc(2, LForm(c, s.w))
           ELSE s.w
      tol == IF s.apx = 0 THEN 1 ELSE 2 + (MaxAbs(c, s.w) * s.apx) \div 1000
  IN Failed({<<"size of the multiplier", r.size = Len(E)>>,
             <<"multiplier", Len(r.w) = Len(E) /\ \A i \in 1..Len(E) : Near(r.w[i], E[i], tol)>>})

Next(s, r) ==
  CASE r.k = "new" -> [NoState EXCEPT !.c = r.c]
    [] r.k = "identity" -> [s EXCEPT !.w = UnitOf(s.c), !.wd = 1, !.v = UnitOf(s.c), !.apx = 0]
    [] r.k = "setw" -> [s EXCEPT !.w = r.w, !.wd = 1, !.v = r.v, !.apx = 0]
    [] r.k = "affine" -> AffineNext(s, r)
    [] r.k = "step" -> StepNext(s, r)
    [] OTHER -> s

Bad(s, r) ==
  CASE r.k \in Unexpected -> {r.k}
    [] r.k = "new" -> Failed({<<"number of variables", r.vars = (IF r.c.kind \in {"eq", "cost"} THEN 0 ELSE Len(r.c.A))>>,
                              <<"rank", r.rank = (IF r.c.kind \in {"eq", "cost"} THEN 0 ELSE RankOf(r.c))>>})
    [] r.k = "setw" -> Failed({<<"root", r.v = <<>> \/ Q2(s.c, r.v, UnitOf(s.c)) = Sc(s.c, 2, r.w)>>})
    [] r.k = "schur" -> SchurBad(s, r)
    [] r.k = "prep" -> PrepBad(s, r)
    [] r.k = "eig" -> EigBad(s, r)
    [] r.k = "step" -> StepBad(s, r)
    [] r.k = "dual" -> DualBad(s, r)
    [] OTHER -> {}

TraceNext == /\ l <= TraceLen
             /\ Report(l, Bad(st, Trace[l]))
             /\ st' = (IF Trace[l].k \in Unexpected THEN st ELSE Next(st, Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
