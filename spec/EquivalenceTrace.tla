---------------------------- MODULE EquivalenceTrace ----------------------------
(* Outcomes of two formulations of one problem, solved with the same options.                                             *)
(* "pair": the base program (b, the costs H, the rank), the map back from the variables of the other one, and its class.   *)
(* "solve": the outcome of the base (u) and of the other (v), with the options that matter for the comparison:            *)
(*   mode "default": as configured by anyone;  "stop": few iterations;  "tight": converged to the central path;            *)
(*   must: the problem is known to have a solution that is found                                                          *)
EXTENDS TraceBase, FiniteSets
VARIABLES l, pair
TraceInit == l = 1 /\ pair = [k |-> "none"]
Sum(f, n) == LET RECURSIVE Go(_) Go(i) == IF i = 0 THEN 0 ELSE f[i] + Go(i - 1) IN Go(n)
Small(y) == \A i \in DOMAIN y : Abs(y[i]) <= 1000000
(* the point of the base, times 10^4 *)
Back(y) == [i \in 1..Len(pair.map) |-> 10000 * pair.map[i][2] + Sum([j \in 1..Len(y) |-> pair.map[i][1][j] * y[j]], Len(y))]
Spread(i) == Sum([j \in 1..Len(pair.map[i][1]) |-> Abs(pair.map[i][1][j])], Len(pair.map[i][1]))
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t * (1 + Spread(i)))
MaxAbs(a) == CHOOSE m \in {0} \cup {Abs(a[i]) : i \in 1..Len(a)} : \A i \in 1..Len(a) : Abs(a[i]) <= m
HY(y, v) == Sum([u \in 1..Len(y) |-> pair.H[v][u] * y[u]], Len(y))
(* twice the objective, times 10^4 *)
Obj2(y) == 2 * Sum([i \in 1..Len(y) |-> pair.b[i] * y[i]], Len(y)) - Sum([v \in 1..Len(y) |-> (y[v] \div 100) * (HY(y, v) \div 100)], Len(y))
Weight == Sum([i \in 1..Len(pair.b) |-> Abs(pair.b[i])], Len(pair.b))
Gap(r) == r.rank * (Min2(r.mu, 500000000) \div 60)
ObjTol(u, v) == 2 * (Gap(u) + Gap(v)) + 20 + 4 * Weight + Sum([i \in 1..Len(pair.b) |-> Sum([j \in 1..Len(pair.b) |-> Abs(pair.H[i][j])], Len(pair.b))], Len(pair.b)) * 1000
Close(a, b) == Near(a, b, 2 + (IF Abs(a) < 100000 THEN 0 ELSE Abs(a) \div 20000))
(* the rounds do not rest on a tie: those of the base with a slightly different cost (r.near) are the same                  *)
Stable(r) == \A q \in {r.near[i] : i \in DOMAIN r.near} : Len(q) = Len(r.u.ks) /\ \A i \in DOMAIN q : Close(r.u.ks[i], q[i])
SameIterates(u, v) ==
  {<<"status", u.ret = v.ret /\ u.solved = v.solved>>, <<"flags", u.pinf = v.pinf /\ u.dinf = v.dinf>>, <<"number of iterations", u.num = v.num>>,
   <<"barrier parameters", Len(u.ks) = Len(v.ks) /\ \A i \in DOMAIN u.ks : Close(u.ks[i], v.ks[i])>>,
   <<"point", (Small(u.y) /\ Small(v.y)) => NearAll(u.y, Back(v.y), 2 + MaxAbs(u.y) \div 2000)>>}
SameAnswer(u, v) ==
  {<<"status", u.solved = v.solved /\ u.ret = v.ret>>} \cup
  IF u.solved = 0 \/ v.solved = 0 \/ ~Small(u.y) \/ ~Small(v.y) THEN {}
  ELSE {<<"value", Near(Obj2(u.y), Obj2(Back(v.y)), ObjTol(u, v))>>}
Verdict(r) ==
  CASE r.k \in Unexpected -> {r.k}
    [] r.k = "pair" -> {}
    [] r.k = "solve" ->
       UNION {Failed((IF pair.cls = 1 /\ r.same = 1 /\ Stable(r) THEN SameIterates(u, v) ELSE {})
              \cup (IF r.mode = "stop" THEN {} ELSE SameAnswer(u, v))
              \cup (IF r.mode = "tight" /\ pair.cls <= 2 /\ u.solved = 1 /\ v.solved = 1 /\ Small(u.y) /\ Small(v.y)
                    THEN {<<"point on the central path", NearAll(u.y, Back(v.y), 30 + MaxAbs(u.y) \div 2000)>>} ELSE {})) : u \in {r.u}, v \in {r.v}}
    [] OTHER -> {r.k}
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ pair' = IF Trace[l].k = "pair" THEN Trace[l] ELSE pair
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, pair>>
=================================================================================
