----------------------------- MODULE HistoryTrace -----------------------------
(* Recorded sessions: every iteration of every solve must be a function of how its point was reached and of its    *)
(* label, so iterations (and outcomes) with equal names agree, whatever else happened. Steps taken by several      *)
(* short warm solves and by one long solve have equal names.                                                      *)
EXTENDS TraceBase, SolveHistory
VARIABLES l, s, mem, on
(* mem: what has been seen: [scal, pre, lab, from, ks, full, ret, y, mult, ...]                                     *)
TraceInit == l = 1 /\ s = HistoryInit /\ mem = <<>> /\ on = TRUE
Same(a, b, tol) == a = b \/ Near(a, b, tol + Abs(b) \div 20000)
SameSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i], tol)
SameMult(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameSeq(a[i], b[i], 20)
Untouched(r) == Len(r.y) > 0 /\ \A i \in DOMAIN r.y : r.y[i] = 770000
(* Matrices over the complex numbers and beyond use the generator of random numbers, which starts with the solve: *)
(* what they do after a restart has a name of its own.                                                             *)
Again(a) == IF a.random THEN <<s.inst[a.i].def, a.cost, a.okey, "again">> ELSE <<s.inst[a.i].def, a.cost, a.okey>>
Labels(a) == <<s.inst[a.i].def, a.cost, a.okey>>
ScalOf(a) == IF a.rescale THEN <<s.inst[a.i].def, a.cost>> ELSE <<>>
Begun(a) == Prepared(s, a.i, a.cold, a.limit, ScalOf(a))
(* the stretches of equal iterations that the solve has made *)
Parts(t, r) ==
  LET b == BufOf(t, r.args.i)
      one(pts, lab, ks) == [scal |-> b.scal, pre |-> Prefix(pts, lab), lab |-> lab, from |-> Count(pts, lab), ks |-> ks]
  IN IF r.args.abrt THEN <<one(b.pts, Labels(r.args), SubSeq(r.ks, 1, 1)), one(<<>>, Again(r.args), SubSeq(r.ks, 2, Len(r.ks)))>>
     ELSE <<one(b.pts, Labels(r.args), r.ks)>>
Compatible(e, p) == e.scal = p.scal /\ e.pre = p.pre /\ e.lab = p.lab
Agree(e, p) ==
  \A n \in (Max2(e.from, p.from) + 1)..Min2(e.from + Len(e.ks), p.from + Len(p.ks)) :
     Same(p.ks[n - p.from], e.ks[n - e.from], 1)
EndOf(p) == p.from + Len(p.ks)
(* A search for the first weight that fails leaves the previous weight, or half of it, which a new solve has not: the *)
(* name of the point does not tell where such a solve goes.                                                        *)
Sticky(r) ==
  LET k == r.ks  a == r.args
      from(i) == Same(k[i], k[i - 1], 2) \/ Same(2 * k[i], k[i - 1], 3)
  IN IF Len(k) = 0 THEN FALSE
     ELSE (~a.cold /\ Same(k[1], a.kmin, 1)) \/ (a.abrt /\ Len(k) > 1 /\ (from(2) \/ Same(k[2], a.kmin, 1)))
Entry(t, r) ==
  LET q == Parts(t, r)  p == q[Len(q)] IN
  [scal |-> p.scal, pre |-> p.pre, lab |-> p.lab, from |-> p.from, ks |-> p.ks, full |-> <<r.args.limit, r.args.abrt, r.args.cold, IF r.args.abrt THEN <<q[1].pre, q[1].lab, q[1].from>> ELSE <<>> >>, solved |-> r.solved,
   ret |-> r.ret, pinf |-> r.pinf, dinf |-> r.dinf, num |-> r.num, y |-> r.y, mult |-> r.mult, dual |-> r.args.dual /\ (Len(p.ks) > 0 \/ ~r.args.abrt),
   ended |-> ~Untouched(r) /\ (r.args.abrt => Len(r.ks) > 1)]
Broken(r) == \/ \E i \in DOMAIN r.y : Abs(r.y[i]) >= 1000000000
             \/ \E j \in DOMAIN r.mult : \E i \in DOMAIN r.mult[j] : Abs(r.mult[j][i]) >= 1000000000     \* past the end of the numbers
Reliable(t, r) == BufOf(t, r.args.i).known /\ ~Sticky(r) /\ ~r.args.foreign /\ ~Broken(r)
Judged(t, r) ==
  LET q == Parts(t, r)  e == Entry(t, r) IN
  UNION {UNION {IF ~Compatible(m, p) THEN {} ELSE Failed({<<"iterations differ from equal ones made before", Agree(m, p)>>}) : m \in Range(mem)} : p \in Range(q)}
  \cup UNION {
     IF ~Compatible(m, e) \/ EndOf(m) # EndOf(e) THEN {}
     ELSE (IF e.ended /\ m.ended THEN
             Failed({<<"the returned point differs from that of an equal run", SameSeq(e.y, m.y, 20)>>,
                     <<"the multipliers differ from those of an equal run", (e.dual /\ m.dual) => SameMult(e.mult, m.mult)>>})
           ELSE {})
          \cup IF m.full # e.full \/ m.from # e.from THEN {}
               ELSE Failed({<<"the status differs from that of an equal run", e.solved = m.solved /\ e.ret = m.ret>>,
                            <<"the flags differ from those of an equal run", e.pinf = m.pinf /\ e.dinf = m.dinf>>,
                            <<"the returned point differs from that of an equal run", SameSeq(e.y, m.y, 20)>>}) : m \in Range(mem)}
  \cup UNION {
     IF Compatible(m, e) /\ m.from = e.from /\ m.full = e.full
     THEN Failed({<<"the number of iterations differs from that of an equal run", e.num = m.num>>}) ELSE {} : m \in Range(mem)}
Refused(r) == r.num = 0 /\ r.args.refused
Verdict(r) ==
  IF r.k \in Unexpected THEN {r.k}
  ELSE IF r.k # "solve" THEN {}
  ELSE Failed({<<"the returned value is not the status", r.ret = (r.solved = 1)>>, <<"a solve that must be refused was not", ~r.args.refused \/ r.num = 0>>})
       \cup IF Refused(r) THEN Failed({<<"a refused solve reports an outcome", r.solved = 0 /\ r.pinf = 0 /\ r.dinf = 0>>})
            ELSE LET t == Begun(r.args) IN IF Reliable(t, r) /\ r.num > 0 THEN Judged(t, r) ELSE {}
After(r) ==
  IF Refused(r) THEN s
  ELSE LET a == r.args
           t == Begun(a)
           lab == Labels(a)
           u == IF a.abrt THEN Moved(Reset(t, a.i), a.i, Again(a), Len(r.ks) - 1) ELSE Moved(t, a.i, lab, Len(r.ks))
           v == IF a.dual THEN Moved(u, a.i, <<lab[1], lab[2], "multipliers">>, 1)   \* preparing multipliers moves the point to them
                ELSE u
       IN IF r.num = 0 \/ Untouched(r) \/ Sticky(r) \/ Broken(r) \/ a.foreign \/ (a.abrt /\ a.dual /\ Len(r.ks) = 1) THEN Lost(v, a.i) ELSE v
NextState(r) ==
  CASE r.k = "session" -> HistoryInit
    [] r.k = "new" -> NewInst(s, r.def, r.buf)
    [] r.k = "upd" -> Changed(s, r.args.i, r.args.id)
    [] r.k = "late" -> Enlarged(s, r.args.i, r.args.id)
    [] r.k = "feas" -> Prepared(s, r.args.i, TRUE, 25, <<>>)
    [] r.k = "solve" -> After(r)
    [] OTHER -> s
TraceNext ==
  /\ l <= TraceLen
  /\ LET r == Trace[l] IN
     /\ Report(l, IF on \/ r.k = "session" THEN Verdict(r) ELSE {})
     /\ on' = IF r.k = "session" THEN TRUE ELSE on /\ r.k \notin Unexpected
     /\ s' = IF r.k \in Unexpected \/ (~on /\ r.k # "session") THEN s ELSE NextState(r)
     /\ mem' = IF r.k = "session" THEN <<>>
               ELSE IF on /\ r.k = "solve" /\ ~Refused(r) /\ r.num > 0 /\ Reliable(Begun(r.args), r) THEN Append(mem, Entry(Begun(r.args), r)) ELSE mem
     /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s, mem, on>>
===============================================================================
