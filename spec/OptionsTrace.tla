----------------------------- MODULE OptionsTrace -----------------------------
(* Recorded sessions of the C interface, next to the same program solved in C++ with the configuration that the       *)
(* calls specify.                                                                                                *)
EXTENDS TraceBase, Options
VARIABLES l, cfg
TraceInit == l = 1 /\ cfg = Cleared
Same(a, b, tol) == a = b \/ Near(a, b, tol + Abs(b) \div 10000)
SameSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i], tol)
SameMult(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameSeq(a[i], b[i], 20)
(* past the end of the numbers, or unstable: judged by status only *)
Wild(x) == \/ \E i \in DOMAIN x.y : Abs(x.y[i]) >= 100000000
           \/ \E i \in DOMAIN x.ks : Abs(x.ks[i]) >= 900000000
SolveVerdict(r) ==
  LET c == r.c  x == r.cpp IN
  Failed({<<"the C++ configuration is not the specified one", {r.args.cfg[i] : i \in DOMAIN r.args.cfg} = Listing(cfg)>>,
          <<"the returned value differs", c.ret = x.ret>>,
          <<"the status differs", c.solved = x.solved /\ c.pinf = x.pinf /\ c.dinf = x.dinf>>,
          <<"the number of iterations differs", c.num = x.num>>})
  \cup IF Wild(c) /\ Wild(x) THEN {}
       ELSE Failed({<<"the barrier parameters differ", SameSeq(c.ks, x.ks, 2)>>,
                    <<"the solution differs", SameSeq(c.y, x.y, 20)>>,
                    <<"the multipliers differ", cfg.prepare_dual_variables = "1" => SameMult(c.mult, x.mult)>>})
DefaultsVerdict(r) ==
  {"default of " \o f \o " differs" : f \in {g \in DOMAIN r.cpp : ~Has(r.c, g) \/ r.c[g] # r.cpp[g]}}
  \cup Failed({<<"the options are not the specified ones", DOMAIN r.cpp = Names /\ DOMAIN r.c = Names>>})
Verdict(r) == IF r.k \in Unexpected THEN {r.k}
              ELSE IF r.k = "defaults" THEN DefaultsVerdict(r)
              ELSE IF r.k = "solve" THEN SolveVerdict(r)
              ELSE IF r.k = "refused" THEN {"a constraint was refused by one of the interfaces"} ELSE {}
NextCfg(r) == IF r.k = "defaults" THEN Cleared ELSE IF r.k = "set" THEN With(cfg, r.o, r.v) ELSE IF r.k = "session" THEN Cleared ELSE cfg
TraceNext == /\ l <= TraceLen /\ Report(l, Verdict(Trace[l])) /\ cfg' = NextCfg(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cfg>>
===============================================================================
