---------------------------- MODULE OptionsSession ----------------------------
(* Sessions: options are filled in and set, and the program is solved with them. Mode "single": every option alone    *)
(* with every value, after a solve with the defaults (a warm start also sets the mode). "walk": random sessions.     *)
EXTENDS Options, FiniteSets, TLC, Json
CONSTANTS Mode, Depth
VARIABLES cfg, ops, qp
vars == <<cfg, ops, qp>>
Warm == {"initial_centering_steps_warmstart", "warmstart_abort_threshold"}
(* options that matter only with another one *)
Needs(o) == IF o \in Warm THEN <<"initialization_mode", "1">> ELSE IF o = "prepare_dual_variables" THEN <<"inv_sqrt_mu_max", "3">> ELSE IF o = "dinf_upper_bound" THEN <<"enable_line_search", "1">>
            ELSE IF o = "iterative_refinement_iterations" THEN <<"kkt_solver", "1">> ELSE <<>>
Cold(o, v) == [op |-> "set", o |-> o, v |-> v]
Solve(mode) == [op |-> "solve", mode |-> mode, cfg |-> Listing(cfg)]
Init == cfg = Cleared /\ ops = <<>> /\ qp \in (IF Mode = "single" THEN BOOLEAN ELSE {RandomElement({TRUE, FALSE, FALSE, FALSE})})
Sets(o) == <<>>
QpSets == <<Cold("enable_line_search", "1"), Cold("enable_rescaling", "0")>>
Begin == IF qp THEN ForQuadratic(Cleared) ELSE Cleared
Fill == /\ cfg' = Begin /\ qp' = qp
        /\ \E f \in {IF Mode = "single" THEN 255 ELSE RandomElement({0, 255, 7})} :
             ops' = ops \o <<[op |-> "defaults", fill |-> f]>> \o (IF qp THEN QpSets ELSE <<>>)
SetOne == \E o \in (IF Mode = "single" THEN Names ELSE {RandomElement(Names)}) :
          \E i \in (IF Mode = "single" THEN DOMAIN Values[o] ELSE {RandomElement(DOMAIN Values[o])}) :
             LET too == IF Mode # "single" THEN <<>> ELSE Needs(o) IN
             /\ cfg' = With(IF too = <<>> THEN cfg ELSE With(cfg, too[1], too[2]), o, Values[o][i])
             /\ ops' = ops \o (IF too = <<>> THEN <<>> ELSE <<Cold(too[1], too[2])>>) \o <<Cold(o, Values[o][i])>>
             /\ qp' = qp
Run == \E mode \in {IF Mode = "single" THEN "max" ELSE RandomElement({"max", "min"})} : ops' = Append(ops, Solve(mode)) /\ UNCHANGED <<cfg, qp>>
Kinds == [i \in 1..Len(ops) |-> ops[i].op]
Last == ops[Len(ops)].op
Solves == Cardinality({i \in DOMAIN ops : ops[i].op = "solve"})
Next ==
  IF Mode = "single" THEN
     IF ops = <<>> THEN Fill
     ELSE IF Last = "solve" /\ Solves = 1 THEN SetOne
     ELSE IF Solves = 2 THEN FALSE ELSE Run
  ELSE IF ops = <<>> THEN Fill
  ELSE Solves < Depth /\ \E k \in {RandomElement(1..10)} : IF k = 1 THEN Fill ELSE IF k < 7 THEN SetOne ELSE Run
Spec == Init /\ [][Next]_vars
Complete == Solves = (IF Mode = "single" THEN 2 ELSE Depth) /\ Last = "solve"
Emit == (ops # <<>> /\ Complete) => PrintT("@@" \o ToJson([ops |-> ops, qp |-> qp]))
(* what the calls say *)
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN Cleared
           ELSE IF ops[n].op = "defaults" THEN Cleared
           ELSE IF ops[n].op = "set" THEN [Upto(n - 1) EXCEPT ![ops[n].o] = ops[n].v]
           ELSE Upto(n - 1)
LastSetWins == Upto(Len(ops)) = cfg
OnlyNamed == \A o \in Names : cfg[o] # Default => \E i \in DOMAIN ops : ops[i].op = "set" /\ ops[i].o = o
===============================================================================
