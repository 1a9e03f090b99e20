-------------------------------- MODULE Options --------------------------------
(* The options of the solver: names, values worth trying (as decimal text), and how a configuration follows from     *)
(* calls: filling in the defaults resets everything, setting an option changes that option and no other.           *)
EXTENDS Integers, Sequences
Default == "default"
Values == [prepare_dual_variables |-> <<"1">>, initialization_mode |-> <<"1">>, inv_sqrt_mu_max |-> <<"30", "100.5", "3">>, minimum_mu |-> <<"0.001">>,
           maximum_mu |-> <<"0.5", "100", "1e7">>, divergence_upper_bound |-> <<"0.25", "3.5", "-1">>, enable_line_search |-> <<"1">>,
           dinf_upper_bound |-> <<"0.3", "2.5">>, final_centering_steps |-> <<"0", "1", "12">>, final_centering_tolerance |-> <<"0.9", "1e-6", "0">>,
           initial_centering_steps_warmstart |-> <<"1", "4">>, initial_centering_steps_coldstart |-> <<"1", "3">>,
           warmstart_abort_threshold |-> <<"0", "0.5", "1000">>, max_iterations |-> <<"0", "1", "3", "7", "60">>,
           iterative_refinement_iterations |-> <<"1", "4">>, infeasibility_threshold |-> <<"0.01", "1", "5000">>,
           kkt_error_tolerance |-> <<"-1", "0", "1e-3", "1">>, enable_rescaling |-> <<"0">>, kkt_solver |-> <<"1", "2">>]
Names == DOMAIN Values
Cleared == [o \in Names |-> Default]
With(cfg, o, v) == [cfg EXCEPT ![o] = v]
(* quadratic costs are accepted with these settings only *)
ForQuadratic(cfg) == [cfg EXCEPT !.enable_line_search = "1", !.enable_rescaling = "0"]
Listing(cfg) == {<<o, cfg[o]>> : o \in {p \in Names : cfg[p] # Default}}
================================================================================
