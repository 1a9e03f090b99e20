-------------------------- MODULE RegistrationSession --------------------------
(* Histories of add calls. Exhaustive over small variable lists (Mode "small") or random (Mode "walk").        *)
EXTENDS Registration, TLC, Json
CONSTANTS N, Depth, Mode
VARIABLES cons, hist, prev
vars == <<cons, hist, prev>>
Kinds == IF Mode = "small" THEN {"lin", "eq", "quad"} ELSE {"lin", "soc", "lmi", "clmi", "dense", "qcone", "quad", "eq"}
Pick(S) == IF Mode = "small" THEN S ELSE {RandomElement(S)}
(* A valid list of variables, a list with a repetition, or one with a stranger. *)
Injections(k) == {q \in [1..k -> 0..(N - 1)] : \A i, j \in 1..k : i # j => q[i] # q[j]}
Good == TLCEval(RandomElement(UNION {{RandomElement(Injections(k))} : k \in {RandomElement(1..N)}}))
Rep(g, i, j) == TLCEval(SubSeq(g, 1, j) \o <<g[i]>> \o SubSeq(g, j + 1, Len(g)))
(* one index repeated anywhere (next to its twin or far from it), or one stranger *)
Spoilt == UNION {UNION {RandomElement({{[g EXCEPT ![i] = N]}, {[g EXCEPT ![i] = -1]}, {[g EXCEPT ![i] = N + 7]},
                                         {Rep(g, i, Len(g))}, {Rep(g, i, 0)}, {Rep(g, i, j)}, {Rep(g, i, j)}})
                          : i \in {RandomElement(1..Len(g))}, j \in {RandomElement(0..Len(g))}} : g \in {TLCEval(Good)}}
Lists == IF Mode = "small" THEN {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0, 0>>, <<0, 1, 0>>, <<0, N>>, <<-1>>}
         ELSE IF RandomElement(1..3) > 1 THEN {TLCEval(Good)} ELSE Spoilt
Call == [kind : Kinds, how : {"all"}, vars : {<<>>}, pass : {"r"}, rows : {1}, misfit : {0}]
Init == cons = <<>> /\ prev = <<>> /\ hist = <<>>
Add == \E kind \in Pick(Kinds), how \in Pick(IF Mode = "small" THEN {"list"} ELSE {"all", "list", "list"}), list \in Lists,
         pass \in Pick({"r", "l"}), rows \in Pick(IF Mode = "small" THEN {1, 2} ELSE 1..3),
         misfit \in Pick(IF Mode = "walk" /\ RandomElement(1..6) = 1 THEN {0, 1} ELSE {0}) :
         /\ Mode = "small" /\ rows > 1 => kind = "eq"
         /\ LET a == [kind |-> kind, how |-> how, vars |-> IF how = "all" THEN <<>> ELSE list, pass |-> pass, rows |-> IF kind = "eq" THEN rows ELSE 1,
                      misfit |-> IF kind = "quad" /\ how = "list" THEN misfit ELSE 0] IN
            /\ cons' = Added(N, cons, a) /\ hist' = Append(hist, a)
Next == Len(hist) < Depth /\ Add /\ prev' = cons
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
(* ---------------- design properties ---------------- *)
AllOrNothing == hist # <<>> => LET a == hist[Len(hist)] IN
  IF Accepts(N, a) THEN Len(cons) = Len(prev) + 1 ELSE cons = prev
EarlierKept == SubSeq(cons, 1, Len(prev)) = prev
MultipliersFresh == \A i, j \in 1..Len(cons) : i # j => SetOf(cons[i].duals) \cap SetOf(cons[j].duals) = {}
MultipliersNotVariables == \A i \in 1..Len(cons) : SetOf(cons[i].duals) \cap (0..(N - 1)) = {}
Contiguous == Multipliers(cons) = N..(SizeOfSystem(N, cons) - 1)
=============================================================================
