----------------------------- MODULE Registration -----------------------------
(* Registering constraints and costs with a program. An add call names a kind, the way the object is passed,   *)
(* and either no variables (all of the program's) or a list of them. It succeeds exactly when the list does    *)
(* not repeat a variable and names only the program's; then one constraint over these variables is appended,   *)
(* and an equality constraint receives one fresh multiplier per row. Otherwise nothing changes.                *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
ValidVars(n, vars) == /\ Cardinality(SetOf(vars)) = Len(vars)
                      /\ \A i \in 1..Len(vars) : vars[i] \in 0..(n - 1)
All(n) == [i \in 1..n |-> i - 1]
VarsOf(n, a) == IF a.how = "all" THEN All(n) ELSE a.vars
(* A quadratic cost whose matrix does not match its variables is refused as well. *)
Accepts(n, a) == ValidVars(n, VarsOf(n, a)) /\ a.misfit = 0
RowsOf(a) == IF a.kind = "eq" THEN a.rows ELSE 0

(* cons: sequence of [kind, vars, duals] *)
Multipliers(cons) == UNION {SetOf(cons[i].duals) : i \in 1..Len(cons)}
Added(n, cons, a) ==
  IF ~Accepts(n, a) THEN cons
  ELSE LET base == n + Cardinality(Multipliers(cons)) IN
       Append(cons, [kind |-> a.kind, vars |-> VarsOf(n, a), duals |-> [i \in 1..RowsOf(a) |-> base + i - 1]])
SizeOfSystem(n, cons) == n + Cardinality(Multipliers(cons))
=============================================================================
