---------------------------- MODULE SymbolicTrace ----------------------------
(* Accepts the elimination structures computed by the code iff they are valid in the sense of CliqueTree. *)
EXTENDS TraceBase

CT == INSTANCE CliqueTree WITH NumCliques <- 1, NumVars <- 1, fam <- 0, parent <- 0, todo <- 0, owner <- 0, sepr <- 0

VARIABLE l

Sets(ss) == [i \in 1..Len(ss) |-> Range(ss[i])]
OneBased(s) == [i \in 1..Len(s) |-> s[i] + 1]
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

PickFaults(r) ==
  LET cl == Sets(r.cliques) IN
  CT!StructureFaults(cl, OneBased(r.order), Sets(r.sn), Sets(r.sep))
  \cup Failed({<<"supernode or separator repeats a variable", \A i \in 1..Len(r.sn) :
                    Sorted(r.sn[i]) /\ Sorted(r.sep[i])>>,
               <<"requested root is not eliminated last", r.root >= 0 => r.order[Len(r.order)] = r.root>>})

(* The same structure after relabeling variables by elimination position. *)
DataFaults(r) ==
  LET n == Len(r.cliques)
      cl == Sets(r.cliques)
      V == UNION {cl[i] : i \in 1..n}
      N == Cardinality(V)
      perm == r.perm      \* original variable v is at position perm[v + 1]
      iperm == r.iperm
      off == [i \in 1..n |-> SumSeq([j \in 1..(i - 1) |-> r.size[j]])]
      snp == [i \in 1..n |-> Range(r.snodes[i])]
      sepp == [i \in 1..n |-> Range(r.seps[i])]
      back(S) == {iperm[x + 1] : x \in S}
      inv == [c \in 1..n |-> CHOOSE i \in 1..n : r.order[i] = c - 1]
      bijective == /\ r.N = N /\ Len(perm) = N /\ Len(iperm) = N
                   /\ \A v \in 0..(N - 1) : /\ perm[v + 1] \in 0..(N - 1)
                                            /\ iperm[v + 1] \in 0..(N - 1)
                                            /\ iperm[perm[v + 1] + 1] = v
  IN IF ~(Range(OneBased(r.order)) = 1..n /\ Len(r.order) = n) THEN {"order is not a permutation of the cliques"}
     ELSE IF ~bijective THEN {"relabeling is not a bijection"}
     ELSE IF \E i \in 1..n : ~(snp[i] \subseteq 0..(N - 1) /\ sepp[i] \subseteq 0..(N - 1))
          THEN {"label out of range"}
     ELSE CT!StructureFaults(cl, OneBased(r.order), [c \in 1..n |-> back(snp[inv[c]])],
                             [c \in 1..n |-> back(sepp[inv[c]])])
       \cup Failed({
         <<"supernode labels are not consecutive",
             \A i \in 1..n : r.snodes[i] = [k \in 1..r.size[i] |-> off[i] + k - 1]>>,
         <<"separator labels are not ascending", \A i \in 1..n : Sorted(r.seps[i])>>,
         <<"separator is not eliminated later", \A i \in 1..n : \A x \in sepp[i] : x >= off[i] + r.size[i]>>,
         <<"storage of a separator pair is wrong",
             \A i \in 1..n : \A k \in 1..Len(r.ss[i]) : r.ss[i][k].want = r.ss[i][k].got>>})

PathFaults(r) ==
  LET p == r.path
      par(x) == r.parent[x + 1]
      adj(a, b) == par(a) = b \/ par(b) = a
      up(x) == {x} \cup {y \in Range(r.parent) : \E k \in 1..Len(r.parent) : y = x}
      RECURSIVE Anc(_)
      Anc(x) == IF par(x) = x THEN {x} ELSE {x} \cup Anc(par(x))
      common == Anc(r.x) \cap Anc(r.y)
      lca == CHOOSE a \in common : \A b \in common : r.height[b + 1] <= r.height[a + 1]
      want == (Anc(r.x) \ common) \cup (Anc(r.y) \ common) \cup {lca}
  IN Failed({<<"path has wrong nodes", Range(p) = want /\ Len(p) = Cardinality(want)>>,
             <<"meeting point is not last", p[Len(p)] = lca>>})

Verdict(r) ==
  CASE r.k = "pick" -> PickFaults(r)
    [] r.k = "data" -> DataFaults(r)
    [] r.k = "path" -> PathFaults(r)
    [] OTHER -> {r.k}

TraceInit == l = 1
TraceNext == /\ l <= TraceLen
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
