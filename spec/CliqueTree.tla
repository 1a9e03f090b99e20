----------------------------- MODULE CliqueTree -----------------------------
(* The elimination structure of a sparse symmetric matrix given by variable groups ("cliques").            *)
(*                                                                                                         *)
(* First part: what a valid structure is (used by the trace specification SymbolicTrace on the structures  *)
(* computed by the code). Second part: the design, i.e. the algorithm "root a spanning forest, split every *)
(* clique along its edge to its parent, then restore the running intersection property by filling the      *)
(* tree path between two cliques that both claim a variable", as a state machine with one step per claim.  *)
(* TLC checks that every run of it, for every family, every tree and every elimination order that          *)
(* eliminates children first, ends in a valid structure.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* --------------------------------- validity --------------------------------- *)
SeqRange(s) == {s[i] : i \in DOMAIN s}
Pairs(S) == {{a, b} : a, b \in S}

(* position of every variable in the elimination order: cliques in `order`, variables ascending inside *)
RECURSIVE Flatten(_, _)
Flatten(seqs, n) == IF n = 0 THEN <<>> ELSE Flatten(seqs, n - 1) \o seqs[n]
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})

ElimSeq(order, sn) == Flatten([i \in 1..Len(order) |-> Ascending(sn[order[i]])], Len(order))
PosIn(seq, v) == CHOOSE i \in DOMAIN seq : seq[i] = v

(* storage: the blocks (supernode x supernode) and (supernode x separator) of every clique *)
Stored(sn, sep, n) ==
  UNION {Pairs(sn[c]) \cup {{a, b} : a \in sn[c], b \in sep[c]} : c \in 1..n}

(* symbolic elimination: the fill-in graph *)
RECURSIVE Eliminate(_, _, _)
Eliminate(E, seq, k) ==
  IF k > Len(seq) THEN E
  ELSE LET v == seq[k]
           later == {seq[i] : i \in (k + 1)..Len(seq)}
           nb == {w \in later : {v, w} \in E}
       IN Eliminate(E \cup Pairs(nb), seq, k + 1)

(* cl: the cliques as sets; order: permutation of 1..n; sn, sep: supernode and separator sets per clique *)
StructureFaults(cl, order, sn, sep) ==
  LET n == Len(cl)
      V == UNION {cl[c] : c \in 1..n}
      seq == ElimSeq(order, sn)
      rank == [c \in 1..n |-> CHOOSE i \in 1..n : order[i] = c]
  IN IF ~(Len(order) = n /\ SeqRange(order) = 1..n) THEN {"order is not a permutation of the cliques"}
     ELSE IF ~(Len(sn) = n /\ Len(sep) = n) THEN {"wrong number of supernodes"}
     ELSE IF ~(UNION {sn[c] : c \in 1..n} = V /\ \A a, b \in 1..n : a # b => sn[a] \cap sn[b] = {})
          THEN {"supernodes do not partition the variables"}
     ELSE (IF \A c \in 1..n : sn[c] \cap sep[c] = {} THEN {} ELSE {"separator meets its own supernode"})
       \cup (IF \A c \in 1..n : cl[c] \subseteq sn[c] \cup sep[c] THEN {} ELSE {"clique not covered"})
       \cup (IF \A c \in 1..n : \A v \in sep[c] : \E d \in 1..n : v \in sn[d] /\ rank[d] > rank[c]
             THEN {} ELSE {"separator variable eliminated too early"})
       \cup (IF \A c \in 1..n : \A a, b \in sep[c] : {a, b} \in Stored(sn, sep, n)
             THEN {} ELSE {"separator pair has no storage"})
       \cup (IF Eliminate(UNION {Pairs(cl[c]) : c \in 1..n}, seq, 1) \subseteq Stored(sn, sep, n)
             THEN {} ELSE {"fill-in has no storage"})

(* ---------------------------------- design ---------------------------------- *)
CONSTANTS NumCliques, NumVars

VARIABLES fam,      \* the family of cliques: 1..NumCliques -> nonempty subsets of 1..NumVars
          parent,   \* rooted forest on the cliques
          todo,     \* (clique, variable) claims not processed yet, as a sequence
          owner,    \* variable -> clique that eliminates it (0: nobody yet)
          sepr      \* separators
vars == <<fam, parent, todo, owner, sepr>>

Cliques == 1..NumCliques
RECURSIVE Depth(_, _)
Depth(p, c) == IF p[c] = c THEN 0 ELSE 1 + Depth(p, p[c])
RECURSIVE PathUp(_, _, _)
PathUp(p, x, y) ==    \* cliques on the tree path from x to y, the meeting point last
  IF x = y THEN <<x>>
  ELSE IF Depth(p, x) < Depth(p, y) THEN <<y>> \o PathUp(p, x, p[y])
  ELSE <<x>> \o PathUp(p, p[x], y)

Splits(f, p) == [c \in Cliques |-> IF p[c] = c THEN {} ELSE f[c] \cap f[p[c]]]
(* cliques n, n-1, ..., 1 are eliminated in this order; parents have smaller numbers *)
ElimOrder == [i \in 1..NumCliques |-> NumCliques + 1 - i]

Claims(f, p) ==
  Flatten([i \in 1..NumCliques |->
     LET c == ElimOrder[i] IN [k \in 1..Cardinality(f[c] \ Splits(f, p)[c]) |->
                                  <<c, Ascending(f[c] \ Splits(f, p)[c])[k]>>]], NumCliques)

(* two cliques in different trees share no variable *)
RECURSIVE RootOf(_, _)
RootOf(p, c) == IF p[c] = c THEN c ELSE RootOf(p, p[c])

Init == /\ fam \in [Cliques -> (SUBSET (1..NumVars)) \ {{}}]
        /\ parent \in {p \in [Cliques -> Cliques] : \A c \in Cliques : p[c] <= c}
        /\ \A a, b \in Cliques : RootOf(parent, a) # RootOf(parent, b) => fam[a] \cap fam[b] = {}
        /\ todo = Claims(fam, parent)
        /\ owner = [v \in 1..NumVars |-> 0]
        /\ sepr = Splits(fam, parent)

Claim == /\ todo # <<>> /\ owner[Head(todo)[2]] = 0
         /\ owner' = [owner EXCEPT ![Head(todo)[2]] = Head(todo)[1]]
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<fam, parent, sepr>>

Conflict == /\ todo # <<>> /\ owner[Head(todo)[2]] # 0
            /\ LET c == Head(todo)[1]
                   v == Head(todo)[2]
                   path == PathUp(parent, c, owner[v])
                   top == path[Len(path)]
               IN /\ sepr' = [e \in Cliques |-> IF e # top /\ e \in SeqRange(path) THEN sepr[e] \cup {v}
                                                ELSE sepr[e]]
                  /\ owner' = [owner EXCEPT ![v] = top]
            /\ todo' = Tail(todo)
            /\ UNCHANGED <<fam, parent>>

Next == Claim \/ Conflict
Spec == Init /\ [][Next]_vars

Supernodes == [c \in Cliques |-> {v \in 1..NumVars : owner[v] = c}]
Valid == todo = <<>> => StructureFaults(fam, ElimOrder, Supernodes, sepr) = {}
(* a variable, once claimed, stays claimed, and its owner only moves towards the root *)
OwnerMovesUp == [][\A v \in 1..NumVars : owner[v] # 0 => owner'[v] # 0 /\ owner'[v] <= owner[v]]_vars
=============================================================================
