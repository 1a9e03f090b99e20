------------------------------ MODULE Assembly ------------------------------
(* Design of the assembly: once the elimination structure is known (CliqueTree), the cliques deposit their  *)
(* contributions into the block storage, last eliminated clique first. A clique assigns its supernode and   *)
(* its supernode/separator blocks and adds to the separator entries, which belong to cliques that already   *)
(* assigned theirs; when its supernode is the clique itself it writes the block directly. Contributions are *)
(* symbolic tokens, so the final storage says exactly who contributed to which entry. Storage starts with   *)
(* junk (a previous factorization), and a second round of factor + assemble must give the same result.      *)
EXTENDS CliqueTree
CONSTANT DirectRule   \* "exact": block written directly iff supernode = clique; "size": iff of equal size

VARIABLES cell,   \* stored pair -> set of tokens (clique numbers; 0 is junk)
          next,   \* how many cliques have been assembled in this round
          round
avars == <<vars, cell, next, round>>

Sup == Supernodes
AllPairs == {{a, b} : a, b \in 1..NumVars}
AInit == Init /\ cell = [p \in AllPairs |-> {0}] /\ next = 0 /\ round = 1

Build == todo # <<>> /\ Next /\ UNCHANGED <<cell, next, round>>

DiagPairs(c) == {{a, b} : a, b \in Sup[c]}
OffPairs(c) == {{a, b} : a \in Sup[c], b \in sepr[c]}
SepPairs(c) == {{a, b} : a, b \in sepr[c]}
Contributes(c, p) == p \subseteq fam[c]
Direct(c) == IF DirectRule = "exact" THEN Sup[c] = fam[c] ELSE Cardinality(Sup[c]) = Cardinality(fam[c])

(* the direct write maps the k-th variable of the clique to the k-th of the supernode *)
DirectTokens(c, p) ==
  LET s == Ascending(Sup[c])
      f == Ascending(fam[c])
      idx(v) == CHOOSE i \in DOMAIN s : s[i] = v
  IN IF {f[idx(v)] : v \in p} = p THEN {c} ELSE {0}

Assemble ==
  /\ todo = <<>> /\ next < NumCliques
  /\ LET c == next + 1     \* cliques are eliminated in the order n, ..., 1
     IN cell' = [p \in AllPairs |->
          IF p \in DiagPairs(c) THEN
             IF Direct(c) THEN DirectTokens(c, p) ELSE IF Contributes(c, p) THEN {c} ELSE {}
          ELSE IF p \in OffPairs(c) THEN
             IF Direct(c) THEN {} ELSE IF Contributes(c, p) THEN {c} ELSE {}
          ELSE IF p \in SepPairs(c) /\ ~Direct(c) /\ Contributes(c, p) THEN cell[p] \cup {c}
          ELSE cell[p]]
  /\ next' = next + 1
  /\ UNCHANGED <<vars, round>>

Factor ==  \* overwrites everything that is stored
  /\ next = NumCliques /\ round < 2
  /\ cell' = [p \in AllPairs |-> IF p \in Stored(Sup, sepr, NumCliques) THEN {0} ELSE cell[p]]
  /\ next' = 0 /\ round' = round + 1
  /\ UNCHANGED vars

ANext == Build \/ Assemble \/ Factor
ASpec == AInit /\ [][ANext]_avars

Assembled == (todo = <<>> /\ next = NumCliques) =>
   \A p \in Stored(Sup, sepr, NumCliques) : cell[p] = {c \in Cliques : p \subseteq fam[c]}
=============================================================================
