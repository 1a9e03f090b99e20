----------------------------- MODULE CApiSession -----------------------------
(* Call histories of the C interface. Mode "walk": random histories (TLC -simulate), arguments mixed from     *)
(* valid ones and ones that are out of range by a little or a lot. Mode "build": random histories of accepted *)
(* coefficient updates with overwriting and interleaving. Mode "small": exhaustive, small arguments, for the  *)
(* design properties below.                                                                                   *)
EXTENDS CApi, Json
CONSTANTS Depth, Mode
VARIABLES s, hist, prev, last
vars == <<s, hist, prev, last>>

Pick(S) == IF Mode = "small" THEN S ELSE {RandomElement(S)}
Ids == (IF Mode = "build" THEN {} ELSE {-1, Len(s.cons), Len(s.cons) + 3}) \cup (0..(Len(s.cons) - 1))
Null == IF Mode = "build" THEN {0} ELSE IF Mode = "small" THEN {0, 1} ELSE {0, 0 - 0, 1} \cap (IF RandomElement(1..12) = 1 THEN {1} ELSE {0})
Vals == IF Mode = "small" THEN {1, 0} ELSE -3..3
Idx(n) == IF Mode = "build" THEN 0..(n - 1) ELSE IF RandomElement(1..5) > 1 /\ n > 0 THEN 0..(n - 1) ELSE {-1, n, n + 1, 1000}

NewCall == \E op \in (IF Mode = "small" THEN NewOps
                      ELSE IF s.n = 0 /\ RandomElement(1..2) = 1 THEN {"setvars"}
                      ELSE LET k == RandomElement(1..13) IN
                           {<<"setvars", "lmi", "lmi", "lmi", "lmi", "soc", "soc", "soc", "lin", "lin", "lin", "quad", "quad">>[k]}) :
   LET big == IF op = "setvars" THEN (IF Mode = "small" THEN {0, 2} ELSE {-1, 0, 1, 2, 3, 4})
              ELSE IF Mode = "small" THEN {0, 1} ELSE {1, 2, 3, 4} \cup (IF RandomElement(1..4) = 1 THEN {-1, 0} ELSE {})
   IN \E a \in Pick(big), b \in Pick(IF op = "lmi" THEN (IF Mode = "small" THEN {1, 2, 3} ELSE {1, 2, 4, 8} \cup
          (IF RandomElement(1..4) = 1 THEN {0, 3, 16, -1} ELSE {})) ELSE {0}), p \in Pick(Null), q \in Pick(Null) :
      last' = [op |-> op, nullp |-> p, nullid |-> q, a |-> a, b |-> b]

Target == LET cid == RandomElement(Ids) IN cid
KOf(cid) == IF cid >= 0 /\ cid < Len(s.cons) THEN s.cons[cid + 1] ELSE Constraint("lin", 2, 1, <<0, 1>>)
Quads == {i \in 0..(Len(s.cons) - 1) : s.cons[i + 1].kind = "quad"}
Cones == {i \in 0..(Len(s.cons) - 1) : s.cons[i + 1].kind \notin {"quad", "dlmi"}}
Addressed(op) == IF Mode = "small" THEN Ids ELSE IF op = "qupd" THEN Quads ELSE IF Mode = "build" THEN Cones ELSE Ids
Upd(op) == \E cid \in Pick(Addressed(op)) :
  LET K == KOf(cid)
      rows == IF K.kind = "soc" THEN K.order + 1 ELSE K.order
      cols == IF K.kind \in {"lmi", "dlmi", "quad"} THEN K.order ELSE 1
  IN \E v \in Pick(Vals), var \in Pick(IF Len(K.vars) = 0 THEN {0, 2} ELSE Idx(Len(K.vars))), r \in Pick(Idx(rows)),
        c \in Pick(Idx(cols)), d0 \in Pick(Idx(K.dim)), p \in Pick(Null) :
     LET d == IF Mode = "build" /\ r = c THEN 0 ELSE d0 IN
     /\ op = "qupd" => K.kind = "quad"
     /\ last' = [op |-> op, nullp |-> p, cid |-> cid, v |-> v, var |-> var, r |-> r, c |-> c, d |-> d]

(* An update of an existing constraint in which at most one argument is just outside its range. *)
Edge == /\ Mode = "walk" /\ Len(s.cons) > 0
        /\ \E op \in {RandomElement({"upd", "upd", "aff"})}, cid \in {RandomElement(0..(Len(s.cons) - 1))} :
           LET K == s.cons[cid + 1]
               rows == IF K.kind = "soc" THEN K.order + 1 ELSE K.order
               cols == IF K.kind \in {"lmi", "dlmi", "quad"} THEN K.order ELSE 1
               At(lim, spoil) == IF spoil \/ lim < 1 THEN {lim, lim + 1, -1} ELSE 0..(lim - 1)
           IN \E which \in {RandomElement({"var", "r", "c", "d", "d", "none"})}, v \in {RandomElement(1..3)} :
              \E var \in {RandomElement(IF Len(K.vars) = 0 THEN {0, 2} ELSE At(Len(K.vars), which = "var"))},
                 r \in {RandomElement(At(rows, which = "r"))}, d \in {RandomElement(At(K.dim, which = "d"))} :
              \E c \in {RandomElement(At(cols, which = "c") \ (IF cols > 1 /\ which # "c" THEN {r} ELSE {}))} :
                 last' = [op |-> op, nullp |-> 0, cid |-> cid, v |-> v, var |-> var, r |-> r, c |-> c, d |-> d]
RandMat(n, sym) == LET f == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> RandomElement(-3..3)])]) IN
                   IF sym THEN [i \in 1..n |-> [j \in 1..n |-> IF i >= j THEN f[i][j] ELSE f[j][i]]] ELSE f
Flat(M) == [i \in 1..(Len(M) * Len(M)) |-> M[((i - 1) \div Len(M)) + 1][((i - 1) % Len(M)) + 1]]
Shot ==
  /\ Mode = "walk"
  /\ \/ \E order \in Pick(1..3), k \in Pick(1..3) :
          last' = [op |-> "sparse", order |-> order, vars |-> [i \in 1..k |-> RandomElement((0..3) \cup (IF RandomElement(1..8) = 1 THEN {-1, 9} ELSE {}))],
                   A |-> [i \in 1..k |-> Flat(RandMat(order, TRUE))], cc |-> Flat(RandMat(order, TRUE))]
     \/ s.n > 0 /\ \E order \in Pick(1..3) :
          last' = [op |-> "dense", order |-> order, A |-> [i \in 1..s.n |-> Flat(RandMat(order, TRUE))],
                   cc |-> Flat(RandMat(order, TRUE))]
     \/ s.n > 0 /\ \E order \in Pick(1..3) :
          last' = [op |-> "denselin", order |-> order,
                   A |-> [i \in 1..s.n |-> [j \in 1..order |-> RandomElement(-3..3)]],
                   cc |-> [j \in 1..order |-> RandomElement(-3..3)]]
     \/ \E m \in Pick(1..4) : last' = [op |-> "addquad", Q |-> [i \in 1..m |-> [j \in 1..m |-> 2 * RandomElement(-1..2)]]]
Solve == /\ Mode # "small" /\ Solvable(s) = TRUE   \* as a value: its witnesses are not branches
         /\ \E ls \in Pick({0, 1}), rs \in Pick({0, 1}), it \in Pick({1, 3, 10}) :
              last' = [op |-> "solve", ls |-> ls, rs |-> rs, it |-> it, b |-> TLCEval([i \in 1..s.n |-> RandomElement(-2..2)])]
HasQuad == Quads # {}
BuildStart == /\ Mode = "build"
              /\ IF s.n = 0 THEN \E a \in Pick(1..4) : last' = [op |-> "setvars", nullp |-> 0, nullid |-> 0, a |-> a, b |-> 0]
                 ELSE /\ Len(s.cons) < 3
                      /\ \E op \in Pick({"lmi", "soc", "lin", "quad"}), a \in Pick(1..3), b \in Pick({1, 2, 4, 8}) :
                         last' = [op |-> op, nullp |-> 0, nullid |-> 0, a |-> a, b |-> IF op = "lmi" THEN b ELSE 0]
Init == s = Empty /\ hist = <<>> /\ prev = Empty /\ last = [op |-> "none"]
Next == /\ Len(hist) < Depth
        /\ \E k \in (IF Mode = "small" THEN {0} ELSE {RandomElement(1..24)}) :
           CASE Mode = "small" -> NewCall \/ Upd("upd") \/ Upd("aff") \/ Upd("qupd") \/ Shot \/ Solve
             [] Mode = "build" -> IF s.n = 0 \/ Len(s.cons) = 0 \/ (k <= 5 /\ Len(s.cons) < 3) THEN BuildStart
                                  ELSE IF k <= 8 /\ Solvable(s) THEN Solve
                                  ELSE IF Cones = {} \/ (HasQuad /\ k > 19) THEN Upd("qupd") ELSE IF k <= 15 THEN Upd("upd") ELSE Upd("aff")
             [] OTHER -> IF s.n = 0 /\ k <= 15 THEN NewCall
                         ELSE IF Len(s.cons) = 0 THEN (IF k <= 3 THEN Upd("upd") ELSE IF k <= 5 THEN Upd("aff") ELSE IF k <= 9 /\ s.n > 0 THEN Shot ELSE NewCall)
                         ELSE IF k <= 6 THEN NewCall
                         ELSE IF k <= 8 /\ Solvable(s) THEN Solve
                         ELSE IF k <= 10 /\ s.n > 0 THEN Shot
                         ELSE IF k <= 12 THEN Upd("upd") ELSE IF k = 13 THEN Upd("aff")
                         ELSE IF k <= 15 /\ HasQuad THEN Upd("qupd") ELSE Edge
        /\ (Mode = "build" => Ok(s, last')) = TRUE
        /\ s' = Next1(s, last') /\ prev' = s /\ hist' = Append(hist, last')
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([h |-> hist, n |-> s.n, cons |-> s.cons]))
(* ---------------- design properties ---------------- *)
RefusedIsStutter == last.op # "none" /\ ~Ok(prev, last) => s = prev
IdIsNext == last.op \in {"lmi", "soc", "lin", "quad"} /\ Ok(prev, last) => Len(s.cons) = Len(prev.cons) + 1
EarlierUntouched == last.op \in NewOps \cup ShotOps => SubSeq(s.cons, 1, Len(prev.cons)) = prev.cons
OneConstraintUpdated == last.op \in UpdOps =>
   \A i \in 1..Len(prev.cons) : s.cons[i] # prev.cons[i] => i = last.cid + 1
Hermitian == \A i \in 1..Len(s.cons) : LET K == s.cons[i] IN K.kind = "lmi" =>
   \A r, c \in 0..(K.order - 1), d \in 0..(K.dim - 1) :
      LET sym(q) == q[Pos(K, r, c, d)] = IF d = 0 THEN q[Pos(K, c, r, d)] ELSE -q[Pos(K, c, r, d)] IN
      sym(K.c) /\ \A v \in 1..Len(K.A) : sym(K.A[v])
=============================================================================
