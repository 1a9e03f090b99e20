-------------------------------- MODULE Layout --------------------------------
(* Areas of a buffer: [owner, off, len], offsets counted in doubles. *)
EXTENDS Integers, Sequences
Inside(a, size) == a.off >= 0 /\ a.off + a.len <= size
Apart(a, b) == a.off + a.len <= b.off \/ b.off + b.len <= a.off
AllInside(areas, size) == \A i \in 1..Len(areas) : Inside(areas[i], size)
AllApart(areas) == \A i, j \in 1..Len(areas) : i < j => Apart(areas[i], areas[j])
Aligned(a) == a.off % 2 = 0          \* 16 bytes, which the vectorised maps require

(* The areas each part of a program needs, in order; every area but the statistics is padded to 4 doubles. *)
Pad(n) == IF n % 4 = 0 THEN n ELSE (n + 4) - (n % 4)
Needs(p) == CASE p.kind = "linear" -> <<p.n, p.n, p.n, p.n * p.m>>
              [] p.kind \in {"psd", "herm"} -> <<p.n * p.n, p.n * p.n, p.n * p.n>>
              [] p.kind = "soc" -> <<p.n, p.n, p.n, p.n, 1>>
              [] p.kind = "block" -> <<p.m, p.m, p.m * p.m>>
              [] p.kind = "system" -> <<p.m, p.m>>
              [] p.kind = "stats" -> <<p.n, p.n, 1, 1>>
Padded(p, x) == IF p.kind = "stats" THEN x ELSE Pad(x)
RECURSIVE PartSize(_, _)
PartSize(p, k) == IF k = 0 THEN 0 ELSE PartSize(p, k - 1) + Padded(p, Needs(p)[k])
SizeOfPart(p) == PartSize(p, Len(Needs(p)))
RECURSIVE BaseOf(_, _)
BaseOf(parts, i) == IF i = 1 THEN 0 ELSE BaseOf(parts, i - 1) + SizeOfPart(parts[i - 1])
TotalSize(parts) == BaseOf(parts, Len(parts) + 1)
(* Any number of parts, one after the other *)
RECURSIVE Lay(_, _)
Lay(parts, i) ==
  IF i = 0 THEN <<>>
  ELSE Lay(parts, i - 1) \o
       [k \in 1..Len(Needs(parts[i])) |-> [owner |-> i, off |-> BaseOf(parts, i) + PartSize(parts[i], k - 1),
                                           len |-> Needs(parts[i])[k], kind |-> parts[i].kind]]
=============================================================================
