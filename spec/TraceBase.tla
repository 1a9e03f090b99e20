------------------------------ MODULE TraceBase ------------------------------
(* Shared by all trace specifications: the recorded trace and small helpers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")

Range(s) == {s[i] : i \in DOMAIN s}
Has(r, f) == f \in DOMAIN r
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])

Big == 1000000000   \* what the harness writes for NaN, infinities and out-of-range numbers

(* |a - b| <= tol, for values that may be the Big sentinel *)
Near(a, b, tol) == /\ Abs(a) < Big /\ Abs(b) < Big
                   /\ a - b <= tol /\ b - a <= tol

(* A set of the names of the failed clauses, from a set of <<name, holds>> pairs. *)
Failed(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}

(* Report a rejected record without stopping, so that the rest is still checked. *)
Report(l, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l]["case"], bad>>)

Unexpected == {"crash", "exception", "garbled", "timeout"}
TraceLen == Len(Trace)
TraceConsumed == TLCGet("stats").diameter = TraceLen + 1
=============================================================================
