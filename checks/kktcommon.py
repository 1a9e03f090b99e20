"""Sessions for C02 and C03: a program, then a TLC-generated history of assemble/factor/solve calls."""
import kktgen as g
import vlib

SESS = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS TypeOK SolvedAfterFactor Emit
CHECK_DEADLOCK FALSE
"""


def histories(ctx, depth):
    r = vlib.model_check(ctx, "NewtonSession", SESS % depth, 100)
    h = r.json_marks()
    if not h:
        raise vlib.CheckError("no histories generated")
    return sorted(h)


def session(rng, n, cons, hist, judge=True):
    N, K = g.size(n, cons), g.kkt(n, cons)
    lines = ["vars %d" % n] + [g.text(c) for c in cons] + ["init"]
    for op in hist:
        if op in ("solve", "solvein"):
            x = [rng.randint(-4, 4) for _ in range(N)]
            b = [sum(K[i][j] * x[j] for j in range(N)) for i in range(N)]
            op = "%s %d %d %s %s" % (op, judge, N, " ".join(map(str, x)), " ".join(map(str, b)))
        lines.append(op)
    return "\n".join(lines)


def validate(ctx, exe, progs, pid):
    """progs: list of (n, cons, hist, judge)"""
    cases = [session(ctx.rng, *p) for p in progs]
    res = vlib.run_cases(exe, cases)
    recs = [[{"k": "prog", "case": i, "n": p[0], "cons": p[1]}] + r for i, (p, r) in enumerate(zip(progs, res))]
    bad = vlib.validate(ctx, "KKTTrace", recs, 'CONSTANT Checks = "%s"\n' % pid)
    ctx.extra["programs"] = ctx.extra.get("programs", 0) + len(progs)
    ctx.sample(cases[0])
    for i, rec, why in bad:
        ctx.violation("session rejected: " + why, "case 0\n%s\nend\n# record %s" % (cases[i], str(rec)[:2000]))
    return bad
