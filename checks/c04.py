"""C04: registering a constraint is all-or-nothing."""
import vlib

NOTE = ("the registration state machine is explored exhaustively by TLC for small programs; its histories (all of the "
        "small ones, random longer ones) are replayed, and TLC checks answers, registered variables, multipliers and "
        "system size after every call, and the solution against a program without the refused calls")
CFG = """SPECIFICATION Spec
CONSTANTS N=%d Depth=%d Mode="%s"
INVARIANTS %sAllOrNothing EarlierKept MultipliersFresh MultipliersNotVariables Contiguous
CHECK_DEADLOCK FALSE
"""


def line(a):
    return "add %s %s %s %d %d %d %s" % (a["kind"], a["how"], a["pass"], a["rows"], a["misfit"], len(a["vars"]),
                                         " ".join(map(str, a["vars"])))


def run(ctx):
    rng = ctx.rng
    hists = []
    r = vlib.model_check(ctx, "RegistrationSession", CFG % (2, 2, "small", "Emit "), 100)
    small = sorted(r.json_marks(), key=str)
    if ctx.thorough():
        vlib.model_check(ctx, "RegistrationSession", CFG % (2, 4, "small", ""), 1000, timeout=2500)
    else:
        small = rng.sample(small, min(len(small), 900))
    hists += [(2, h) for h in small]
    for n, depth, num, limit in ctx.pick([(1, 6, 60, 100), (3, 8, 150, 500), (5, 14, 100, 300)],
                                         [(1, 6, 200, 400), (3, 8, 1000, 4000), (5, 14, 1000, 3000), (7, 30, 300, 600)]):
        got = vlib.tlc("RegistrationSession", CFG % (n, depth, "walk", "Emit "), ctx.work,
                       args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(ctx.seed)]).json_marks()
        if not got:
            raise vlib.CheckError("no histories generated")
        rng.shuffle(got)
        hists += [(n, h) for h in got[:limit]]
    box = {"kind": "box", "how": "all", "pass": "r", "rows": 1, "misfit": 0, "vars": []}
    cases, args = [], []
    for n, h in hists:
        h = [box] + h      # every variable occurs, so that the program can be solved
        lines = ["start %d" % n]
        for i, a in enumerate(h):
            lines.append(line(a))
            if rng.random() < 0.15:
                lines.append("%s %d" % (rng.choice(["solve", "compare"]), rng.randint(0, 1)))
        lines.append("compare %d" % rng.randint(0, 1))
        cases.append("\n".join(lines))
        args.append(h)
    exe = vlib.build("h_reg", "asan")
    res = vlib.run_cases(exe, cases)
    recs = []
    for h, r in zip(args, res):
        k, out = 0, []
        for x in r:
            if x["k"] == "add":
                x = dict(x, args=h[k])
                k += 1
            out.append(x)
        recs.append(out)
    bad = vlib.validate(ctx, "RegistrationTrace", recs)
    ctx.extra["histories"] = len(cases)
    ctx.sample(cases[-1])
    for i, rec, why in bad:
        ctx.violation("registration: %s at %s" % (why, rec.get("args", rec["k"])),
                      "case 0\n%s\nend\n# record %s" % (cases[i], str(rec)[:1500]))
    ctx.assumptions += ["coefficients have as many columns as the constraint has variables",
                        "solutions are compared to 2e-3 with the random number generator reset before each solve"]
