"""C09: the interior-point loop obeys its configured limits and centering protocol."""
import math

import conegen as g
import vlib

NOTE = ("all runs of a small family of configurations of the specified loop are explored by TLC; TLC-generated sessions (configuration, "
        "and per iteration the answers of the constraints) are replayed through the real solver with scripted constraints, and every "
        "call they receive and every status is checked by TLC to be a step of the specified loop")

ONE = 1000000
MODEL = ("CONSTANTS Mode=\"%s\" Solves=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
         "INVARIANTS IterationsBounded CenteringBounded BarrierInLimits LimitIsNotSolved FailedIsNotSolved SolvedIsCentered Emit\n")
QUIET = MODEL.replace(" Emit", "") + "VIEW View\n"
KINF = {3162: 1e5, 2 * ONE: .25, 19 * ONE: 1 / 361}


def session(rng, hist):
    """(case text, program record, solve configurations)"""
    n = rng.randint(1, 3)
    probes = rng.randint(1, 4)
    first = hist[0]["c"]
    vec = {1: [0, 0, 0], 4: rng.choice([[3, 0, 0], [-3, 0, 0], [2, -2, 1], [1, 2, 2], [-2, 1, -2]])}
    cut = lambda v: v[:n] if sum(x * x for x in v[:n]) in (0, 9) else [rng.choice([3, -3])] + [0] * (n - 1)
    b = cut(vec[first["nb"]])
    total = cut(vec[first["na"]])
    gs = [rng.choice([1, 2]) for _ in range(probes)]
    AQc, AW = [], []
    left = total[:]
    for i in range(probes):
        part = [rng.randint(-2, 2) for _ in range(n)] if i < probes - 1 else left
        left = [x - y for x, y in zip(left, part)]
        AQc.append(part)
        AW.append([rng.randint(-2, 2) for _ in range(n)])
    wc = [rng.randint(30, 50) if i == 0 else rng.randint(-3, 3) for i in range(probes)]
    if rng.random() < .3:
        wc[0] = -wc[0]
    cqc = [rng.choice([0, 1, 2]) for _ in range(probes)]
    rank = [rng.randint(1, 3) for _ in range(probes)]
    rank[0] += 7
    lines = ["n %d" % n]
    for i in range(probes):
        lines.append("probe %d %d %d %d %s %s" % (gs[i], rank[i], wc[i], cqc[i], g.ints(AW[i]), g.ints(AQc[i])))
    lines.append("cost " + g.ints(b))
    s = lambda x: [sum(c) for c in zip(*x)]
    prog = {"k": "prog", "probes": probes, "g": sum(gs), "b": b, "AQc": total, "AW": s(AW), "wc": sum(wc), "cqc": sum(cqc)}
    cfgs = []
    for h in hist:
        c = dict(h["c"])
        c["dub"] = rng.choice([ONE, 500000, 2500000])
        lines.append("defaults")
        for name, v in [("max_iterations", c["maxit"]), ("final_centering_steps", c["fcs"]),
                        ("initial_centering_steps_warmstart", c["icw"]), ("initial_centering_steps_coldstart", c["icc"]),
                        ("final_centering_tolerance", c["tol"] / ONE), ("warmstart_abort_threshold", c["abort"] / ONE),
                        ("inv_sqrt_mu_max", c["kmax"] / ONE), ("maximum_mu", {ONE: 1, 100000: 100}[c["kmin"]]),
                        ("infeasibility_threshold", KINF[c["kinf"]]),
                        ("kkt_error_tolerance", {"never": 1e10, "after": 0, "always": -1}[c["ktol"]]),
                        ("enable_line_search", int(c["ls"])), ("enable_rescaling", int(c["rescale"])),
                        ("initialization_mode", int(c["warm"])), ("prepare_dual_variables", int(c["dual"])),
                        ("dinf_upper_bound", c["dub"] / ONE), ("kkt_solver", rng.choice([0, 0, 1, 2]) if not any(x["f"] for x in h["script"]) else 0)]:
            lines.append("opt %s %s" % (name, repr(v)))
        for it in h["script"] + [dict(p=3 * ONE, d=ONE, f=False)]:
            big = rng.randrange(probes)
            row = []
            who = rng.randrange(probes)
            empty = rng.random() < .5
            nsq = [rng.randint(0, 6) + .123457 if i == 0 else 0 for i in range(probes)]   # (the KKT error is never exactly zero)
            for i in range(probes):
                d = it["d"] / ONE
                d = d if i == big else d * rng.choice([0, .5, .9, 1])
                if it["p"] < 0:
                    fail = int(not empty and i == who)
                    lo, up = (rng.choice([1, 2]), rng.choice([4, 5])) if not empty else ((6, 9) if i == who else (0, 4))
                    if empty and probes == 1:
                        lo, up = 6, 5
                else:
                    fail = 0
                    up = it["p"] / ONE + (0 if i == who else rng.choice([0, 1.5, 1000]))
                    lo = rng.choice([-1000, 0, min(.5, it["p"] / ONE)]) if it["p"] else -1
                # spectrum of a part: within [lo, hi], squared norm and trace consistent with rank
                a, z = sorted(rng.choice([-2, -.5, 0, .01, .2, .7, 1, 1.5, 30]) for _ in range(2))
                eigs = [a, z] + [rng.uniform(a, z) for _ in range(rank[i] - 2)] if rank[i] > 1 else [a]
                row += [d, nsq[i], fail, lo, up, min(eigs), max(eigs), sum(e * e for e in eigs), sum(eigs)]
            lines.append("round %d %s" % (int(it["f"]), " ".join(repr(float(x)) for x in row)))
        lines.append("solve")
        cfgs.append(c)
    return "\n".join(lines), prog, cfgs


def sessions(ctx, plan, keep=lambda h: True):
    """TLC-generated sessions, replayed and judged"""
    exe = vlib.build("h_loop", "product")
    cases, meta = [], []
    hists = []
    for solves, num in plan:
        r = vlib.tlc("SolverLoopModel", MODEL % ("walk", solves), ctx.work,
                     args=["-simulate", "num=%d" % num, "-depth", str(solves * 12 + 2), "-seed", str(ctx.seed)])
        hists += [h for h in r.json_marks() if keep(h)]
    ends = {}
    for h in hists:
        text, prog, cfgs = session(ctx.rng, h)
        cases.append(text)
        meta.append((prog, cfgs))
    res = vlib.run_cases(exe, cases)
    recs = []
    for (prog, cfgs), rs in zip(meta, res):
        if not rs:
            recs.append([])
            continue
        out = [dict(prog, case=rs[0]["case"])]
        it = iter(cfgs)
        for r in rs:
            out.append(dict(r, args=next(it)) if r["k"] == "start" else r)
            if r["k"] == "end":
                key = "solved" if r["solved"] else "not solved"
                ends[key] = ends.get(key, 0) + 1
        recs.append(out)
    ctx.extra["scripted sessions"] = len(cases)
    ctx.extra["scripted solves"] = ends
    ctx.sample(cases[0])
    for i, rec, why in vlib.validate(ctx, "SolverTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:300]), cases[i])


def run(ctx):
    vlib.model_check(ctx, "SolverLoopModel", QUIET % (ctx.pick("small", "wide"), ctx.pick(2, 1)), 800)
    if ctx.tier == "thorough":
        vlib.model_check(ctx, "SolverLoopModel", QUIET % ("small", 3), 800)
    sessions(ctx, ctx.pick([(1, 1200), (2, 500), (3, 300)], [(1, 12000), (2, 6000), (4, 3000)]))
    ctx.assumptions += ["the constraints are scripted: the protocol is judged for any answers, real cones are judged by C10",
                        "without line search the next barrier parameter is judged against its limits only (its value: C16)"]
