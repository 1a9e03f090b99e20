"""C13: iteration statistics and multiplier queries report the last solve."""
import c09
import cintcommon
import conegen as g
import vlib

NOTE = ("TLC checks the laws of the addresses on all small sessions; the statistics of scripted solves are compared by TLC with the list of "
        "barrier parameters that the constraints were given, for all indices around the valid ones; TLC-generated sessions of solves "
        "and queries of real programs are judged against the last solve, and multipliers against the slacks on the central path")
MODEL = ("CONSTANTS Mode=\"%s\" Depth=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
         "INVARIANTS BothWays ExactlyTheIterations OfTheLastSolve LastIsMinusOne Emit\n")
WALK = "CONSTANTS Mode=\"walk\" Depth=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Emit\n"


def scripted(ctx):
    """sessions of C09 with queries before and after each solve"""
    exe = vlib.build("h_loop", "product")
    cases, metas = [], []
    for solves, num in ctx.pick([(1, 500), (2, 300), (3, 200)], [(1, 4000), (2, 3000), (4, 2000)]):
        r = vlib.tlc("SolverLoopModel", c09.MODEL % ("walk", solves), ctx.work,
                     args=["-simulate", "num=%d" % num, "-depth", str(solves * 12 + 2), "-seed", str(ctx.seed + 17)])
        for h in r.json_marks():
            text, _, _ = c09.session(ctx.rng, h)
            lines = []
            for t in text.split("\n"):
                if t == "solve" and ctx.rng.random() < .2 or t.startswith("cost") and ctx.rng.random() < .3:
                    lines.append("stats" if t == "solve" else t)
                    lines.append(t if t == "solve" else "stats")
                else:
                    lines.append(t)
                if t == "solve":
                    lines.append("stats")
            cases.append("\n".join(lines))
    recs = []
    keep = {"start": (), "fail": (), "ident": ("p",), "prep": ("p", "affine", "kk"), "end": ("num",)}
    for rs in vlib.run_cases(exe, cases):
        out = [dict(k="session", case=rs[0]["case"])] if rs else []
        for r in rs:
            if r["k"] in keep:
                if r.get("p", 0) == 0:
                    out.append({f: r[f] for f in ("k", "case") + keep[r["k"]]})
            elif r["k"] not in ("take", "eig", "ls"):
                out.append(r)
        recs.append(out)
    ctx.extra["scripted sessions"] = len(cases)
    return cases, recs


def play(rng, hist):
    qp = rng.random() < .25
    lines, p = cintcommon.program(rng, qp)
    kinds = [(t.split()[2], int(t.split()[4 + max(0, int(t.split()[3]))])) for t in lines if t.startswith("con")]
    kinds = [(k if k != "herm" else "herm", n) for k, n in kinds]
    n = p["n"]
    cons = [t for t in lines if t.startswith("con")]
    args = [("session", {})]
    out = ["n %d" % n]

    def add(text):
        t = text.split()
        out.append(text)
        args.append(("con", dict(kind=t[2], n=int(t[4 + max(0, int(t[3]))]) if t[2] != "cost" else 0)))
    for c in cons:
        add(c)
    base = []
    if qp:
        base += [("enable_line_search", "1"), ("enable_rescaling", "0")]
    elif rng.random() < .2:
        base.append(("enable_rescaling", "0"))
    if rng.random() < .7:
        base.append(("prepare_dual_variables", "1"))
    if rng.random() < .3:
        base.append(("inv_sqrt_mu_max", rng.choice(["30", "100"])))
    if rng.random() < .2:
        base.append(("final_centering_steps", rng.choice(["0", "1"])))
    solved = False
    for h in hist:
        if h["op"] in ("stats", "duals"):
            out.append(h["op"])
            args.append((h["op"], {}))
        elif h["op"] == "late":
            k = rng.choice([3, 5, 10])
            A = [[int(i == j) for j in range(n)] for i in range(n)]
            add("con %d linear -1 %d %d 0 %s %s" % (rng.randint(0, 1), n, n, g.ints(x for r in A for x in r), g.ints([k] * n)))
        else:
            kind = h["kind"]
            if kind == "refused" and not qp:
                kind = "none"
            cfg = dict(base)
            if kind == "limited":
                cfg["max_iterations"] = str(rng.randint(1, 6))
            elif kind == "none":
                cfg["max_iterations"] = "0"
            elif kind == "longer":
                cfg["max_iterations"] = "40"
            elif kind == "warm":
                cfg["initialization_mode"] = "1"
                if rng.random() < .4:
                    cfg["warmstart_abort_threshold"] = rng.choice(["1e-5", "1e15"])
                if rng.random() < .4:
                    cfg["max_iterations"] = rng.choice(["3", "30", "60"])
            elif kind == "refused":
                cfg["enable_line_search"] = "0"
            b = p["b"] if rng.random() < .8 else [rng.randint(-2, 2) for _ in range(n)]
            mode = rng.choice(["max", "max", "min"])
            c = b if mode == "max" else [-x for x in b]
            out.append("defaults 0")
            args.append(("defaults", {}))
            out += ["set %s %s" % kv for kv in sorted(cfg.items())]
            out.append("solve %s %s %d %s" % (mode, g.ints(c), len(cfg), " ".join("%s %s" % x for x in sorted(cfg.items()))))
            args.append(("solve", dict(dual=cfg.get("prepare_dual_variables") == "1")))
    if p["spec"].get("fate", "optimal") == "optimal" and not qp:
        kk = rng.choice([5, 20, 60])
        out += ["defaults 0", "set prepare_dual_variables 1", "set max_iterations 60", "set final_centering_tolerance 0.001",
                "set final_centering_steps 12", "set inv_sqrt_mu_max %d" % kk, "central " + g.ints(p["b"])]
        args += [("defaults", {}), ("central", dict(tol=100))]
    return out, args


def real(ctx):
    hists = []
    for depth, num in ctx.pick([(4, 250), (8, 250)], [(4, 2000), (8, 2500), (14, 1500)]):
        r = vlib.tlc("StatsSession", WALK % depth, ctx.work, args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(ctx.seed)])
        hists += r.json_marks()
    played = [play(ctx.rng, h) for h in hists]
    exe = vlib.build("h_cint", "asan")
    cases = ["\n".join(x) for x, _ in played]
    recs, seen = [], {}
    for (_, args), rs in zip(played, vlib.run_cases(exe, cases)):
        case = rs[0]["case"] if rs else 0
        out, it = [], iter(rs)
        for kind, a in args:
            if kind in ("session", "con"):
                out.append(dict(a, k=kind, case=case))
                continue
            r = next(it, None)
            if r is None:
                break
            if r["k"] == "solve":
                r = dict(k="solve", case=case, c=dict(num=r["c"]["num"]), cpp=dict(ks=r["cpp"]["ks"], mult=r["cpp"]["mult"]), dual=a["dual"])
                seen["solves"] = seen.get("solves", 0) + 1
                seen["iterations"] = seen.get("iterations", 0) + r["c"]["num"]
            elif r["k"] == "central":
                seen["central"] = seen.get("central", 0) + r["solved"]
                r = dict(r, **a)
            elif r["k"] == "defaults":
                continue
            else:
                seen[r["k"]] = seen.get(r["k"], 0) + 1
            out.append(r)
        recs.append(out)
    ctx.extra["real sessions"] = len(cases)
    ctx.extra["real records"] = seen
    return cases, recs


def run(ctx):
    vlib.model_check(ctx, "StatsSession", MODEL.replace(" Emit", "") % ("small", ctx.pick(3, 4)))
    c1, r1 = scripted(ctx)
    c2, r2 = real(ctx)
    ctx.sample(c2[0])
    cases = c1 + c2
    for i, rec, why in vlib.validate(ctx, "StatsTrace", r1 + r2):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:600]), cases[i])
    ctx.assumptions += ["the values of multipliers are judged when the solve was asked to prepare them",
                        "before its first solve a constraint may report size zero"]
