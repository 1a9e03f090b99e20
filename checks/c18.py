"""C18: the C interface configures and runs the solver exactly like the C++ one."""
import cintcommon
import conegen as g
import vlib

NOTE = ("TLC generates all sessions that set one option to one value and random sessions of many calls, and checks on them that the configuration "
        "follows the calls; each session is replayed through the C interface, next to a C++ twin that gets the specified configuration, "
        "and TLC checks that defaults and outcomes agree")
MODEL = "CONSTANTS Mode=\"%s\" Depth=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS LastSetWins OnlyNamed Emit\n"


def play(rng, h):
    lines, p = cintcommon.program(rng, h["qp"], twin=rng.random() < (.4 if set(o.get("o") for o in h["ops"]) & {"kkt_solver", "iterative_refinement_iterations"} else .1))
    args = []
    b = p["b"] if rng.random() < .8 else [rng.randint(-2, 2) for _ in range(p["n"])]
    for o in h["ops"]:
        if o["op"] == "defaults":
            lines.append("defaults %d" % o["fill"])
            args.append(("defaults", {}))
        elif o["op"] == "set":
            lines.append("set %s %s" % (o["o"], o["v"]))
            args.append(("set", dict(k="set", o=o["o"], v=o["v"])))
        else:
            c = b if o["mode"] == "max" else [-x for x in b]
            lines.append("solve %s %s %d %s" % (o["mode"], g.ints(c), len(o["cfg"]), " ".join("%s %s" % tuple(x) for x in o["cfg"])))
            args.append(("solve", dict(cfg=o["cfg"])))
    return lines, args


def run(ctx):
    rng = ctx.rng
    singles = vlib.model_check(ctx, "OptionsSession", MODEL % ("single", 2)).json_marks()
    hists = singles * ctx.pick(30, 150)
    for depth, num in ctx.pick([(2, 300), (4, 200)], [(2, 4000), (4, 3000), (8, 1500)]):
        r = vlib.tlc("OptionsSession", MODEL % ("walk", depth), ctx.work,
                     args=["-simulate", "num=%d" % num, "-depth", str(depth * 6), "-seed", str(ctx.seed)])
        if r.violated:
            raise vlib.CheckError("OptionsSession does not hold: " + r.out[-1500:])
        hists += r.json_marks()
    exe = vlib.build("h_cint", "product")
    played = [play(rng, h) for h in hists]
    cases = ["\n".join(lines) for lines, _ in played]
    res = vlib.run_cases(exe, cases)
    recs, effect = [], {}
    solves = 0
    for n, ((_, args), rs) in enumerate(zip(played, res)):
        case = rs[0]["case"] if rs else 0
        out = [dict(k="session", case=case)]
        it = iter([r for r in rs if r["k"] != "refused"])
        out += [r for r in rs if r["k"] == "refused"]
        for kind, a in args:
            if kind == "set":
                out.append(dict(a, case=case))
                continue
            r = next(it, None)
            if r is None:
                break
            out.append(dict(r, args=a))
            if r["k"] == "solve":
                solves += 1
                if n < len(singles) * ctx.pick(30, 150) and a["cfg"] and not hists[n]["qp"]:
                    name = hists[n]["ops"][-2]["o"]
                    effect.setdefault(name, [0, 0])[0 if r["effect"] else 1] += 1
            elif r["k"] != kind:
                break
        recs.append(out)
    ctx.extra["sessions"] = len(cases)
    ctx.extra["pairs of solves"] = solves
    ctx.extra["sessions of one option in which it changes the outcome"] = {k: "%d of %d" % (v[0], sum(v)) for k, v in sorted(effect.items())}
    ctx.sample(cases[0])
    for i, rec, why in vlib.validate(ctx, "OptionsTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:600]), cases[i])
    ctx.assumptions += ["minimum_mu is not read by the solver, so that only its default is observable"]
