"""C10: a reported outcome is true."""
import json
import os

import conegen as g
import plangen
import vlib

NOTE = ("programs are planted with a certificate of their outcome that TLC verifies exactly; the outcome reported by the real solver "
        "(status, flags, point, multipliers) is judged by TLC against the certificate; weak duality and Farkas laws behind the "
        "certificates are model checked on a small family")


def options(rng, p):
    """(option lines, must be solved, tolerance factor)"""
    o, must, tol = {}, 1, 1
    lin = all(c["kind"] == "linear" for c in p["spec"]["cons"])
    if p["spec"]["qp"]:
        o.update(enable_line_search=1, enable_rescaling=0)
    if p["spec"]["fate"] != "optimal" and rng.random() < .6:     # the barrier parameter may pass the threshold: flags are raised
        o.update(rng.choice([dict(maximum_mu=1e7, max_iterations=12), dict(infeasibility_threshold=1e3), dict(maximum_mu=1e6, infeasibility_threshold=1e4, max_iterations=15)]))
    if rng.random() < .5:      # the defaults, with room for iterations: a well-posed problem must be solved
        if p["spec"]["fate"] == "optimal":
            o["max_iterations"] = 100
        if rng.random() < .5:
            o["inv_sqrt_mu_max"] = 100
            return [], o, 1, 20
        return [], o, 0, tol
    must = 0
    if rng.random() < .6:
        o["kkt_solver"] = rng.choice([0, 1, 2])
    if rng.random() < .3:
        o["iterative_refinement_iterations"] = rng.choice([1, 2, 3])
    if rng.random() < .3 and "enable_rescaling" not in o:
        o["enable_rescaling"] = 0
    if rng.random() < .3 and lin:
        o["enable_line_search"] = 1
    if rng.random() < .3:
        o["inv_sqrt_mu_max"] = rng.choice([100, 300])
        tol = 20
    if rng.random() < .2:
        o["final_centering_steps"] = rng.choice([3, 5, 10])
    if rng.random() < .2:
        o["divergence_upper_bound"] = rng.choice([.5, 2])
    if rng.random() < .2:
        o["max_iterations"] = rng.choice([3, 6, 50, 100] if p["spec"]["fate"] == "optimal" else [3, 6, 15])
    return [], o, must, tol


def run(ctx):
    rng = ctx.rng
    vlib.model_check(ctx, "OutcomeModel", "CONSTANTS Neg=1 Hi=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Sound\n"
                     % ctx.pick(1, 2), 1000)
    exe = vlib.build("h_out", "product")
    cases, meta = [], []
    count = {}
    want = ctx.pick(2500, 40000)
    while len(cases) < want:
        fate = rng.choice(["optimal", "optimal", "optimal", "optimal", "infeasible", "unbounded"])
        fam = rng.choice(["vertex", "interior"]) if fate == "optimal" else "none"
        quad = fate == "optimal" and rng.random() < .15
        p = plangen.plan(rng, fate, fam, linear_only=quad or rng.random() < (.2 if fate == "optimal" else .5), quad_cost=quad)
        if p is None:
            continue
        lines = ["n %d" % p["n"]] + p["lines"] + ["cost " + g.ints(p["b"])]
        solves = []
        for _ in range(rng.choice([1, 1, 2])):
            _, o, must, tol = options(rng, p)
            lines.append("defaults")
            lines += ["opt %s %s" % kv for kv in o.items()] + ["opt prepare_dual_variables 1", "solve x"]
            # the flags are heuristic signs of diverging iterates: judged where they are robust
            flags = int(o.get("maximum_mu", 0) > 1e6 and o.get("max_iterations", 25) >= 12 and not p["spec"]["E"] and all(c["kind"] == "linear" for c in p["spec"]["cons"]))
            # (QR ignores the symmetry of badly scaled systems: its last digits are not judged)
            solves.append(dict(must=must, tol=tol, flags=flags, multok=not (p["spec"]["qp"] and o.get("kkt_solver") == 2)))
        cases.append("\n".join(lines))
        meta.append((p["spec"], solves))
        count[fate + " " + fam] = count.get(fate + " " + fam, 0) + 1
    keys = {}
    for k in json.load(open(os.path.join(os.path.dirname(__file__), "c10_known.json"))):
        keys[len(cases)] = k["key"]
        cases.append(k["case"])
        meta.append((k["spec"], [dict(must=k["must"], tol=20, flags=1, multok=True)]))
    res = vlib.run_cases(exe, cases)
    recs = []
    for (spec, solves), rs in zip(meta, res):
        out = [dict(spec, case=rs[0]["case"] if rs else 0)]
        it = iter(solves)
        for r in rs:
            if r["k"] == "solve":
                a = next(it)
                r = dict(r, args=a, multok=a["multok"])
            out.append(r)
        recs.append(out)
    ctx.extra["planted programs"] = count
    ctx.sample(cases[0])
    flags = {}
    for (spec, _), rs in zip(meta, res):
        for r in rs:
            if r["k"] == "solve":
                key = "%s: solved %d pinf %d dinf %d" % (spec["fate"], r["solved"], r["pinf"], r["dinf"])
                flags[key] = flags.get(key, 0) + 1
    ctx.extra["outcomes"] = flags
    for i, rec, why in vlib.validate(ctx, "OutcomeTrace", recs):
        if "not a certificate" in why:
            raise vlib.CheckError("the plan of case %d is not a certificate: %s" % (i, cases[i]))
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:600]), cases[i], key=keys.get(i))
