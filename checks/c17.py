"""C17: equivalent formulations of a problem give the same answer."""
import json

import conegen as g
import plangen
import vlib

NOTE = ("restatements of a program (permutations, splits, changes of cone, algebra, variables, epigraphs) are specified as steps; TLC checks on small "
        "programs that every chain of steps keeps the feasible set and the objective, and generates random chains from programs with a known "
        "outcome; both formulations are solved by the real code and TLC compares iterates, points or values, as the class of the chain allows")
LIN = ("linear", "lower", "upper")


def program(p):
    """the plan as the specification sees it"""
    cons = []
    for t in p["lines"]:
        w = t.split()
        kind, nv = w[1], int(w[2])
        vs = [int(x) for x in w[3:3 + max(nv, 0)]] if nv >= 0 else list(range(p["n"]))
        d = [int(x) for x in w[3 + max(nv, 0):]]
        c = dict(kind=kind, vars=[v + 1 for v in vs], A=[], C=[], Q=[])
        if kind == "cost":
            m, d = d[0], d[1:]
            c["Q"] = [d[i * m:i * m + m] for i in range(m)]
            cons.append(c)
            continue
        n, m, dim = d[:3]
        d = d[3:]
        if kind in ("lower", "upper"):
            s = -1 if kind == "lower" else 1
            c["A"] = [[s * int(i == j) for i in range(n)] for j in range(n)]
            c["C"] = [s * x for x in d]
        elif kind in ("psd", "herm"):
            k = 1 if kind == "psd" else dim
            el = [[[d[(e * k + u) * n * n + i * n:][:n] for i in range(n)] for u in range(k)] for e in range(m + 1)]
            c["A"], c["C"] = el[:m], el[m]
        else:
            rows = n + (kind in ("soc", "quad"))
            c["A"] = [[d[i * m + j] for i in range(rows)] for j in range(m)]
            c["C"] = d[rows * m:rows * m + rows]
            if kind == "quad" and dim:
                q = d[rows * m + rows:]
                c["Q"] = [q[i * n:i * n + n] for i in range(n)]
        cons.append(c)
    return dict(n=p["n"], b=p["b"], cons=cons)


def text(rng, P):
    """the program as the harness reads it"""
    lines = ["n %d" % P["n"]]
    for c in P["cons"]:
        kind, A, C, Q = c["kind"], c["A"], c["C"], c["Q"]
        vs = [v - 1 for v in c["vars"]]
        head = "con %s %d %s " % (kind, len(vs), g.ints(vs))
        if vs == list(range(P["n"])) and rng.random() < .5:
            head = "con %s -1 " % kind
        if kind in ("cost", "epi"):
            q = g.ints(x for r in Q for x in r)
            lines.append(head + ("%d %s" % (len(Q), q) if kind == "cost" else "%d %d 0 %s" % (len(Q), len(vs), q)))
        elif kind in ("lower", "upper"):
            s = -1 if kind == "lower" else 1
            lines.append(head + "%d %d 0 %s" % (len(C), len(C), g.ints(s * x for x in C)))
        elif kind in ("psd", "herm"):
            lines.append(head + "%d %d %d %s" % (len(C[0]), len(A), len(C), g.ints(x for e in A + [C] for m in e for r in m for x in r)))
        else:
            n = len(C) - (kind in ("soc", "quad"))
            body = g.ints([A[j][i] for i in range(len(C)) for j in range(len(A))] + list(C) + [x for r in Q for x in r])
            lines.append(head + "%d %d %d %s" % (n, len(A), 1 if Q else 0, body))
    return lines + ["cost " + g.ints(P["b"])]


def rank(P):
    t = 0
    for c in P["cons"]:
        k = c["kind"]
        t += len(c["C"]) if k in LIN else len(c["C"][0]) if k in ("psd", "herm") else 2 if k in ("soc", "quad", "epi") else 0
    return t


def options(rng, fate, qp, eq):
    """[(mode, options)]"""
    # (odd bounds: with integers, iterates can rest exactly at a round one, and rounding decides)
    line = dict(divergence_upper_bound=.973)
    if qp:
        line.update(enable_line_search=1, enable_rescaling=0, dinf_upper_bound=.937)
    out = [("stop", dict(line, max_iterations=rng.randint(1, 6)))]
    if rng.random() < .5:
        out[0][1].update(rng.choice([dict(kkt_solver=1), dict(enable_rescaling=0), dict(divergence_upper_bound=.517), dict(kkt_solver=2)]))
    if fate == "optimal":
        out.append(("default", dict(line, max_iterations=100, inv_sqrt_mu_max=100)))
        out.append(("tight", dict(line, max_iterations=200, inv_sqrt_mu_max=rng.choice([10, 30]), enable_rescaling=0, final_centering_steps=40,
                                  final_centering_tolerance=1e-5)))
        if eq:
            # (the other factorizations perturb zero pivots: a variable that only equalities determine comes out inaccurate)
            out[-1][1].update(kkt_solver=2)
    else:
        out.append(("default", dict(line)))
    return out


def run(ctx):
    rng = ctx.rng
    vlib.model_check(ctx, "EquivalenceModel", "CONSTANTS Depth=%d Reach=2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS SameProblem Tight Invertible Shape\n" % ctx.pick(2, 3), 1000, timeout=800)
    plans = []
    while len(plans) < ctx.pick(250, 1500):
        fate = rng.choice(["optimal"] * 6 + ["infeasible", "unbounded"])
        fam = rng.choice(["vertex", "interior"]) if fate == "optimal" else "none"
        quad = fate == "optimal" and rng.random() < .2
        p = plangen.plan(rng, fate, fam, linear_only=quad or rng.random() < .25, quad_cost=quad, most=4)
        if p is not None and not (fate != "optimal" and any(c["kind"] not in LIN for c in p["spec"]["cons"])):
            plans.append((p, program(p)))
    files = {"programs.ndjson": "\n".join(json.dumps(q) for _, q in plans) + "\n"}
    chains = []
    for focus, depth, num in [("any", 1, 1000), ("any", 3, 500), ("same", 2, 600), ("same", 6, 300), ("cones", 1, 500), ("cones", 3, 400)]:
        r = vlib.tlc("EquivalenceSession", "CONSTANTS Depth=%d Focus=\"%s\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Emit\n" % (depth, focus),
                     ctx.work, files=files, args=["-simulate", "num=%d" % (num * ctx.pick(1, 10)), "-depth", str(depth + 2), "-seed", str(ctx.seed)])
        chains += r.json_marks()
    exe = vlib.build("h_out", "product")
    cases, meta = [], []
    for h in chains:
        p, base = plans[h["id"] - 1]
        fate, qp = p["spec"]["fate"], p["spec"]["qp"]
        other = h["p"]
        still = any(c["kind"] == "cost" for c in other["cons"])
        solves = options(rng, fate, qp, any(c["kind"] == "eq" for c in base["cons"] + other["cons"]))
        lines = []
        for P, cost in ((base, qp), (other, still)):
            lines += text(rng, P)
            for mode, o in solves:
                o = dict(o)
                if not cost:
                    o.pop("enable_line_search", 0)
                    o.pop("dinf_upper_bound", 0)
                lines += ["defaults"] + ["opt %s %s" % kv for kv in o.items()] + ["solve " + mode]
                if P is base and mode == "stop" and h["cls"] == 1:
                    # nearly the same program: where its rounds differ, the choice of a weight rests on a tie that rounding decides
                    for s in (1, -1):
                        lines += ["cost " + " ".join(repr(x + s * 1e-6 * (i + 1.7) * (-1) ** (i // 2)) for i, x in enumerate(P["b"])), "solve near"]
                    lines.append("cost " + g.ints(P["b"]))
        cases.append("\n".join(lines))
        meta.append((p, base, h, solves))
    res = vlib.run_cases(exe, cases)
    recs, count, cls = [], {}, {}
    for (p, base, h, solves), rs in zip(meta, res):
        case = rs[0]["case"] if rs else 0
        out = [dict(k="pair", case=case, b=p["b"], H=p["spec"]["H"], map=h["map"], cls=h["cls"], fate=p["spec"]["fate"], chain=h["chain"])]
        cls[h["cls"]] = cls.get(h["cls"], 0) + 1
        for t in h["chain"]:
            count[t["op"]] = count.get(t["op"], 0) + 1
        got = [r for r in rs if r["k"] == "solve" and r["tag"] != "near"]
        near = [r["ks"] for r in rs if r["k"] == "solve" and r["tag"] == "near"]
        out += [r for r in rs if r["k"] != "solve"]
        if len(got) == 2 * len(solves):
            cut = lambda r, P: dict(ret=int(r["ret"]), solved=r["solved"], pinf=r["pinf"], dinf=r["dinf"], num=r["num"], y=r["y"], mu=r["mu"], ks=r["ks"], rank=rank(P))
            for i, (mode, o) in enumerate(solves):
                out.append(dict(k="solve", case=case, mode=mode, near=near if mode == "stop" else [], same=int(p["spec"]["fate"] == "optimal" and mode == "stop"), u=cut(got[i], base), v=cut(got[i + len(solves)], h["p"])))
        recs.append(out)
    ctx.extra["programs"] = len(plans)
    ctx.extra["pairs of formulations by class"] = cls
    ctx.extra["steps"] = dict(sorted(count.items()))
    ctx.sample(cases[0])
    for i, rec, why in vlib.validate(ctx, "EquivalenceTrace", recs):
        ctx.violation("%s: %s after %s at %s" % (rec["k"], why[:300], meta[i][2]["chain"], str(rec)[:900]), cases[i])
