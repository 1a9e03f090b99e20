"""C05 and C06: call histories of the C interface generated by TLC, replayed and validated."""
import vlib

DESIGN = "RefusedIsStutter IdIsNext EarlierUntouched OneConstraintUpdated Hermitian"
CFG = """SPECIFICATION Spec
CONSTANTS Depth=%d Mode="%s"
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def line(a):
    f = lambda *x: " ".join(str(v) for v in x)
    flat = lambda m: [v for r in m for v in r]
    op = a["op"]
    if op in ("setvars", "lmi", "soc", "lin", "quad"):
        return f(op, a["nullp"], a["nullid"], a["a"], a["b"])
    if op == "upd":
        return f(op, a["nullp"], a["cid"], a["v"], a["var"], a["r"], a["c"], a["d"])
    if op == "aff":
        return f(op, a["nullp"], a["cid"], a["v"], a["r"], a["c"], a["d"])
    if op == "qupd":
        return f(op, a["nullp"], a["cid"], a["v"], a["r"], a["c"])
    if op == "sparse":
        return f(op, a["order"], len(a["vars"]), *a["vars"], *flat(a["A"]), *a["cc"])
    if op == "dense":
        return f(op, a["order"], len(a["A"]), *flat(a["A"]), *a["cc"])
    if op == "denselin":
        m = len(a["A"])
        return f(op, a["order"], m, *[a["A"][j][i] for i in range(a["order"]) for j in range(m)], *a["cc"])
    if op == "addquad":
        return f(op, len(a["Q"]), *flat(a["Q"]))
    if op == "solve":
        return f(op, a["ls"], a["rs"], a["it"], *a["b"])
    raise vlib.CheckError("unknown call " + op)


def histories(ctx, mode, depth, num, limit, seed):
    r = vlib.tlc("CApiSession", CFG % (depth, mode, "Emit " + DESIGN), ctx.work,
                 args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)], timeout=600)
    if r.violated:
        raise vlib.CheckError("CApiSession does not hold: " + r.out[-2000:])
    got = r.json_marks()
    if not got:
        raise vlib.CheckError("no histories generated: " + r.out[-2000:])
    ctx.rng.shuffle(got)
    ctx.models.append("CApiSession %s: %d histories of %d calls generated" % (mode, len(got), depth))
    return got[:limit]


def oneshot(ctx, h):
    """One-shot construction of the final program."""
    out = ["oneshot", len(h["cons"])]
    for k in h["cons"]:
        out += [k["kind"], k["order"], k["dim"]]
        if k["kind"] != "quad":
            for a in k["A"]:
                out += a
        out += k["c"]
    return " ".join(map(str, out + [ctx.rng.randint(-3, 3) for _ in range(h["n"])]))


def replay(ctx, exe, hists, what, shot=False):
    cases = ["\n".join([line(a) for a in h["h"]] + ([oneshot(ctx, h)] if shot and h["n"] else [])) for h in hists]
    res = vlib.run_cases(exe, cases)
    recs = []
    for i, (h, r) in enumerate(zip(hists, res)):
        out, k = [{"k": "start", "case": i}], 0
        for x in r:
            if x["k"] == "call":
                x = dict(x, args=h["h"][k])
                k += 1
            out.append(x)
        recs.append(out)
    bad = vlib.validate(ctx, "CApiTrace", recs, 'CONSTANT Checks = "calls"\n')
    ctx.extra["histories"] = ctx.extra.get("histories", 0) + len(hists)
    ctx.sample(cases[0])
    for i, rec, why in bad:
        ctx.violation("%s: %s at %s" % (what, why, rec.get("args", rec)), "case 0\n%s\nend\n# record %s" % (cases[i], str(rec)[:1500]))
    return cases, res
