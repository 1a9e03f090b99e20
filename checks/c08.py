"""C08: workspaces never overlap and never leave their buffer."""
import conecommon as cc
import conegen as g
import vlib

NOTE = ("the layout of every mix of parts is explored by TLC; recorded areas and observed footprints (poisoned buffers, "
        "AddressSanitizer) of programs mixing all kinds are checked by TLC to be apart and inside; each constraint among others "
        "is compared with itself alone; TLC-generated histories of programs sharing a buffer are compared with programs "
        "of their own")


def con(rng, nvars, kind=None, small=False):
    """(text, number of variables, size hint)"""
    kind = kind or rng.choice("linear linear lower upper psd psd herm soc soc quad cost epi eq".split())
    mag = 2
    if kind == "cost":
        m = rng.randint(1, nvars)
        return "con cost %d %s %d %s" % (m, pick(rng, nvars, m), m, g.ints([rng.randint(-2, 2) if i // m != i % m else 9 for i in range(m * m)]))
    if kind in ("lower", "upper"):
        n = rng.randint(1, nvars)
        return "con %s %d %s %d %d 0 %s" % (kind, n, pick(rng, nvars, n), n, n, g.ints(rng.randint(-2, 2) for _ in range(n)))
    if kind == "eq":
        n, m = rng.randint(1, 2), rng.randint(1, nvars)
        return "con eq %d %s %d %d 0 %s" % (m, pick(rng, nvars, m), n, m, g.ints(rng.randint(-2, 2) for _ in range(n * m + n)))
    if kind == "epi":
        n = min(rng.randint(1, 3), nvars - 1)
        if n < 1:
            return con(rng, nvars, "linear")
        return "con epi %d %s %d %d 0 %s" % (n + 1, pick(rng, nvars, n + 1), n, n + 1,
                                            g.ints([2 if i // n == i % n else 0 for i in range(n * n)]))
    k = g.Kind(rng, kind)
    if kind == "soc" and rng.random() < .15:
        k.n = 0
    if kind == "linear" and not small:
        k.n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
    m = rng.randint(1, nvars)
    A = [k.element(rng, mag) for _ in range(m)]
    C = k.add(k.element(rng, 1), k.sc(4, k.unit()))
    t = k.new(A, C).split()
    assert t[0] == "new"
    return "con %s %d %s %s" % (t[1], m, pick(rng, nvars, m), " ".join(t[2:]))


def pick(rng, nvars, m):
    return g.ints(rng.sample(range(nvars), m))


def program(rng):
    nvars = rng.choice([1, 2, 3, 4, 5, 6, 9])
    cons = [con(rng, nvars) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
    lines = ["n %d" % nvars, "iters %d" % rng.choice([0, 1, 2, 3, 4, 5, 7, 25, 26])]
    shared = rng.choice([-1, -1, 0, 3, 40, 5000])
    if shared >= 0:
        lines.append("shared %d" % shared)
    lines += cons
    prog = [0] * len(cons)     # next op of each constraint: schur, prepare, take, schur, ...
    cyc = [1, 2, 3, 1, 2, 3, 1]
    todo = [i for i in range(len(cons)) for _ in cyc]
    rng.shuffle(todo)
    for c in todo:
        lines.append("op %d %d %d" % (c, cyc[prog[c]], rng.randint(0, 9)))
        prog[c] += 1
    return "\n".join(lines)


def classes(rng, thorough):
    out = []
    top = 40 if thorough else 22
    for w in ("psd", "herm", "soc", "schur", "residual", "stats"):
        for n in range(0, top):
            out.append("class %s %d 0" % (w, n))
    for n in range(0, top):
        for m in range(0, top // 2):
            out.append("class linear %d %d" % (n, m))
    for _ in range(300 if thorough else 60):
        n = rng.randint(1, 5)
        sizes = [rng.randint(1, 4) for _ in range(n)]
        start = [sum(sizes[:i]) for i in range(n + 1)]
        path = []
        for i in reversed(range(n)):
            later = [] if i == n - 1 else path[0]
            path.insert(0, list(range(start[i], start[i + 1])) + sorted(rng.sample(later, rng.randint(0, min(3, len(later))))))
        out.append("class triangular %d 0 %s %s" % (n, g.ints(sizes), " ".join("%d %s" % (len(p), g.ints(p)) for p in path)))
    return out


def structures(rng, herm=False):
    """three structures of increasing need, each bounded (a box) and with further constraints"""
    out = []
    for j, n in enumerate((1, 3, 5)):
        lines = ["structure %d %d" % (j + 1, n)]
        for _ in range(3):
            lines.append("cost " + g.ints(rng.choice([-2, -1, 1, 2]) for _ in range(n)))
        box = [1 if r == c else 0 for r in range(n) for c in range(n)]
        neg = [-v for v in box]
        lines.append("con linear -1 %d %d 0 %s %s" % (2 * n, n, g.ints(box + neg), g.ints([1, 2, 3][j % 3] for _ in range(2 * n))))
        for kind in rng.sample(["linear", "soc", "psd", "quad"], j + 1):
            k = g.Kind(rng, kind)
            k.n = rng.randint(1, 2) + j
            if k.Q:
                k.Q = []
            A = [k.element(rng, 1) for _ in range(n)]
            t = k.new(A, k.sc(2 * n + 3, k.unit())).split()
            lines.append("con %s -1 %s" % (t[1], " ".join(t[2:])))
        out.append("\n".join(lines))
    return out


HERMITIAN = """structure 1 2
cost 1 1
con linear -1 4 2 0 1 0 0 1 -1 0 0 -1 1 1 1 1
con herm -1 2 2 2 1 0 0 1 0 0 0 0 0 1 1 0 0 1 -1 0 6 0 0 6 0 0 0 0
buffer 3000
iters 30
sizes
new 1
solve 0 c 0 1 c 0
new 1
solve 1 w 0 2 c 0 w 0"""


def shared(ctx):
    cfg = ("CONSTANTS Depth=%d MaxInst=%d Structures=%d Costs={%s} Start=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
           "INVARIANTS BufferOnlyGrows GrowthMoves ColdNeedsNoHistory OwnerFits Emit\n")
    hists = []
    for depth, inst, start, num, limit in ctx.pick([(3, 2, 0, 0, 150), (3, 2, 9, 0, 100), (7, 3, 0, 250, 200), (7, 3, 9, 150, 100)],
                                                   [(3, 3, 0, 0, 3000), (3, 3, 9, 0, 2000), (10, 4, 0, 3000, 2500), (10, 4, 9, 2000, 1500)]):
        c = cfg % (depth, inst, 3, "0" if num == 0 else "0, 1, 2", start)
        if num == 0:
            r = vlib.model_check(ctx, "SharedBufferSession", c, 500)
        else:
            r = vlib.tlc("SharedBufferSession", c, ctx.work, args=["-simulate", "num=%d" % num, "-depth", str(depth + inst + 1),
                                                                   "-seed", str(ctx.seed)])
        hs = sorted(r.json_marks(), key=str)
        ctx.rng.shuffle(hs)
        hists += [(start, h) for h in hs[:limit]]
    return hists


def run(ctx):
    rng = ctx.rng
    up = lambda n: "{%s}" % ", ".join(map(str, range(n)))
    for d, sizes, orders in ctx.pick([(1, up(10), up(7)), (2, "{1, 2, 3}", "{1, 3}")], [(1, up(17), up(17)), (3, "{0, 1, 2, 3, 5}", "{1, 2, 3}")]):
        vlib.model_check(ctx, "LayoutModel", "CONSTANTS Depth=%d Sizes=%s Orders=%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                         "INVARIANTS Fits Disjoint AlignedAreas\n" % (d, sizes, orders), 100)
    exe = vlib.build("h_layout", "asan")
    cl = classes(rng, ctx.thorough())
    cases = ["\n".join(cl[i:i + 40]) for i in range(0, len(cl), 40)]
    cases += [program(rng) for _ in range(ctx.pick(400, 8000))]
    args = [None] * len(cases)
    for start, h in shared(ctx):
        lines = structures(rng)
        buffer = 0 if start == 0 else 3000
        lines += ["buffer %d" % buffer, "iters 30", "sizes"]
        for a in h:
            if a["op"] == "new":
                lines.append("new %d" % a["st"])
            else:
                lines.append("solve %d %s %d %d %s" % (a["i"] - 1, a["mode"], a["cost"], len(a["ref"]),
                                                       " ".join("%s %d" % tuple(x) for x in a["ref"])))
        cases.append("\n".join(lines))
        args.append(h)
    # A new program with a Hermitian constraint, started warm from a buffer that an equal program filled.
    herm = len(cases)
    cases.append(HERMITIAN)
    args.append([dict(op="new", st=1), dict(op="solve", i=1, mode="c", cost=0, ref=[["c", 0]]), dict(op="new", st=1),
                 dict(op="solve", i=2, mode="w", cost=0, ref=[["c", 0], ["w", 0]])])
    res = vlib.run_cases(exe, cases)
    recs = []
    for h, rs in zip(args, res):
        if h is None:
            recs.append(rs)
            continue
        out, it = [], iter(rs)
        out.append(next(it))       # sizes
        stop = out[0]["k"] != "sizes"
        for a in h:
            if stop:
                break
            if a["op"] == "new":
                out.append({"k": "new", "case": out[0]["case"], "args": a["st"]})
            else:
                x = next(it)
                stop = x["k"] != "solve"
                out.append(dict(x, args=a) if not stop else x)
        out += list(it)
        recs.append(out)
    ctx.extra["histories sharing a buffer"] = sum(h is not None for h in args)
    ctx.sample(cases[-1])
    for i, rec, why in vlib.validate(ctx, "LayoutTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec.get("args", rec))[:200]), cases[i],
                      key="shared-buffer-warm-start-hermitian" if i == herm else None)
    ctx.assumptions += ["a warm start from a buffer that another structure wrote last is judged for memory safety only",
                        "results of histories are compared to 2e-3 relative with the random number generator reset before each solve"]
