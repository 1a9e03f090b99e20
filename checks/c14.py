"""C14: two-sided linear inequalities keep exactly their feasible set."""
import vlib

NOTE = ("TLC checks on all small systems that the specified conversion keeps the set of points and loses no row; the real conversion of all "
        "small systems and of random ones is compared by TLC with it row by row (up to scaling and order), and programs of random rows "
        "are solved through the C interface and compared by TLC with the best corner of the stated set, computed exactly")
MODEL = "CONSTANTS Mode=\"%s\" Rows=%d Cols=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS SameSet NoneLost Corners Emit\n"
INF = 1000000000


def bound(rng, b):
    return str(b) if abs(b) < INF else ("-" if b < 0 else "") + rng.choice(["inf", "1e9", "1e20"])


def flat(rng, rows):
    return " ".join([str(x) for r in rows for x in r["a"]] + [bound(rng, r["lb"]) for r in rows] + [bound(rng, r["ub"]) for r in rows])


def systems(ctx, rows, cols, num):
    r = vlib.tlc("TwoSidedModel", MODEL.replace("SameSet NoneLost Corners", "NoneLost") % ("walk", rows, cols), ctx.work,
                 args=["-simulate", "num=%d" % num, "-depth", str(rows + 2), "-seed", str(ctx.seed)])
    if r.violated:
        raise vlib.CheckError("TwoSidedModel does not hold: " + r.out[-1500:])
    return r.json_marks()


def run(ctx):
    rng = ctx.rng
    exe = vlib.build("h_two", "product")
    small = []
    for rows, cols in ctx.pick([(2, 1), (1, 2)], [(2, 1), (2, 2)]):
        r = vlib.model_check(ctx, "TwoSidedModel", MODEL % ("small", rows, cols), timeout=800)
        small += r.json_marks()
    if len(small) > 20000:
        small = rng.sample(small, 20000)
    pre = small + [h for rows, cols, num in ctx.pick([(5, 3, 1500), (8, 1, 500), (3, 2, 1000)], [(5, 3, 15000), (8, 1, 5000), (12, 4, 5000), (3, 2, 10000)])
                   for h in systems(ctx, rows, cols, num)]
    cases, args = [], []
    for h in pre:
        cases.append("pre %d %d %s" % (len(h), len(h[0]["a"]) if h else 2, flat(rng, h)))
        args.append(h)
    npre = len(cases)
    for rows, num in ctx.pick([(1, 300), (3, 900), (5, 500)], [(1, 2000), (3, 10000), (5, 6000), (9, 2000)]):
        for h in systems(ctx, rows, 2, num):
            box = [dict(a=[int(i == 0), int(i == 1)], lb=-rng.randint(2, 9), ub=rng.randint(2, 9)) for i in range(2)]
            h = h + box
            rng.shuffle(h)
            cut = rng.choice([len(h), rng.randint(0, len(h))])
            parts = [h[:cut], h[cut:]] if cut < len(h) else [h]
            c = [rng.randint(-3, 3), rng.randint(-3, 3)]
            cases.append("lp %d %s %d %d" % (len(parts), " ".join("%d %s" % (len(q), flat(rng, q)) for q in parts), c[0], c[1]))
            args.append(dict(rows=h, c=c))
    res = vlib.run_cases(exe, cases)
    recs, solved = [], 0
    for a, rs in zip(args, res):
        recs.append([dict(r, args=a) if r["k"] in ("pre", "lp") else r for r in rs])
        solved += sum(r.get("solved", 0) for r in rs)
    ctx.extra.update({"systems converted": npre, "programs solved": len(cases) - npre, "of these reported solved": solved})
    ctx.sample(cases[npre - 1])
    ctx.sample(cases[-1])
    for i, rec, why in vlib.validate(ctx, "TwoSidedTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:400]), cases[i])
    ctx.assumptions += ["bounds of magnitude 1e9 and more stand for infinite ones, bounds up to 5e7 for finite ones",
                        "the best point is judged for programs of two variables in a box"]
