"""C16: the barrier parameter chosen by line search or divergence bound is admissible."""
import c09
import conegen as g
import plangen
import vlib

NOTE = ("TLC proves on all small rows that the specified interval is the set of admissible weights and that the smallest upper end is the largest "
        "common weight, and on all small spectra that the weights within a divergence bound are contiguous; all those rows are replayed into the "
        "real line search, and random data of line searches, spectra, first weights of real solves and scripted choices are judged by TLC")
MODEL = "CONSTANTS Mode=\"%s\" Wide=%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"


def num(x):
    return repr(x) if isinstance(x, float) else str(x)


def ls_case(kind, A, c, w, y0, y1, c0, c1, bound2):
    n, m = len(A), len(A[0])
    if kind in ("lower", "upper"):
        s = -1 if kind == "lower" else 1
        data = g.ints(s * x for x in c)
    else:
        data = g.ints(x for r in A for x in r) + " " + g.ints(c)
    text = "ls %s %d %d 0 %s | %s %s %s %s %s %s" % (kind, n, m, data, g.ints(w), g.ints(y0), g.ints(y1), num(c0), num(c1), num(bound2 / 2))
    return text, dict(kind=kind, A=A, c=c, w=w, y0=y0, y1=y1, c0=c0, c1=c1, bound2=bound2)


def random_ls(rng):
    kind = rng.choice(["linear", "linear", "linear", "lower", "upper", "eq"])
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    if kind in ("lower", "upper"):
        m = n
        s = -1 if kind == "lower" else 1
        A = [[s * int(i == j) for j in range(n)] for i in range(n)]
    else:
        A = [[rng.choice([0, 0, 1, -1, 2, -3]) for _ in range(m)] for _ in range(n)]
        if rng.random() < .15:
            A[rng.randrange(n)] = [0] * m
    v = lambda k, a: [rng.randint(-a, a) for _ in range(k)]
    c = v(n, 3)
    if rng.random() < .3:
        c = [0] * n
    y0 = v(m, 2)
    y1 = y0[:] if rng.random() < .1 else v(m, 2)
    c0, c1 = rng.choice([(0, 1), (0, 1), (0, 2), (1, 2), (1, 1)])
    return ls_case(kind, A, c, [rng.choice([1, 1, 2, 3]) for _ in range(n)], y0, y1, c0, c1, rng.choice([1, 2, 2, 3, 4, 8]))


def random_div(rng):
    r = rng.randint(1, 5)
    kind = rng.random()
    if kind < .15:
        lam = [rng.randint(-10, 30) for _ in range(r)]
    elif kind < .5:
        mid = rng.randint(3, 27)
        lam = [max(1, mid + rng.randint(-3, 3)) for _ in range(r)]
    else:
        lam = [rng.randint(1, 30) for _ in range(r)]
    D = rng.choice([1, 2, 3, 5, 8, 10, 15, 20, 30, 40]) * rng.choice([1, 1, r])
    top = max(1, max(lam))
    k0 = round(rng.uniform(.05, 1.9) * 10 / top, 4)
    return "div %d %s %s %s" % (r, " ".join(num(x / 10) for x in lam), num(D / 10), num(k0)), dict(lam=lam, D=D, k0=int(round(k0 * 10000)))


def random_first(rng):
    while True:
        quad = rng.random() < .3
        p = plangen.plan(rng, "optimal", rng.choice(["vertex", "interior"]), linear_only=True, quad_cost=quad, most=rng.choice([4, 4, 8]))
        if p and all(t.split()[1] in ("linear", "lower", "upper", "eq", "cost") for t in p["lines"]):
            break
    lines = ["n %d" % p["n"]] + p["lines"] + ["cost " + g.ints(p["b"] if rng.random() < .7 else [rng.randint(-3, 3) for _ in range(p["n"])])]
    o = dict(enable_line_search=1, enable_rescaling=int(not quad and rng.random() < .5), dinf_upper_bound=rng.choice([.5, 1, 1, 1.5, 2, 4, 10]), final_centering_steps=0,
             warmstart_abort_threshold=1e15, maximum_mu=rng.choice([1e4, 100, 1]), inv_sqrt_mu_max=rng.choice([1000, 1000, 30]))
    lines += ["opt %s %s" % kv for kv in o.items()]
    lines.append("first %d" % rng.choice([0, 0, 1, 2, 3]))
    return "\n".join(lines)


def random_pick(rng):
    """a scripted solve (harness h_loop) in which the spectra are chosen; (text, spectra per round, rank, options)"""
    n, probes = 1, rng.randint(1, 3)
    rank = [rng.randint(1, 4) for _ in range(probes)]
    lines = ["n 1"] + ["probe 1 %d 40 0 0 0" % rank[i] for i in range(probes)] + ["cost 0"]
    dub = rng.choice([5, 10, 15, 30])
    kmin, kmax = rng.choice([(100, 100000), (1000, 100000), (5000, 30000)])
    opts = dict(max_iterations=4, final_centering_steps=0, enable_rescaling=0, divergence_upper_bound=dub / 10, maximum_mu=(10000 / kmin) ** 2,
                inv_sqrt_mu_max=kmax / 10000, kkt_error_tolerance=1e10, final_centering_tolerance=1e-9)
    lines += ["defaults"] + ["opt %s %s" % (a, num(b)) for a, b in opts.items()]
    spectra = []
    for _ in range(4):
        style = rng.random()
        mid = rng.randint(3, 27)
        row, lams = [], []
        for i in range(probes):
            lam = [max(1, mid + rng.randint(-3, 3)) if style < .5 else rng.randint(1, 30) if style < .9 else rng.randint(-5, 30) for _ in range(rank[i])]
            lams += lam
            x = [v / 10 for v in lam]
            row += [.5, 1 / 8, 0, 0, 0, min(x), max(x), sum(e * e for e in x), sum(x)]
        spectra.append(lams)
        lines.append("round 0 " + " ".join(num(float(v)) for v in row))
    lines.append("solve")
    return "\n".join(lines), spectra, dub * sum(rank), kmin, kmax


def run(ctx):
    rng = ctx.rng
    wide = "TRUE" if ctx.tier == "thorough" else "FALSE"
    rows = vlib.model_check(ctx, "BarrierModel", MODEL % ("rows", wide, "IsInterval EmptyIsEmpty SmallestUpperIsLargestCommon Emit"), timeout=800).json_marks()
    vlib.model_check(ctx, "BarrierModel", MODEL % ("spectra", wide, "Contiguous"), timeout=800)
    items = []
    for h in rows:
        # rows of the model, realized by the two variables: (direction at 0, change)
        A = [[r[0] - 1, r[0] + r[1] - 1] for r in h["rows"]]
        items.append(ls_case("linear", A, [0] * len(A), [1] * len(A), [1, 0], [0, 1], 0, 1, 2 * h["bound"]))
    items += [random_ls(rng) for _ in range(ctx.pick(3000, 40000))]
    items += [random_div(rng) for _ in range(ctx.pick(3000, 40000))]
    items += [(random_first(rng), {}) for _ in range(ctx.pick(1500, 20000))]
    exe = vlib.build("h_ls", "product")
    cases = [t for t, _ in items]
    recs, seen = [], {}
    for (_, a), rs in zip(items, vlib.run_cases(exe, cases)):
        recs.append([dict(r, **a) for r in rs])
        for r in rs:
            key = r["k"]
            if key == "ls":
                key = "ls: empty" if r["fail"] else "ls: interval"
            elif key == "div":
                key = "div: weight" if r["kk"] > 0 else "div: none"
            elif key == "first":
                key = "first: " + ("smallest" if r["kk"] <= r["kmin"] + 1 else "largest" if r["kk"] >= r["kmax"] - 1 else "between")
            seen[key] = seen.get(key, 0) + 1
    # weights chosen from scripted spectra
    loop = vlib.build("h_loop", "product")
    picks = [random_pick(rng) for _ in range(ctx.pick(800, 8000))]
    for (text, spectra, D, kmin, kmax), rs in zip(picks, vlib.run_cases(loop, [p[0] for p in picks])):
        out, rnd, asked = [], 0, False
        for r in rs:
            if r["k"] == "eig" and r["p"] == 0:
                asked = True
            elif r["k"] == "prep" and r["p"] == 0 and not r["affine"]:
                if asked:
                    out.append(dict(k="pick", case=r["case"], lam=spectra[min(rnd, 3)], D=D, kk=r["kk"] // 100, kmin=kmin, kmax=kmax))
                    seen["pick"] = seen.get("pick", 0) + 1
                rnd, asked = rnd + 1, False
            elif r["k"] in vlib.UNEXPECTED if hasattr(vlib, "UNEXPECTED") else r["k"] in ("crash", "exception", "garbled", "timeout"):
                out.append(r)
        recs.append(out)
        cases.append(text)
    ctx.extra["records"] = seen
    ctx.sample(cases[-1])
    for i, rec, why in vlib.validate(ctx, "BarrierTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:500]), cases[i])
    # the smallest of the intervals of scripted constraints
    c09.sessions(ctx, ctx.pick([(1, 500)], [(1, 4000), (2, 1500)]), keep=lambda h: any(x["c"]["ls"] for x in h))
    ctx.assumptions += ["intervals of a single weight are not judged", "without line search, weights at the limits are judged only against larger admissible ones"]
