"""Sessions of cone constraints (C07, C19)."""
import math
import conegen as g
import vlib

LN2 = g.LN2
LAWS = "SelfAdjoint UnitActs TraceOfSquare Rank Fundamental".split()


def models(ctx):
    for k in ("linear", "soc", "quad", "psd", "complex"):
        vlib.model_check(ctx, "ConeLaws", 'CONSTANT Kind = "%s"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % k +
                         "".join("INVARIANT %s\n" % i for i in LAWS), 9)


def histories(ctx, depth):
    cfg = "CONSTANT Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK StartsWithPoint Emit\n" % depth
    r = vlib.model_check(ctx, "ConeSession", cfg, 100)
    hs = r.json_marks()
    if len(hs) < 50:
        raise vlib.CheckError("no histories\n" + r.out[-1500:])
    return hs


def exp_den(k, p, sn, sd, quarter):
    """denominator of exp(ln 2 p sn/sd), as ExpOf has it"""
    if quarter:
        return 10000
    div = lambda v: v * sn // sd
    if k.kind == "linear":
        return 2 ** max(0, -min(div(v) for v in p))
    if k.matrix:
        t = sum(p[0][i][i] for i in range(k.n)) * sn // sd
        sq = sum(v * v for m in p for row in m for v in row) * sn * sn // (sd * sd)
        m = sq // t if t else 0
        return 1 if m == 0 else (m if m > 0 else -m * 2 ** (-m))
    q = [div(v) for v in p]
    kk = math.isqrt(k.tail(q, q))
    b = 2 ** max(0, -q[0])
    return b if kk == 0 else 2 * kk * 2 ** kk * b


def exp_num(k, p, sn, sd, quarter):
    """numerator of exp(ln 2 p sn/sd), as ExpOf has it"""
    if quarter:
        up = sum(p[0][i][i] for i in range(k.n)) > 0
        return k.add(k.sc(10000, k.unit()), k.sc(1892 if up else 1591, p))
    div = lambda v: v * sn // sd
    if k.kind == "linear":
        q = [div(v) for v in p]
        K = max(0, -min(q))
        return [2 ** (a + K) for a in q]
    if k.matrix:
        q = [[[div(v) for v in r] for r in x] for x in p]
        t = sum(q[0][i][i] for i in range(k.n))
        sq = sum(v * v for x in q for row in x for v in row)
        m = sq // t if t else 0
        if m == 0:
            return k.unit()
        if m > 0:
            return k.add(k.sc(m, k.unit()), k.sc(2 ** m - 1, q))
        return k.add(k.sc(-m * 2 ** (-m), k.unit()), k.sc(2 ** (-m) - 1, q))
    q = [div(v) for v in p]
    kk = math.isqrt(k.tail(q, q))
    a = 2 ** max(0, q[0])
    if kk == 0:
        return [a] + [0] * k.n
    return [a * kk * (4 ** kk + 1)] + [a * (4 ** kk - 1) * v for v in q[1:]]


def flat(x):
    return [v for r in x for v in flat(r)] if isinstance(x, list) else [x]


def fits(k, w, A, C):
    """the products of the specification stay within 32 bits"""
    top = lambda x: max(abs(v) for v in flat(x))
    qn = 1 if not k.Q else sum(abs(v) for v in flat(k.Q))
    n = (k.n * k.dim if k.matrix else k.n + 1)
    sa = max(top(a) for a in A + [C])
    return 8 * n ** (4 if k.matrix else 2) * qn * qn * top(w) ** 2 * sa ** 2 < 500000000


def fl(x):
    return repr(float(x))


def session(rng, hist, kind=None, big=False):
    """text for the harness and the arguments of each record"""
    k = g.Kind(rng, kind, big)
    nsteps = hist.count("step")
    m = rng.choice([1, 2, 3, 4, 5] if not k.matrix else [1, 2, 3, 4])
    if big:
        m = rng.randint(6, 12)
    mag = rng.choice([1, 2, 3])
    # the root is fixed for the case; a planted step needs C and A_1 chosen for it
    if k.matrix and k.dim == 8 and nsteps:
        v, adj, den = k.unit(), k.unit(), 1
    else:
        v, adj, den = k.root(rng)
    quarter = k.kind == "herm" and k.dim == 8
    A = [k.element(rng, mag) for _ in range(m)]
    C = k.element(rng, mag)
    plant_at = None
    if nsteps:
        # which scaling point the (single) planted step starts from
        pt = None
        for op in hist:
            if op in ("identity", "setroot"):
                pt = op
            if op == "step":
                plant_at = pt
                break
        if plant_at == "identity":
            v, adj, den = k.unit(), k.unit(), 1
        sn, sd = rng.choice([(1, 1), (1, 1), (1, 2), (1, 4)]) if not quarter else (1, 4)
        p = k.planted(rng, 1 if quarter else sd)
        C = k.quad(adj, k.unit())
        y = [1] + [rng.choice([0, 0, 1, -1, 2]) for _ in range(m - 1)]
        rest = k.sc(0, C)
        for yi, a in zip(y[1:], A[1:]):
            rest = k.add(rest, k.sc(yi, a))
        A[0] = k.add(k.quad(adj, p), rest, -1)
        j = rng.randrange(m)
        A[0], A[j], y[0], y[j] = A[j], A[0], y[j], y[0]
    lines, args = [k.new(A, C)], [dict(c=k.spec(A, C))]
    wd = 1
    point = None
    root = v
    stepped = False
    dropped = 0
    for op in hist:
        if op == "identity":
            lines.append("identity")
            args.append({})
            point, wd, root, wnow = "unit", 1, k.unit(), k.unit()
        elif op in ("setroot", "setints"):
            if op == "setints":
                w, vv = k.element(rng, 2), []
                if k.soc:
                    # the second-order cone takes the root of its point
                    w, vv = k.quad(v, k.unit()), []
                    w = k.sc(rng.choice([1, 2]), w)
                if not k.matrix and not k.soc:
                    w = [abs(a) for a in w]
            else:
                w, vv = k.quad(v, k.unit()), v
            if k.kind == "herm":
                # Hermitian points can only be reached, not set: an affine step from the identity
                lines.append("identity")
                args.append({})
                point, wd, root, wnow = "unit", 1, k.unit(), k.unit()
                continue
            lines.append("setw " + (k.text(w)))
            args.append(dict(w=w, v=vv))
            point, wd, root, wnow = ("root" if vv else "ints"), 1, vv, w
        elif op == "affine":
            if (k.kind == "herm" and k.dim == 8) or point in ("out", "frac", "stale", None):
                continue
            yy = [rng.randint(-1, 1) for _ in range(m)]
            cw, ew = (0, 0) if k.kind == "linear" else (rng.choice([0, 0, 1]), rng.choice([0, 0, 1]))
            ms = k.sc(-cw, C)
            for yi, a in zip(yy, A):
                ms = k.add(ms, k.sc(yi, a))
            nw = k.add(k.sc(1 + ew, wnow), k.quad(wnow, ms))
            if not fits(k, nw, A, C):
                continue
            wnow = nw
            lines.append("affine %d %d 1 1 %s" % (cw, ew, g.ints(yy)))
            args.append(dict(y=yy, cw=cw, ew=ew))
            point = "ints"
            if k.soc:
                # the point may have left the cone: nothing but the multiplier is defined there
                point = "out"
        elif op in ("prep", "eig"):
            if point not in ("unit", "root"):
                continue
            yy = [rng.randint(-1, 1) for _ in range(m)]
            cw = rng.choice([0, 1, 1])
            lines.append(("prep %d 1 1 100 %s" if op == "prep" else "eig %d 100 %s") % (cw, g.ints(yy)))
            args.append(dict(y=yy, cw=cw))
            if op == "prep":
                point = "stale"
        elif op == "step":
            if point not in ("unit", "root") or stepped or root != v:
                continue
            stepped = True
            lines.append("step %s 1 %s 10000 %s" % (fl(1 / den), fl(sn / sd), " ".join(fl(LN2 * a / den) for a in y)))
            args.append(dict(y=y, den=den, sn=sn, sd=sd, quarter=quarter))
            wd = exp_den(k, p, sn, sd, quarter)
            wnow = k.quad(v, exp_num(k, p, sn, sd, quarter))
            point = "frac"
        elif op in ("schur", "add"):
            if point in ("stale", None, "out"):
                continue
            if not fits(k, wnow, A, C):
                dropped += 1
                continue
            l, a = g.schur(op == "schur", wd)
            lines.append(l)
            args.append(a)
        elif op == "dual":
            # the multiplier is maintained by the steps, not by setting the point
            if point in ("stale", None):
                continue
            if k.soc and point == "root":
                continue
            if k.soc and point == "ints":
                continue
            if k.kind == "herm" and point in ("unit", "root"):
                continue
            lines.append("dual %d" % wd)
            args.append({})
    return k, "\n".join(lines), args


def check(ctx, exe, items, label, kinds=None):
    """items: (kind, text, args); only records of the given kinds (and crashes) are judged"""
    cases = [t for _, t, _ in items]
    recs = vlib.run_cases(exe, cases)
    for (k, t, args), rs in zip(items, recs):
        for r, a in zip(rs, args):
            r.update(a)
    ctx.sample(cases[-1][:300])
    for i, r, why in vlib.validate(ctx, "ConeTrace", recs):
        k = items[i][0]
        if kinds and r.get("k") not in kinds:
            continue
        ctx.violation("%s cone, %s: %s" % (k.kind, r.get("k"), why[:300]), cases[i], key="%s-%s" % (label, k.kind))
