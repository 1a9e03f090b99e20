"""Programs that both interfaces can build."""
import conegen as g
import plangen


def expand(line, n, rng):
    """(line on all variables, or None) the form in which the C interface can state the constraint; with a style"""
    t = line.split()
    assert t[0] == "con"
    kind, nv = t[1], int(t[2])
    vs = [int(x) for x in t[3:3 + max(0, nv)]] if nv >= 0 else list(range(n))
    d = t[3 + max(0, nv):]
    style = rng.randint(0, 1)
    if kind == "cost":
        m = int(d[0])
        q = [int(x) for x in d[1:]]
        Q = [[0] * n for _ in range(n)]
        for i, u in enumerate(vs):
            for j, v in enumerate(vs):
                Q[u][v] += q[i * m + j]
        use = [v for v in range(n) if Q[v][v] > 0] if style == 0 else list(range(n))
        if not use:
            return None
        return "con %d cost %d %s %d %s" % (style, len(use), g.ints(use), len(use), g.ints(Q[u][v] for u in use for v in use))
    rows, m, dim = int(d[0]), int(d[1]), int(d[2])
    data = d[3:]
    if kind in ("lower", "upper"):
        s = -1 if kind == "lower" else 1
        data = [str(s * int(i == j)) for i in range(rows) for j in range(rows)] + [str(s * int(x)) for x in data]
        kind, m = "linear", rows
    if kind in ("linear", "soc", "eq"):
        r = rows + (kind == "soc")
        L = [[0] * n for _ in range(r)]
        for i in range(r):
            for j, v in enumerate(vs):
                L[i][v] += int(data[i * m + j])
        return "con %d %s -1 %d %d %d %s %s" % (style, kind, rows, n, dim, g.ints(x for q in L for x in q), " ".join(data[r * m:]))
    if kind in ("psd", "herm"):
        if kind == "psd" and style == 0:
            return "con 0 psd %d %s %s" % (len(vs), g.ints(vs), " ".join(d))
        size = rows * rows * (dim if kind == "herm" else 1)
        blocks = [[0] * size for _ in range(n)]
        for j, v in enumerate(vs):
            blocks[v] = [int(x) for x in data[j * size:(j + 1) * size]]
        return "con %d %s -1 %d %d %d %s %s" % (style, kind, rows, n, dim, g.ints(x for b in blocks for x in b), " ".join(data[m * size:]))
    return None


def twins(lines, p):
    """the last variable is replaced by the sum of two: the system to be factored is singular"""
    n = p["n"]
    out = []
    for t in lines:
        w = t.split()
        head, nv = w[:3], int(w[3])
        if nv >= 0:
            vs, d = w[4:4 + nv], w[4 + nv:]
            if str(n - 1) not in vs:
                out.append(t)
                continue
        else:
            vs, d = [str(v) for v in range(n)], w[4:]
        at, m = vs.index(str(n - 1)), len(vs)
        if head[2] == "cost":
            q = [d[1 + i * m:1 + (i + 1) * m] for i in range(m)]
            q = [r + [r[at]] for r in q]
            q.append(q[at])
            d = [str(m + 1)] + [x for r in q for x in r]
        else:
            rows, dim, data = int(d[0]), int(d[2]), d[3:]
            if head[2] in ("linear", "soc", "eq"):
                r = rows + (head[2] == "soc")
                body = [x for i in range(r) for x in data[i * m:(i + 1) * m] + [data[i * m + at]]]
                data = body + data[r * m:]
            else:
                size = rows * rows * (dim if head[2] == "herm" else 1)
                data = data[:m * size] + data[at * size:(at + 1) * size] + data[m * size:]
            d = [d[0], str(m + 1), d[2]] + data
        out.append(" ".join(head + ([str(nv + 1)] + vs + [str(n)] if nv >= 0 else ["-1"]) + d))
    return ["n %d" % (n + 1)] + out, dict(p, n=n + 1, b=p["b"] + p["b"][-1:])


def program(rng, qp, fates=("optimal",) * 4 + ("infeasible", "unbounded"), twin=False, most=4):
    """(lines, plan, kinds of the constraints in order)"""
    while True:
        fate = "optimal" if qp else rng.choice(fates)
        p = plangen.plan(rng, fate, rng.choice(["vertex", "interior"]) if fate == "optimal" else "none",
                         linear_only=qp or rng.random() < .35, quad_cost=qp, most=most)
        if not p or any(c["kind"] == "quad" for c in p["spec"]["cons"]):
            continue
        lines = [expand(t, p["n"], rng) for t in p["lines"]]
        if None not in lines:
            if twin:
                return twins(lines, p)
            return ["n %d" % p["n"]] + lines, p
