"""Programs with a planted outcome: the certificate of the outcome is part of the plan and is verified by the specification."""
from fractions import Fraction

import conegen as g


def frame(rng, K):
    """orthogonal primitive elements that span a diagonal"""
    n = K.n
    if K.kind == "linear":
        return [[int(i == j) for i in range(n)] for j in range(n)]
    if K.matrix:
        d = K.dim
        E = []
        for i in range(n):
            z = g.hzero(d, n)
            z[0][i][i] = 1
            E.append(z)
        idx = list(range(n))
        rng.shuffle(idx)
        for i, j in zip(idx[::2], idx[1::2]):
            if rng.random() < .7:
                k = rng.randrange(d)
                for s, t in ((1, i), (-1, j)):
                    U = [[[0] for _ in range(n)] for _ in range(d)]
                    U[0][i][0] = 1
                    U[k][j][0] = s
                    UC = [[[(1 if a == 0 else -1) * U[a][r][0] for r in range(n)]] for a in range(d)]
                    E[t] = g.hmul(U, UC)
        return E
    if n == 0:
        return [[1]]
    for _ in range(60):
        v = [rng.choice([0, 0, 1, -1, 2, 3, 4]) for _ in range(n)]
        q = K.tail([0] + v, [0] + v)
        r = int(round(q ** .5))
        if q and r * r == q and r <= 5:
            return [[r] + v, [r] + [-a for a in v]]
    for i in range(n):
        if not K.Q or K.Q[i][i] in (1, 4):
            v = [0] * n
            v[i] = 1
            r = 1 if not K.Q else int(round(K.Q[i][i] ** .5))
            return [[r] + v, [r] + [-a for a in v]]
    return None


def comb(K, coef, E):
    z = K.sc(0, E[0])
    for a, e in zip(coef, E):
        z = K.add(z, K.sc(a, e))
    return z


def ip(K, x, y):
    if K.kind == "linear":
        return sum(a * b for a, b in zip(x, y))
    if K.matrix:
        return sum(a * b for p, q in zip(x, y) for u, v in zip(p, q) for a, b in zip(u, v))
    return 2 * (x[0] * y[0] + K.tail(x, y))


def flat(K, x):
    return [a for m in x for r in m for a in r] if K.matrix else list(x)


def rank(rows):
    rows = [[Fraction(a) for a in r] for r in rows]
    rk = 0
    cols = len(rows[0]) if rows else 0
    for c in range(cols):
        p = next((i for i in range(rk, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[rk], rows[p] = rows[p], rows[rk]
        for i in range(rk + 1, len(rows)):
            f = rows[i][c] / rows[rk][c]
            if f:
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[rk])]
        rk += 1
    return rk


class Con:
    """A constraint C - A(y) in K on variables vars, with the planted slack and multiplier as combinations of frames."""
    def __init__(self, K, vars_, A, s, sf, x, xf, text=None):
        self.K, self.vars, self.A, self.s, self.sf, self.x, self.xf, self.kindtext = K, vars_, A, s, sf, x, xf, text
        self.C, self.rayf = None, []

    def finish(self, y):
        z = self.s
        for a, v in zip(self.A, self.vars):
            z = self.K.add(z, self.K.sc(y[v], a))
        self.C = z

    def line(self, nv):
        vs = "-1" if self.vars == list(range(nv)) and nv % 2 else "%d %s" % (len(self.vars), g.ints(self.vars))
        if self.kindtext == "lower" or self.kindtext == "upper":
            sg = -1 if self.kindtext == "lower" else 1
            return "con %s %d %s %d %d 0 %s" % (self.kindtext, len(self.vars), g.ints(self.vars), self.K.n, self.K.n,
                                               g.ints(sg * c for c in self.C))
        t = self.K.new(self.A, self.C).split()
        return "con %s %s %s" % (t[1], vs, " ".join(t[2:]))

    def spec(self):
        K = self.K
        return dict(kind=K.kind, A=self.A, C=self.C, Q=K.Q, vars=[v + 1 for v in self.vars], s=self.s, sf=self.sf, x=self.x, xf=self.xf, rayf=self.rayf,
                    has=0 if K.kind == "herm" and K.dim > 1 else 1)


KINDS = ["linear", "linear", "psd", "psd", "herm", "soc", "soc", "quad"]


def kind(rng, nv, linear_only=False):
    K = g.Kind(rng, "linear" if linear_only else rng.choice(KINDS))
    if K.kind == "linear":
        K.n = rng.randint(1, 5)
    elif K.matrix:
        K.n = rng.choice([1, 2, 2, 3]) if K.dim < 8 else rng.choice([1, 2])
    else:
        K.n = rng.randint(1, 4)
        if K.Q:
            K.Q = [r[:K.n] for r in K.Q[:K.n]]
            if len(K.Q) < K.n:
                K.Q = []
    return K


def coef(rng, lo, hi, n):
    return [rng.randint(lo, hi) for _ in range(n)]


def sparse_element(rng, K, mag):
    z = K.element(rng, mag)
    return K.sc(0, z) if rng.random() < .15 else z


def bounds(rng, vs, y, slack, mult):
    """two-sided rows on variables vs, as linear rows or bound constraints"""
    out = []
    for sg in (1, -1):
        K = g.Kind(rng, "linear")
        K.n = len(vs)
        A = [[sg if i == j else 0 for i in range(K.n)] for j in range(K.n)]
        s = [slack() for _ in vs]
        x = [mult() for _ in vs]
        text = ("upper" if sg > 0 else "lower") if rng.random() < .5 else None
        E = frame(rng, K)
        out.append(Con(K, list(vs), A, s, list(zip(s, E)), x, list(zip(x, E)), text))
    return out


def equalities(rng, n, r, skip=()):
    """(E, Z): r equations on variables outside skip, and an integer basis of their null space"""
    free = [v for v in range(n) if v not in skip]
    if len(free) <= r or r == 0:
        return [], [[int(i == j) for i in range(n)] for j in range(n)]
    piv = rng.sample(free, r)
    E = [[0] * n for _ in range(r)]
    for i in range(r):
        E[i][piv[i]] = 1
        for v in free:
            if v not in piv:
                E[i][v] = rng.choice([0, 0, 1, -1, 2])
    Z = []
    for v in range(n):
        if v in piv:
            continue
        z = [0] * n
        z[v] = 1
        for i in range(r):
            z[piv[i]] = -E[i][v]
        Z.append(z)
    return E, Z


def eq_lines(rng, E, f, n):
    """the equations, split over one or more constraints, each on the variables it mentions (or all)"""
    lines = []
    rows = list(range(len(E)))
    while rows:
        k = rng.randint(1, len(rows))
        part, rows = rows[:k], rows[k:]
        vs = [v for v in range(n) if any(E[i][v] for i in part)]
        if rng.random() < .3:
            vs = list(range(n))
        rng.shuffle(vs)
        lines.append("con eq %d %s %d %d 0 %s %s" % (len(vs), g.ints(vs), len(part), len(vs),
                                                    g.ints(E[i][v] for i in part for v in vs), g.ints(f[i] for i in part)))
    return lines


def plan(rng, fate, family="vertex", linear_only=False, quad_cost=False, most=6):
    """dict(lines, spec, n, b) or None"""
    n = rng.randint(1, most)
    y = coef(rng, -2, 2, n)
    d = None
    cons = []
    r = rng.choice([0, 0, 1, 2]) if n > 2 else 0
    H = [[0] * n for _ in range(n)]
    costs = []
    if quad_cost:
        for _ in range(rng.randint(1, 2)):
            vs = rng.sample(range(n), rng.randint(1, n))
            L = [[rng.randint(-1, 1) for _ in vs] for _ in range(rng.randint(1, len(vs)))]
            Q = [[sum(l[i] * l[j] for l in L) for j in range(len(vs))] for i in range(len(vs))]
            costs.append("con cost %d %s %d %s" % (len(vs), g.ints(vs), len(vs), g.ints(a for q in Q for a in q)))
            for i, u in enumerate(vs):
                for j, v in enumerate(vs):
                    H[u][v] += Q[i][j]
    v0 = rng.randrange(n)
    E, Z = equalities(rng, n, r, (v0,))
    for _ in range(rng.randint(1, 3)):
        K = kind(rng, n, linear_only)
        F = frame(rng, K)
        if F is None:
            return None
        m = rng.randint(1, n)
        vs = rng.sample(range(n), m)
        A = [sparse_element(rng, K, 1 if K.matrix else 2) for _ in vs]
        if family == "vertex" and fate == "optimal":
            if v0 not in vs:
                vs[0] = v0
            A[vs.index(v0)] = K.unit()
            sa, xb = [], []
            for _ in F:
                t = rng.random()
                sa.append(rng.randint(1, 2) if t < .5 else 0)
                xb.append(rng.randint(1, 2) if t >= .5 and t < .95 else 0)
        else:
            sa = coef(rng, 1, 3, len(F))
            xb = coef(rng, 1, 3, len(F))
        cons.append(Con(K, vs, A, comb(K, sa, F), list(zip(sa, F)), comb(K, xb, F), list(zip(xb, F))))
    vs = list(range(n))
    rng.shuffle(vs)
    if fate == "optimal":
        d = [-int(v == v0) for v in range(n)]
        if family == "vertex":
            k = rng.randint(1, n)
            for part in (vs[:k], vs[k:]):
                if part:
                    cons += bounds(rng, part, y, lambda: rng.randint(1, 3), lambda: 0)
        elif rng.random() < .5:
            part = rng.sample(vs, rng.randint(1, n))
            cons += bounds(rng, part, y, lambda: rng.randint(1, 3), lambda: rng.randint(1, 2))
    elif fate == "unbounded":
        while True:
            d = [sum(c * z[v] for c, z in zip(coefs, Z)) for coefs in [coef(rng, -1, 1, len(Z))] for v in range(n)]
            if any(d):
                break
        for c in cons:
            hit = [i for i, v in enumerate(c.vars) if abs(d[v]) == 1]
            if not hit:
                if any(d[v] for v in c.vars):
                    return None
                c.rayf = [(0, e) for _, e in c.sf]
                continue
            i = rng.choice(hit)
            K = c.K
            F = [e for _, e in c.sf]
            w = coef(rng, 0, 2, len(F))
            a = comb(K, w, F)    # -A d = a
            c.rayf = list(zip(w, F))
            for j, v in enumerate(c.vars):
                if j != i:
                    a = K.add(a, K.sc(d[v], c.A[j]))
            c.A[i] = K.sc(-d[c.vars[i]], a)
        rows = [(v, sg) for v in range(n) for sg in (1, -1) if sg * d[v] <= 0]
        K = g.Kind(rng, "linear")
        K.n = len(rows)
        F = frame(rng, K)
        s = coef(rng, 1, 3, K.n)
        cons.append(Con(K, list(range(n)), [[sg * int(u == v) for u, sg in rows] for v in range(n)], s, list(zip(s, F)),
                        [0] * K.n, [(0, e) for e in F]))
    else:
        # a ray of multipliers: one linear row balances every variable and makes <c, x> + f'l negative
        K = g.Kind(rng, "linear")
        K.n = rng.randint(1, 3)
        F = frame(rng, K)
        A = [[rng.randint(-1, 1) for _ in range(K.n)] for _ in range(n)]
        x = [1] + coef(rng, 0, 2, K.n - 1)
        cons.append(Con(K, list(range(n)), A, [0] * K.n, [], x, list(zip(x, F))))
    lam = coef(rng, -2, 2, len(E))
    f = [sum(e[v] * y[v] for v in range(n)) for e in E]
    if fate == "infeasible":
        if rng.random() < .5:
            part = rng.sample(vs, rng.randint(1, n))
            cons += bounds(rng, part, y, lambda: rng.randint(1, 3), lambda: rng.randint(0, 1))
        last = next(c for c in cons if c.K.kind == "linear" and c.kindtext is None and c.sf == [])
        for v in range(n):
            t = sum(ip(c.K, c.A[c.vars.index(v)], c.x) for c in cons if v in c.vars) + sum(l * e[v] for l, e in zip(lam, E))
            last.A[v][0] -= t
        for c in cons:
            c.finish(y)
        t = sum(ip(c.K, c.C, c.x) for c in cons) + sum(l * q for l, q in zip(lam, f))
        gap = rng.randint(1, 4)
        last.C[0] -= t + gap
        # a cost for which the other side is feasible
        xt = []
        for c in cons:
            if c.sf:
                xt.append([(rng.randint(1, 2), e) for _, e in c.sf])
            else:
                xt.append([(rng.randint(1, 2), e) for _, e in zip(range(c.K.n), frame(rng, c.K))])
        lt = coef(rng, -1, 1, len(E))
        b = [sum(l * e[v] for l, e in zip(lt, E)) for v in range(n)]
        for c, w in zip(cons, xt):
            x = comb(c.K, [a for a, _ in w], [e for _, e in w])
            for i, v in enumerate(c.vars):
                b[v] += ip(c.K, c.A[i], x)
        spec = [dict(c.spec(), xt=w) for c, w in zip(cons, xt)]
    else:
        for c in cons:
            c.finish(y)
        if fate == "optimal":
            b = [sum(ip(c.K, c.A[c.vars.index(v)], c.x) for c in cons if v in c.vars) + sum(l * e[v] for l, e in zip(lam, E))
                 + sum(H[v][u] * y[u] for u in range(n)) for v in range(n)]
        else:
            b = [rng.randint(-2, 2) for _ in range(n)]
            t = sum(p * q for p, q in zip(b, d))
            v = next(v for v in range(n) if abs(d[v]) == 1) if any(abs(e) == 1 for e in d) else None
            if v is None:
                return None
            b[v] += d[v] * (rng.randint(1, 3) - t)
        lt = [0] * len(E)
        spec = [dict(c.spec(), xt=[]) for c in cons]
    # the variables are determined: no direction leaves every constraint unchanged
    rows = [list(e) for e in E]
    for c in cons:
        cols = [flat(c.K, a) for a in c.A]
        for i in range(len(cols[0])):
            row = [0] * n
            for v, col in zip(c.vars, cols):
                row[v] = col[i]
            rows.append(row)
    if rank(rows) < n:
        return None
    if max([abs(a) for c in cons for x in c.A + [c.C] for a in flat(c.K, x)] + [abs(a) for a in b]) > 60:
        return None
    lines = [c.line(n) for c in cons] + costs
    order = list(range(len(lines)))
    eqs = eq_lines(rng, E, f, n)
    body = lines + eqs
    # equalities and costs anywhere among the constraints; the plan lists what the harness lists, in order
    slots = [("c", i) for i in range(len(cons))] + [("h", i) for i in range(len(costs))] + [("e", i) for i in range(len(eqs))]
    order = list(range(len(slots)))
    rng.shuffle(order)
    text = [body[i] for i in order]
    listing = [slots[i] for i in order if slots[i][0] != "h"]
    return dict(lines=text, n=n, b=b,
                spec=dict(k="plan", fate=fate, family=family, n=n, cons=spec, order=[(i + 1 if w == "c" else 0) for w, i in listing],
                          E=E, f=f, lam=lam, lamt=lt, Z=Z, H=H, qp=len(costs), b=b, y=y, d=d or [0] * n, v0=v0 + 1))
