"""Random constraints of every kind with integer data, scaling points with known roots, and planted steps."""
import math

LN2 = math.log(2)


# ---- hypercomplex arithmetic of the generator (the oracle is the specification, not this)
def _units(d):
    if d == 1:
        return {(0, 0): (1, 0)}
    h = d // 2
    u = _units(h)
    cs = lambda i: 1 if i == 0 else -1
    t = {}
    for i in range(h):
        for j in range(h):
            s, k = u[i, j]
            t[i, j] = (s, k)
            t[i, h + j] = (cs(i) * s, h + k)
            s2, k2 = u[j, i]
            t[h + i, j] = (s2, h + k2)
            t[h + i, h + j] = (-cs(i) * s2, k2)
    return t


TAB = {d: _units(d) for d in (1, 2, 4, 8)}


def hmul(x, y):
    d, r, n, c = len(x), len(x[0]), len(y[0]), len(y[0][0])
    z = [[[0] * c for _ in range(r)] for _ in range(d)]
    for a in range(d):
        for b in range(d):
            s, k = TAB[d][a, b]
            for i in range(r):
                for t in range(n):
                    if x[a][i][t]:
                        for j in range(c):
                            z[k][i][j] += s * x[a][i][t] * y[b][t][j]
    return z


def hadd(x, y, s=1):
    return [[[p + s * q for p, q in zip(u, v)] for u, v in zip(a, b)] for a, b in zip(x, y)]


def hsc(s, x):
    return [[[s * p for p in u] for u in a] for a in x]


def hquad(x, y):
    if len(x) < 8:
        return hmul(x, hmul(y, x))
    j2 = lambda a, b: hadd(hmul(a, b), hmul(b, a))
    q2 = hadd(j2(x, j2(x, y)), j2(hmul(x, x), y), -1)
    return [[[p // 2 for p in u] for u in a] for a in q2]


def hzero(d, n):
    return [[[0] * n for _ in range(n)] for _ in range(d)]


def hid(d, n):
    z = hzero(d, n)
    for i in range(n):
        z[0][i][i] = 1
    return z


def herm(rng, d, n, mag, density=.7):
    z = hzero(d, n)
    for k in range(d):
        for i in range(n):
            for j in range(i, n):
                if rng.random() < density:
                    v = rng.randint(-mag, mag)
                    if k == 0:
                        z[k][i][j] = z[k][j][i] = v
                    elif i != j:
                        z[k][i][j], z[k][j][i] = v, -v
    return z


# ---- elements of any kind
class Kind:
    def __init__(self, rng, kind=None, big=False):
        self.kind = kind or rng.choice(["linear", "psd", "herm", "soc", "quad"])
        self.dim, self.Q = 0, []
        k = self.kind
        if k == "linear":
            self.n = rng.choice([1, 2, 3, 4, 5, 7]) if not big else rng.randint(6, 13)
        elif k == "psd":
            self.n, self.dim = rng.choice([1, 2, 3, 4, 5]), 1
        elif k == "herm":
            self.dim = rng.choice([1, 2, 4, 8])
            self.n = rng.choice([1, 2, 3] if self.dim == 8 else [1, 2, 3, 4])
        else:
            self.n = rng.choice([1, 2, 3, 4, 5])
            if k == "quad" and rng.random() < .8:
                n = self.n
                L = [[rng.randint(-1, 1) if j < i else (1 if j == i else 0) for j in range(n)] for i in range(n)]
                self.Q = [[sum(L[i][t] * L[j][t] for t in range(n)) for j in range(n)] for i in range(n)]
        self.matrix = k in ("psd", "herm")
        self.soc = k in ("soc", "quad")

    def unit(self):
        if self.kind == "linear":
            return [1] * self.n
        if self.matrix:
            return hid(self.dim, self.n)
        return [1] + [0] * self.n

    def element(self, rng, mag=2):
        if self.kind == "linear":
            return [rng.randint(-mag, mag) for _ in range(self.n)]
        if self.matrix:
            return herm(rng, self.dim, self.n, mag, rng.choice([.3, .7, 1]))
        return [rng.randint(-mag, mag) for _ in range(self.n + 1)]

    def add(self, x, y, s=1):
        return hadd(x, y, s) if self.matrix else [a + s * b for a, b in zip(x, y)]

    def sc(self, s, x):
        return hsc(s, x) if self.matrix else [s * a for a in x]

    def tail(self, x, y):
        n = self.n
        if not self.Q:
            return sum(a * b for a, b in zip(x[1:], y[1:]))
        return sum(x[i + 1] * self.Q[i][j] * y[j + 1] for i in range(n) for j in range(n))

    def quad(self, w, x):
        if self.kind == "linear":
            return [a * a * b for a, b in zip(w, x)]
        if self.matrix:
            return hquad(w, x)
        det = w[0] * w[0] - self.tail(w, w)
        d = w[0] * x[0] + self.tail(w, x)
        return [2 * d * a - det * (b if i == 0 else -b) for i, (a, b) in enumerate(zip(w, x))]

    def root(self, rng):
        """(v, adj, den): v in the cone, Q(v)Q(adj) = den."""
        if self.kind == "linear":
            v = [rng.choice([1, 1, 2, 3]) for _ in range(self.n)]
            lc = 1
            for a in v:
                lc = lc * a // math.gcd(lc, a)
            return v, [lc // a for a in v], lc * lc
        if self.matrix:
            n, d = self.n, self.dim
            v, adj, den = hid(d, n), hid(d, n), 1
            mode = rng.random()
            if mode < .3:
                i = rng.randrange(n)
                v[0][i][i] = 2
                adj = hsc(2, hid(d, n))
                adj[0][i][i] = 1
                den = 4
            elif mode < .85 and n > 1:
                i, j = rng.sample(range(n), 2)
                k, s = rng.randrange(d), rng.choice([-1, 1])
                for z, sg in ((v, s), (adj, -s)):
                    z[k][i][j] = sg
                    z[k][j][i] = sg if k == 0 else -sg
                v[0][i][i], v[0][j][j] = 2, 1
                adj[0][i][i], adj[0][j][j] = 1, 2
            return v, adj, den
        n = self.n
        for _ in range(50):
            v = [rng.choice([1, 2, 3])] + [rng.choice([0, 0, -1, 1]) for _ in range(n)]
            det = v[0] * v[0] - self.tail(v, v)
            if det > 0 and det <= 5:
                return v, [v[0]] + [-a for a in v[1:]], det * det
        return self.unit(), self.unit(), 1

    def planted(self, rng, sd):
        """p with exp(ln 2 p sn/sd) rational"""
        if self.kind == "linear":
            return [sd * rng.randint(-2, 2) for _ in range(self.n)]
        if self.matrix:
            n, d = self.n, self.dim
            u = [(i, rng.randrange(d), rng.choice([-1, 1])) for i in
                 rng.sample(range(n), 2 if (n > 1 and self.kind == "psd" and rng.random() < .5) else 1)]
            if rng.random() < .1:
                return hzero(d, n)
            U = [[[0] for _ in range(n)] for _ in range(d)]
            for i, k, s in u:
                U[k][i][0] = s
            UC = [[[(1 if k == 0 else -1) * U[k][i][0] for i in range(n)]] for k in range(d)]
            return hsc(rng.choice([-1, 1]) * sd, hmul(U, UC))
        for _ in range(200):
            p = [rng.randint(-1, 1)] + [rng.choice([0, 0, 0, -1, 1, 2, -2]) for _ in range(self.n)]
            k2 = self.tail(p, p)
            if k2 in (0, 1, 4):
                return [sd * a for a in p]
        return [sd] + [0] * self.n

    def text(self, x):
        if self.matrix:
            if self.kind == "psd":
                x = x[:1]
            return " ".join(str(v) for m in x for row in m for v in row)
        return " ".join(str(v) for v in x)

    def new(self, A, C):
        """columns of A are the coefficients"""
        m = len(A)
        if self.matrix:
            body = " ".join([self.text(a) for a in A] + [self.text(C)])
        else:
            rows = self.n + (1 if self.soc else 0)
            body = " ".join(str(A[j][i]) for i in range(rows) for j in range(m))
            body = (" ".join(str(v) for r in self.Q for v in r) + " " if self.kind == "quad" and self.Q else "") + \
                (" ".join(str(A[j][i]) for i in range(rows) for j in range(m))) + " " + self.text(C)
            if self.kind == "quad" and self.Q:
                # the harness reads A and C before Q
                body = " ".join(str(A[j][i]) for i in range(rows) for j in range(m)) + " " + self.text(C) + " " + \
                    " ".join(str(v) for r in self.Q for v in r)
        dim = (1 if self.Q else 0) if self.kind == "quad" else self.dim
        return "new %s %d %d %d %s" % (self.kind, self.n, m, dim, body)

    def spec(self, A, C):
        return dict(kind=self.kind, A=A, C=C, Q=self.Q)


def ints(v):
    return " ".join(str(x) for x in v)


def schur(init, wd):
    return "schur %d %d %d" % (init, 2 * wd, 2 * wd * wd), dict(init=bool(init), s1=2 * wd, s2=2 * wd * wd)
