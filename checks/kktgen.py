"""Random programs for the Newton-system harness (h_kkt)."""


def subset(rng, n, lo=1, hi=None):
    k = rng.randint(lo, min(n, hi or n))
    v = rng.sample(range(n), k)
    return v


def sym(rng, m, a=4):
    M = [[0] * m for _ in range(m)]
    for i in range(m):
        for j in range(i + 1):
            M[i][j] = M[j][i] = rng.randint(-a, a)
    return M


def spd(rng, m, boost=1):
    """Integer, strictly diagonally dominant."""
    M = sym(rng, m, 2)
    for i in range(m):
        M[i][i] = sum(abs(M[i][j]) for j in range(m) if j != i) + rng.randint(1, 3) * boost
    return M


def structured_cliques(rng, n):
    """Families with interesting overlap: paths, stars, nested, forests, duplicates, random."""
    kind = rng.randrange(7)
    out = []
    if kind == 0:  # path of overlapping windows
        w = rng.randint(1, 3)
        step = rng.randint(1, w)
        p = 0
        while p < n:
            out.append(list(range(p, min(n, p + w))))
            p += step
    elif kind == 1:  # star
        c = rng.sample(range(n), min(n, rng.randint(1, 2)))
        out = [c + [v] for v in range(n) if v not in c] or [c]
    elif kind == 2:  # nested
        perm = rng.sample(range(n), n)
        k = n
        while k >= 1:
            out.append(perm[:k])
            k -= rng.randint(1, 2)
    elif kind == 3:  # forest of blocks
        perm = rng.sample(range(n), n)
        p = 0
        while p < n:
            w = rng.randint(1, 3)
            out.append(perm[p:p + w])
            p += w
    elif kind == 4:  # cycle: forces fill-in
        perm = rng.sample(range(n), n)
        out = [[perm[i], perm[(i + 1) % n]] if n > 1 else [0] for i in range(n)]
    elif kind == 5:  # random pairs/triples
        for _ in range(rng.randint(n, 2 * n)):
            out.append(subset(rng, n, 1, 3))
    else:
        for _ in range(rng.randint(1, n + 2)):
            out.append(subset(rng, n))
    rng.shuffle(out)
    for c in out:
        rng.shuffle(c)
    if rng.random() < 0.3:
        out.append(list(rng.choice(out)))
    missing = [v for v in range(n) if not any(v in c for c in out)]
    for v in missing:
        out.insert(rng.randint(0, len(out)), [v])
    return out


def program(rng, n, eq=True, definite=True, max_eq=3):
    """A list of constraints: dicts with kind, vars, data."""
    cons = []
    for c in structured_cliques(rng, n):
        r = rng.random()
        m = len(c)
        if r < 0.55:
            cons.append(dict(kind="probe", vars=c, G=(spd if definite else sym)(rng, m),
                             AW=[rng.randint(-5, 5) for _ in c], AQc=[rng.randint(-5, 5) for _ in c],
                             wc=rng.randint(-9, 9), cqc=rng.randint(-9, 9)))
        elif r < 0.8:
            rows = rng.randint(1, 4)
            A = [[rng.randint(-3, 3) for _ in c] for _ in range(rows)]
            if definite:
                A = A[:max(0, rows - 1)] + [[rng.choice([1, 2]) if i == j else 0 for i in range(m)] for j in range(m)]
            cons.append(dict(kind="lin", vars=c, A=A, c=[rng.randint(-3, 3) for _ in A]))
        else:
            cons.append(dict(kind="quad", vars=c, Q=(spd if definite else sym)(rng, m)))
    if eq and n >= 2:
        used = set()
        for _ in range(rng.randint(0, max_eq)):
            if rng.random() < 0.5:
                free = [v for v in range(n) if v not in used]
                if len(free) < 2:
                    break
                c = rng.sample(free, rng.randint(2, min(4, len(free))))
            else:
                c = subset(rng, n, 2, 4)
            rows = 1 if len(c) < 3 else rng.randint(1, 2)
            # the pivot columns are private to this equality, so all equalities together have full rank
            piv = [v for v in c if v not in used][:rows]
            if len(piv) < rows:
                continue
            A = []
            for i in range(rows):
                A.append([(1 if v == piv[i] else 0) if v in piv else (0 if v in used else rng.randint(-2, 2))
                          for v in c])
            used |= set(piv) | set(c)
            cons.insert(rng.randint(0, len(cons)), dict(kind="eq", vars=c, A=A, c=[rng.randint(-3, 3) for _ in A]))
    return cons


def size(n, cons):
    return n + sum(len(k["A"]) for k in cons if k["kind"] == "eq")


def kkt(n, cons):
    N = size(n, cons)
    K = [[0] * N for _ in range(N)]
    d = n
    for k in cons:
        v = k["vars"]
        if k["kind"] in ("probe", "quad"):
            M = k["G"] if k["kind"] == "probe" else k["Q"]
            for i, a in enumerate(v):
                for j, b in enumerate(v):
                    K[a][b] += M[i][j]
        elif k["kind"] == "lin":
            for row in k["A"]:
                for i, a in enumerate(v):
                    for j, b in enumerate(v):
                        K[a][b] += row[i] * row[j]
        else:
            for row in k["A"]:
                for i, a in enumerate(v):
                    K[a][d] += row[i]
                    K[d][a] += row[i]
                d += 1
    return K


def text(con):
    flat = lambda M: " ".join(str(x) for r in M for x in r)
    v = "%d %s" % (len(con["vars"]), " ".join(map(str, con["vars"])))
    if con["kind"] == "probe":
        return "probe %s %s %s %s %d %d" % (v, flat(con["G"]), " ".join(map(str, con["AW"])),
                                            " ".join(map(str, con["AQc"])), con["wc"], con["cqc"])
    if con["kind"] == "quad":
        return "quad %s %s" % (v, flat(con["Q"]))
    return "%s %s %d %s %s" % (con["kind"], v, len(con["A"]), flat(con["A"]), " ".join(map(str, con["c"])))
