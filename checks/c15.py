"""C15: matrix algebra over the hypercomplex algebras."""
import itertools
import json
import vlib

NOTE = ("TLC proves the algebra laws for the specified multiplication (polynomial identities on all sums of two units); "
        "every operation of the code is then compared by TLC with that specification: all products of basis matrices, "
        "and random integer matrices of every shape")


def zero(dim, r, c):
    return [[[0] * c for _ in range(r)] for _ in range(dim)]


def text(dim, X, Y, s, orth):
    r, k = len(X[0]), len(X[0][0])
    k2, c = len(Y[0]), len(Y[0][0])
    flat = lambda Z: " ".join(str(v) for m in Z for row in m for v in row)
    return "op %d %d %d %d %d %d %d %s %s" % (dim, r, k, k2, c, s, orth, flat(X), flat(Y))


def run(ctx):
    rng = ctx.rng
    for d in (1, 2, 4, 8):
        invs = ("NormsMultiply ConjReverses Alternative NormFromConj Associates Commutes QuadLaws "
                "QuadOfIdentity").split()
        vlib.model_check(ctx, "HypercomplexLaws",
                         "CONSTANT D = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % d +
                         "".join("INVARIANT %s\n" % i for i in invs))
    exe = vlib.build("h_alg")
    items = []

    def basis(dim, r, c):
        for k in range(dim):
            for i in range(r):
                for j in range(c):
                    Z = zero(dim, r, c)
                    Z[k][i][j] = 1
                    yield Z
    # the operations are bilinear: all pairs of basis matrices
    shapes = [(1, 1, 1), (1, 2, 1), (2, 1, 2)] if not ctx.thorough() else [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2)]
    for dim in (1, 2, 4, 8):
        for (r, k, c) in shapes:
            for X, Y in itertools.product(basis(dim, r, k), basis(dim, k, c)):
                items.append((dim, X, Y, rng.randint(-3, 3), 0))

    def rnd(dim, r, c, herm, mag):
        Z = zero(dim, r, c)
        for k in range(dim):
            for i in range(r):
                for j in range(c):
                    Z[k][i][j] = rng.randint(-mag, mag) if rng.random() < .8 else 0
        if herm and r == c:
            for k in range(dim):
                for i in range(r):
                    for j in range(i, r):
                        if k == 0:
                            Z[k][j][i] = Z[k][i][j]
                        else:
                            Z[k][j][i] = -Z[k][i][j]
                            if i == j:
                                Z[k][i][i] = 0
        return Z
    for _ in range(ctx.pick(1500, 20000)):
        dim = rng.choice([1, 2, 4, 8])
        mx = 3 if dim == 8 else 4
        mode = rng.random()
        if mode < .6:
            n = rng.randint(1, mx)
            X = rnd(dim, n, n, rng.random() < .7, 3)
            Y = rnd(dim, n, n, rng.random() < .7, 3)
            if rng.random() < .1:
                Y = X
            elif rng.random() < .1:
                Y = json.loads(json.dumps(X))
                Y[rng.randrange(dim)][rng.randrange(n)][rng.randrange(n)] += rng.choice([-1, 1])
            if rng.random() < .15:     # Hermitian up to a single component
                Y0 = rng.randrange(dim)
                i, j = rng.randrange(n), rng.randrange(n)
                X[Y0][i][j] += 1
        else:
            r, k, c = rng.randint(1, mx), rng.randint(1, mx), rng.randint(1, mx)
            X, Y = rnd(dim, r, k, False, 3), rnd(dim, k, c, False, 3)
        orth = 0
        if dim < 8 and mode < .2:
            X = rnd(dim, len(X[0]), len(X[0]), False, 2)
            for i in range(len(X[0])):
                X[0][i][i] += 9      # well-conditioned columns
            orth = 1
        items.append((dim, X, Y, rng.randint(-3, 3), orth))
    # one case per item, several lines per case would mix up a crash
    cases = [text(*it) for it in items]
    recs = vlib.run_cases(exe, cases)
    for it, rs in zip(items, recs):
        for r in rs:
            r.update(x=it[1], y=it[2], s=it[3])
    ctx.sample(cases[-1][:200])
    for i, r, why in vlib.validate(ctx, "AlgebraTrace", recs):
        ctx.violation("operation over the algebra of dimension %d: %s" % (items[i][0], why[:300]), cases[i],
                      key="dim%d" % items[i][0])
    ctx.assumptions.append("integer entries of magnitude at most 12; orders up to 4 (3 for octonions)")
