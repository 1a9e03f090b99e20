"""C03: the sparse factorization solves the assembled system in every mode."""
import kktgen as g
import kktcommon
import vlib

NOTE = ("call histories enumerated by TLC are replayed on integer systems with planted integer solutions; "
        "TLC checks definiteness verdicts and that every returned vector is the solution")


def run(ctx):
    rng = ctx.rng
    exe = vlib.build("h_kkt")
    hist = kktcommon.histories(ctx, ctx.pick(7, 8))
    good = [h for h in hist if h[-1] in ("solve", "solvein")]
    progs = []
    for _ in range(ctx.pick(1500, 15000)):
        n = rng.randint(1, 10)
        cons = g.program(rng, n, eq=rng.random() < 0.5)
        progs.append((n, cons, rng.choice(good), True))
    # larger separators and supernodes
    for _ in range(ctx.pick(100, 1000)):
        n = rng.randint(10, 16)
        cons = g.program(rng, n, eq=rng.random() < 0.5, max_eq=5)
        progs.append((n, cons, rng.choice(good), True))
    # definiteness: indefinite systems must be rejected in Cholesky mode
    fh = ["assemble", "factor", "assemble", "factor"]
    for _ in range(ctx.pick(400, 4000)):
        n = rng.randint(1, 5)
        cons = g.program(rng, n, eq=False, definite=rng.random() < 0.5)
        if rng.random() < 0.5:
            c = g.subset(rng, n)
            G = [[0] * len(c) for _ in c]
            k = rng.randrange(len(c))
            G[k][k] = -rng.choice([1, 2, 5, 40])
            cons.append(dict(kind="probe", vars=c, G=G, AW=[0] * len(c), AQc=[0] * len(c), wc=0, cqc=0))
        progs.append((n, cons, (["mode %d" % rng.randint(0, 1)] if rng.random() < .3 else []) + fh, False))
    kktcommon.validate(ctx, exe, progs, "C03")
    ctx.assumptions += ["planted systems are well conditioned (diagonally dominant, equalities of full rank)",
                        "solutions are compared to 3 units in 1e-3"]
