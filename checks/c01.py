"""C01: elimination ordering and fill-in storage."""
import itertools
import kktgen
import vlib

NOTE = ("TLC model of the path-filling elimination design; structures computed by the code for enumerated and "
        "random families are validated against the same validity predicate by TLC")
MC = """SPECIFICATION Spec
CONSTANTS NumCliques = %d NumVars = %d
INVARIANT Valid
PROPERTY OwnerMovesUp
CHECK_DEADLOCK FALSE
"""


def fmt(root, leaf, cl):
    return "%d %d %s %d %s" % (root, len(leaf), " ".join(map(str, leaf)), len(cl),
                               " ".join("%d %s" % (len(c), " ".join(map(str, c))) for c in cl))


def run(ctx):
    rng = ctx.rng
    vlib.model_check(ctx, "CliqueTree", MC % (3, 3), 1000)
    if ctx.thorough():
        vlib.model_check(ctx, "CliqueTree", MC % (4, 3), 10000, timeout=1500)
        vlib.model_check(ctx, "CliqueTree", MC % (3, 5), 10000, timeout=2500)
    exe = vlib.build("h_sym")
    cases = []

    def add(cl, roots, leafs=((),)):
        for root in roots:
            for leaf in leafs:
                leaf = list(leaf)
                ops = ["pick " + fmt(root, leaf, cl)]
                mx = max(max(c) for c in cl)
                if len(set(v for c in cl for v in c)) == mx + 1:
                    ops.append("data " + fmt(root, leaf, cl))
                cases.append("\n".join(ops))

    # every family of at most 3 groups over at most 3 variables (4 in the thorough tier)
    for nv, nc in ctx.pick([(3, 1), (3, 2), (3, 3)], [(3, 1), (3, 2), (3, 3), (4, 3)]):
        subs = [c for k in range(1, nv + 1) for c in itertools.combinations(range(nv), k)]
        for fam in itertools.product(subs, repeat=nc):
            cl = [list(c) for c in fam]
            add(cl, [-1] if ctx.tier == "quick" else [-1, 0, nc - 1])
    # structured and random families, with roots, leaf marks, sparse variable sets
    for _ in range(ctx.pick(1200, 12000)):
        n = rng.randint(2, 10)
        cl = kktgen.structured_cliques(rng, n)
        if rng.random() < 0.15:  # variable labels with gaps
            m = sorted(rng.sample(range(n + 4), n))
            cl = [[m[v] for v in c] for c in cl]
        root = rng.choice([-1, 0, rng.randrange(len(cl))])
        leaf = [] if rng.random() < 0.5 else [rng.randint(0, 1) for _ in cl]
        add(cl, [root], [leaf])
    # tree paths
    for _ in range(ctx.pick(400, 4000)):
        n = rng.randint(1, 12)
        lab = rng.sample(range(n), n)
        par, h = [0] * n, [0] * n
        par[lab[0]] = lab[0]
        deep = rng.random()
        for i in range(1, n):
            p = lab[i - 1] if rng.random() < deep else lab[rng.randrange(i)]
            par[lab[i]], h[lab[i]] = p, h[p] + 1
        x, y = rng.randrange(n), rng.randrange(n)
        cases.append("path %d %d %d %s %d %s" % (x, y, n, " ".join(map(str, par)), n, " ".join(map(str, h))))
    res = vlib.run_cases(exe, cases, chunk=400)
    bad = vlib.validate(ctx, "SymbolicTrace", res)
    ctx.extra["families"] = len(cases)
    ctx.sample(cases[-500][:300])
    ctx.sample(res[len(cases) // 2])
    for i, rec, why in bad:
        ctx.violation("elimination structure rejected: " + why, "case 0\n%s\nend\n# record %s" % (cases[i], rec))
    ctx.assumptions += ["groups are nonempty", "TLC and the Json module"]
