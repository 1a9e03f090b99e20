"""C02: the assembled Newton system is the sum of the contributions."""
import itertools
import kktgen as g
import kktcommon
import vlib

NOTE = ("TLC model of supernodal assembly with symbolic contributions; sessions enumerated by TLC are replayed on "
        "programs with exact integer data and every assembled system is compared by TLC with the exact sum")
MC = """SPECIFICATION ASpec
CONSTANTS NumCliques = %d NumVars = %d DirectRule = "exact"
INVARIANTS Valid Assembled
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = ctx.rng
    vlib.model_check(ctx, "Assembly", MC % (3, 3), 1000)
    # non-vacuity: the rule "same size" is refuted by the model
    r = vlib.tlc("Assembly", (MC % (4, 3)).replace('"exact"', '"size"'), ctx.work, workers=vlib.NCPU, timeout=900)
    if not r.violated:
        raise vlib.CheckError("Assembly model does not distinguish the direct-write rules\n" + r.out[-1500:])
    if ctx.thorough():
        vlib.model_check(ctx, "Assembly", MC % (4, 3), 1000, timeout=2500)
    exe = vlib.build("h_kkt")
    hist = [h for h in kktcommon.histories(ctx, 6) if h[-1] in ("assemble", "assemble3")]
    progs = []
    # all families of three groups over three variables, with distinct contributions (thorough: also orders)
    subs = [list(c) for k in (1, 2, 3) for c in itertools.permutations(range(3), k)]
    fams = [f for f in itertools.product(subs, repeat=3) if set(v for c in f for v in c) == {0, 1, 2}]
    for f in (rng.sample(fams, 300) if ctx.tier == "quick" else fams):
        cons = [dict(kind="probe", vars=c, G=g.sym(rng, len(c), 9), AW=[rng.randint(-9, 9) for _ in c],
                     AQc=[rng.randint(-9, 9) for _ in c], wc=rng.randint(-9, 9), cqc=rng.randint(-9, 9)) for c in f]
        progs.append((3, cons, ["assemble", "factor", "assemble"], False))
    for _ in range(ctx.pick(1000, 12000)):
        n = rng.randint(1, 10)
        cons = g.program(rng, n, eq=rng.random() < 0.6, definite=rng.random() < 0.5)
        progs.append((n, cons, rng.choice(hist), False))
    # equality constraints on arbitrary variables (also rank deficient: only the assembly is judged)
    for _ in range(ctx.pick(300, 3000)):
        n = rng.randint(2, 7)
        cons = g.program(rng, n, eq=False, definite=False)
        for _ in range(rng.randint(1, 3)):
            c = g.subset(rng, n)
            cons.insert(rng.randint(0, len(cons)), dict(kind="eq", vars=c, A=[
                [rng.randint(-3, 3) for _ in c] for _ in range(rng.randint(1, 3))], c=None))
        for c in cons:
            if c["kind"] == "eq":
                c["c"] = [rng.randint(-5, 5) for _ in c["A"]]
        progs.append((n, cons, ["assemble", "assemble3", "factor", "assemble"], False))
    kktcommon.validate(ctx, exe, progs, "C02")
    ctx.assumptions += ["every variable occurs in some constraint", "constraint data are exact integers"]
