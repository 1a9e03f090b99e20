"""C19: every cone reports and takes the step the Newton direction prescribes."""
import conecommon as cc
import vlib

NOTE = ("Newton direction, its norms, the weighted slack spectrum, the affine and the geodesic update and the multiplier "
        "specified over the Jordan algebra of each cone; all call histories up to a depth enumerated by TLC and replayed "
        "with planted directions whose exponential is rational; every record compared by TLC")


def run(ctx):
    rng = ctx.rng
    cc.models(ctx)
    want = ("prep", "eig", "step", "affine", "dual")
    hs = [h for h in cc.histories(ctx, ctx.pick(5, 6)) if any(o in h for o in want)]
    steps = [h for h in hs if "step" in h and h[-1] in ("schur", "dual", "add")]
    exe = vlib.build("h_cone", "asan")
    items = []
    for kind in ("linear", "psd", "herm", "soc", "quad"):
        for _ in range(ctx.pick(220, 3000)):
            items.append(cc.session(rng, rng.choice(steps), kind))
    for _ in range(ctx.pick(700, 12000)):
        items.append(cc.session(rng, rng.choice(hs)))
    for _ in range(ctx.pick(40, 500)):
        items.append(cc.session(rng, rng.choice(hs), rng.choice(["linear", "psd", "soc", "quad"]), True))
    cc.check(ctx, exe, items, "C19")
    ctx.assumptions += ["matrix norms and spectra are compared exactly where the Lanczos iteration is exact, bounded otherwise",
                        "the heuristic norm of octonion constraints is not judged (its squared norm is)"]
