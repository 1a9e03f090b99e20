"""C07: every cone supplies the exact Newton data of its constraint."""
import conecommon as cc
import vlib

NOTE = ("Newton data specified over the Jordan algebra of each cone (laws checked by TLC on all small elements); all call "
        "histories up to a depth enumerated by TLC, replayed on constraints with exact integer data of every kind and "
        "size, and every recorded block compared by TLC with the exact Gram matrix")


def run(ctx):
    rng = ctx.rng
    cc.models(ctx)
    hs = [h for h in cc.histories(ctx, 5) if "schur" in h or "add" in h]
    exe = vlib.build("h_cone", "asan")
    items = []
    for _ in range(ctx.pick(1500, 20000)):
        items.append(cc.session(rng, rng.choice(hs)))
    for _ in range(ctx.pick(60, 800)):
        items.append(cc.session(rng, rng.choice(hs), rng.choice(["linear", "psd", "soc", "quad"]), True))
    cc.check(ctx, exe, items, "C07", ("new", "schur", "crash", "exception", "garbled"))
    ctx.assumptions += ["integer coefficients and scaling points; points after a step are fractions with a known denominator"]
