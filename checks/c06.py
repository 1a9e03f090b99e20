"""C06: a constraint built by coefficient updates equals the one built in one shot."""
import apicommon
import vlib

NOTE = ("histories of accepted coefficient updates (overwriting, interleaved over constraints and solves) generated by "
        "TLC; TLC predicts every coefficient and compares the recorded Newton data of the updated program and of a "
        "program built in one shot from the predicted coefficients, and the solutions of both")


def run(ctx):
    vlib.model_check(ctx, "CApiSession", apicommon.CFG % (2, "small", apicommon.DESIGN), 1000)
    if ctx.thorough():
        vlib.model_check(ctx, "CApiSession", apicommon.CFG % (3, "small", apicommon.DESIGN), 1000, timeout=3000, heap="12g")
    exe = vlib.build("h_api", "asan")
    for depth, num, limit in ctx.pick([(8, 500, 500), (20, 400, 500), (50, 80, 100)],
                                      [(8, 4000, 4000), (20, 4000, 4000), (60, 1000, 1200)]):
        hists = apicommon.histories(ctx, "build", depth, num, limit, ctx.seed)
        apicommon.replay(ctx, exe, hists, "coefficient updates", shot=True)
    ctx.assumptions += ["coefficients are integers of magnitude at most 3, so the Newton data at the identity are exact",
                        "solutions of the two programs are compared to 2e-3 when both report solved"]
