"""C05: calls of the C interface validate their arguments and fail without side effects."""
import collections
import apicommon
import vlib

NOTE = ("call histories (valid and out-of-range arguments, before and after solves) generated by TLC from the C-API "
        "state machine; replayed under AddressSanitizer; TLC checks codes, ids and the whole program after each call")


def run(ctx):
    vlib.model_check(ctx, "CApiSession", apicommon.CFG % (2, "small", apicommon.DESIGN), 1000)
    exe = vlib.build("h_api", "asan")
    for depth, num, limit in ctx.pick([(10, 700, 900), (20, 250, 350)], [(10, 6000, 7000), (20, 2500, 3000), (40, 800, 1000)]):
        hists = apicommon.histories(ctx, "walk", depth, num, limit, ctx.seed)
        apicommon.replay(ctx, exe, hists, "C interface")
        ctx.extra.setdefault("calls", collections.Counter()).update(a["op"] for h in hists for a in h["h"])
    ctx.assumptions += ["array arguments of the one-shot Add* calls have the stated sizes (C cannot validate pointers' extent)",
                        "quadratic-cost updates are addressed to quadratic costs",
                        "solves are asked only on programs in which every variable occurs (see C10 known finding)"]
