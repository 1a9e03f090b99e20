"""C12: a warm start continues from the point the previous solve left."""
import c09
import historycommon as h
import vlib

NOTE = ("TLC explores all short histories on the specified rules of what a warm start continues from (splitting a run is the identity on names of "
        "points); random histories, runs cut into pieces and joined runs are replayed through the real solver and TLC checks that equally named "
        "iterations agree; abandoned warm starts are judged step by step with scripted constraints against the specified loop")


def run(ctx):
    vlib.model_check(ctx, "HistorySession", h.MODEL % ("small", ctx.pick(5, 6)), timeout=800)
    c09.sessions(ctx, ctx.pick([(2, 500), (3, 300)], [(2, 6000), (4, 3000)]), lambda hist: any(s["c"]["warm"] for s in hist))
    h.judge(ctx, h.sessions(ctx, True, ctx.pick([4, 7], [3, 4, 7, 10, 14]), ctx.pick(300, 2500)))
