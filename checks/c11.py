"""C11: a cold-started solve does not depend on history."""
import historycommon as h
import vlib

NOTE = ("all short histories of programs, private and shared buffers, solves and changes are explored by TLC on the specified rules of what a solve starts "
        "from; long random histories are replayed through the real solver, and TLC checks that every iteration and outcome is a function of the "
        "specified name of its starting point, program, cost and options, against fresh twins and all earlier solves of the session")


def run(ctx):
    vlib.model_check(ctx, "HistorySession", h.MODEL % ("small", ctx.pick(5, 6)), timeout=800)
    h.judge(ctx, h.sessions(ctx, False, ctx.pick([4, 7, 10], [4, 7, 10, 14, 20]), ctx.pick(250, 2500)))
