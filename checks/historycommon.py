"""Sessions of several programs, generated by TLC and completed with twins, replayed and judged by HistoryTrace."""
import conegen as g
import plangen
import vlib

MODEL = ("CONSTANTS Mode=\"%s\" Depth=%d Bases=2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
         "INVARIANTS ColdForgets WarmContinues Splits OthersKept NoDangling Emit\n")


def base(rng):
    """a program: (plan, has herm over a larger algebra, qp)"""
    while True:
        quad = rng.random() < .2
        fate = rng.choice(["optimal"] * 5 + ["infeasible", "unbounded"]) if not quad else "optimal"
        p = plangen.plan(rng, fate, rng.choice(["vertex", "interior"]) if fate == "optimal" else "none",
                         linear_only=quad or rng.random() < .35, quad_cost=quad, most=4)
        if p:
            return p


def opaque_options(rng, p):
    """(options, opaque): opaque solves are only compared as wholes"""
    lin = all(c["kind"] == "linear" for c in p["spec"]["cons"])
    o = dict(final_centering_steps=0)
    opaque = any(c["kind"] == "herm" for c in p["spec"]["cons"])
    if rng.random() < .35:
        o["final_centering_steps"] = rng.choice([1, 3, 5])
        opaque = True
    if rng.random() < .15:
        o["initial_centering_steps_coldstart"] = rng.choice([1, 2])
        o["initial_centering_steps_warmstart"] = rng.choice([0, 1, 3])
        opaque = True
    if p["spec"]["qp"]:
        o.update(enable_line_search=1, enable_rescaling=0)
        if rng.random() < .12:
            o["enable_line_search"] = 0
    else:
        if rng.random() < .3:
            o["enable_rescaling"] = 0
        if lin and rng.random() < .3:
            o["enable_line_search"] = 1
    for name, prob, values in [("kkt_solver", .4, [1, 2]), ("iterative_refinement_iterations", .2, [1, 2]), ("inv_sqrt_mu_max", .4, [30, 100, 300]),
                               ("maximum_mu", .2, [100, 1e6]), ("divergence_upper_bound", .2, [.5, 3]), ("dinf_upper_bound", .2, [.5, 2]),
                               ("final_centering_tolerance", .2, [.5, 1e-4]), ("infeasibility_threshold", .2, [1e3, 1e2]),
                               ("kkt_error_tolerance", .1, [.1, 10])]:
        if rng.random() < prob:
            o[name] = rng.choice(values)
    return o, opaque


def random_update(rng, p):
    """a change of one coefficient of constraint i of the listing (possibly without effect)"""
    cons = [k for k in p["spec"]["order"]]
    js = [j for j, k in enumerate(cons) if k > 0 and p["spec"]["cons"][k - 1]["kind"] in ("linear", "psd", "soc")]
    if not js:
        return None
    # position among all constraints of the program (costs are constraints too)
    c = p["spec"]["cons"][cons[(j := rng.choice(js))] - 1]
    where = [i for i, t in enumerate(p["lines"]) if not t.startswith("con cost")][j]
    n = len(c["C"][0]) if c["kind"] == "psd" else len(c["C"])
    r = rng.randrange(n)
    col = rng.randrange(n) if c["kind"] == "psd" else 0
    if p["lines"][where].startswith(("con lower", "con upper")):
        return None
    val = rng.choice([-1, 1, 2, .5])
    if rng.random() < .5:
        return "updc %d %d %d 0 %s" % (where, r, col, val)
    return "upd %d %d %d %d 0 %s" % (where, rng.randrange(len(c["vars"])), r, col, val)


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.plans = [base(rng), base(rng)]
        self.costs = {(b, c): (p["b"] if c == 1 else [rng.randint(-2, 2) for _ in range(p["n"])]) for b, p in enumerate(self.plans) for c in (1, 2, 3)}
        self.opts = [[opaque_options(rng, p) for _ in range(3)] for p in self.plans]
        self.lines, self.args = [], [("session", {})]
        self.inst = []          # dict(base, buf, def, changes, ops since the last cold start)
        self.nbuf = 0
        self.texts = {}
        self.ids = 100

    def new(self, b, buf=0, like=None):
        p = self.plans[b]
        own = buf
        if buf == 0:
            self.nbuf += 1
            own = self.nbuf
        self.inst.append(dict(base=b, buf=own, shared=buf != 0, changes=[], path=None))
        i = len(self.inst)
        self.lines += ["use %d" % i, "n %d %d" % (p["n"], own)] + p["lines"]
        self.args.append(("new", dict(k="new", buf=buf, **{"def": [b]})))
        return i

    def change(self, i, ident, text):
        self.lines += ["use %d" % i, text]
        self.args.append(("late" if text.startswith("late") else "upd", dict(i=i, id=ident)))
        self.inst[i - 1]["changes"].append((ident, text))

    def update(self, i):
        t = random_update(self.rng, self.plans[self.inst[i - 1]["base"]])
        if t:
            self.ids += 1
            self.change(i, self.ids, t)
            if self.inst[i - 1]["path"] is not None:
                self.inst[i - 1]["path"].append(("change",))

    def late(self, i):
        if any(x["buf"] == self.inst[i - 1]["buf"] for j, x in enumerate(self.inst) if j != i - 1):
            return
        n = self.plans[self.inst[i - 1]["base"]]["n"]
        vs = self.rng.sample(range(n), self.rng.randint(1, n))
        self.ids += 1
        self.change(i, self.ids, "late upper %d %s %d %d 0 %s" % (len(vs), g.ints(vs), len(vs), len(vs), g.ints(self.rng.choice([3, 5, 10]) for _ in vs)))
        self.inst[i - 1]["path"] = None

    def feas(self, i):
        self.lines += ["use %d" % i, "feas"]
        self.args.append(("feas", dict(i=i)))
        self.inst[i - 1]["path"] = None

    def solve(self, i, cold, limit, cost, opt, abrt, dual=None):
        x = self.inst[i - 1]
        b = x["base"]
        dual = self.rng.random() < .35 if dual is None else dual
        o, opaque = self.opts[b][opt - 1]
        qp = bool(self.plans[b]["spec"]["qp"])
        okey = "b%d o%d" % (b, opt) + (" %s %d %d" % ("cw"[not cold], limit, abrt) if opaque else "")
        full = dict(o, max_iterations=limit, initialization_mode=0 if cold else 1, warmstart_abort_threshold=0 if abrt else 1e15,
                    prepare_dual_variables=int(dual))
        self.lines += ["use %d" % i, "defaults", "cost " + g.ints(self.costs[b, cost])] + ["opt %s %s" % kv for kv in full.items()] + ["solve x"]
        self.args.append(("solve", dict(i=i, cold=cold, limit=limit, cost=cost, okey=okey, random=any(c["kind"] == "herm" for c in self.plans[b]["spec"]["cons"]), rescale=bool(o.get("enable_rescaling", 1)), abrt=abrt and not cold,
                                        dual=dual, kmin=int(round(1000 / o.get("maximum_mu", 1e4) ** .5)), foreign=self.foreign(i, cold, limit), refused=qp and not o.get("enable_line_search"))))
        if cold:
            x["path"] = []
        if x["path"] is not None:
            x["path"].append(("solve", limit, cost, opt, abrt and not cold, opaque, dual))

    def foreign(self, i, cold, limit):
        """Matrices over the complex numbers and beyond keep their point outside of the buffer: on a shared buffer it is not named."""
        x = self.inst[i - 1]
        return not cold and any(c["kind"] == "herm" for c in self.plans[x["base"]]["spec"]["cons"]) and \
            any(y["buf"] == x["buf"] for j, y in enumerate(self.inst) if j != i - 1)

    def twin(self, i):
        x = self.inst[i - 1]
        t = self.new(x["base"])
        for ident, text in x["changes"]:
            self.change(t, ident, text)
        return t

    def finish(self, split):
        rng = self.rng
        for i in range(1, len(self.inst) + 1):
            x = self.inst[i - 1]
            alone = not any(y["buf"] == x["buf"] for j, y in enumerate(self.inst) if j != i - 1)
            if split and alone and x["path"] and not any(s[0] == "change" for s in x["path"]):
                self.merged(i)
            limit, cost, opt = rng.choice([2, 5, 9, 25]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
            if rng.random() < (.4 if split else .9):
                dual = rng.random() < .7
                self.solve(i, True, limit, cost, opt, False, dual)
                t = self.twin(i)
                self.solve(t, True, limit, cost, opt, False, dual)
                if split or rng.random() < .3:      # the same solve, in pieces
                    u = t if rng.random() < .5 else self.twin(i)
                    a = rng.randint(1, max(1, limit - 1))
                    parts = [a] + ([limit - a] if limit > a else [])
                    if len(parts) == 2 and parts[1] > 1 and rng.random() < .5:
                        c = rng.randint(1, parts[1] - 1)
                        parts = [a, c, parts[1] - c]
                    for n, part in enumerate(parts):
                        self.solve(u, n == 0, part, cost, opt, False, dual and n == len(parts) - 1)

    def merged(self, i):
        """a twin takes the path of instance i with adjacent equal solves joined, or one of them cut in two"""
        path = [list(s) for s in self.inst[i - 1]["path"]]
        t = self.twin(i)
        out = []
        for s in path:
            if out and out[-1][2:4] == s[2:4] and not s[4] and not s[5] and not out[-1][6] and out[-1][1] + s[1] <= 40:
                out[-1][1] += s[1]
                out[-1][6] = s[6]
            else:
                out.append(s)
        if len(out) == len(path):
            k = self.rng.randrange(len(out))
            s = out[k]
            if s[1] > 1 and not s[5]:
                a = self.rng.randint(1, s[1] - 1)
                out[k:k + 1] = [s[:1] + [a] + s[2:6] + [False], s[:1] + [s[1] - a] + s[2:4] + [False] + s[5:]]
        for n, s in enumerate(out):
            self.solve(t, n == 0, *s[1:5], s[6])


def play(rng, hist, split):
    s = Session(rng)
    for h in hist:
        if h["op"] == "new":
            if h["buf"]:
                x = s.inst[h["buf"] - 1]
                if x["changes"] or any(c for y in s.inst if y["buf"] == x["buf"] for c in y["changes"]):
                    s.new(x["base"])      # another shape
                else:
                    s.new(x["base"], x["buf"])
            else:
                s.new(h["base"] - 1)
        elif h["op"] == "upd":
            s.update(h["i"])
        elif h["op"] == "late":
            s.late(h["i"])
        elif h["op"] == "feas":
            s.feas(h["i"])
        else:
            s.solve(h["i"], h["cold"], h["limit"], h["cost"], h["opt"], h["abrt"])
    s.finish(split)
    return s


def sessions(ctx, split, depths, num):
    hists = []
    for d in depths:
        r = vlib.tlc("HistorySession", MODEL % ("walk", d), ctx.work,
                     args=["-simulate", "num=%d" % num, "-depth", str(d + 2), "-seed", str(ctx.seed)])
        hists += r.json_marks()
    return [play(ctx.rng, h, split) for h in hists]


def judge(ctx, all_sessions):
    exe = vlib.build("h_out", "product")
    cases = ["\n".join(s.lines) for s in all_sessions]
    res = vlib.run_cases(exe, cases)
    recs, seen = [], dict(solves=0, solved=0, iterations=0)
    for s, rs in zip(all_sessions, res):
        out = []
        case = rs[0]["case"] if rs else 0
        it = iter(rs)
        for kind, a in s.args:
            if kind == "session":
                out.append(dict(k="session", case=case))
            elif kind == "new":
                out.append(dict(a, case=case))
            else:
                r = next(it, None)
                if r is None:
                    break
                r = {k: v for k, v in r.items() if k not in ("margin", "dmargin", "gap", "allmult", "mu", "tag")}
                out.append(dict(r, args=a))
                if r["k"] == "solve":
                    seen["solves"] += 1
                    seen["solved"] += r["solved"]
                    seen["iterations"] += r["num"]
                elif r["k"] != kind:
                    break
        recs.append(out)
    ctx.extra["sessions"] = len(cases)
    ctx.extra["real solves"] = seen
    ctx.sample(cases[0])
    for i, rec, why in vlib.validate(ctx, "HistoryTrace", recs):
        ctx.violation("%s: %s at %s" % (rec["k"], why[:300], str(rec)[:500]), cases[i])
