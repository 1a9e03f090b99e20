"""Shared machinery: build harnesses from /repo's working tree, run TLC, validate traces, report."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, os.cpu_count() or 1)

DEFS = ["-std=c++17", "-fPIC", "-DEIGEN_NO_DEBUG", "-DNDEBUG", "-DEIGEN_MPL2_ONLY",
        "-DEIGEN_MAX_ALIGN_BYTES=64", "-DEIGEN_HAS_TYPE_TRAITS=0"]
PRODUCT_FLAGS = DEFS + ["-O2"]
ASAN_FLAGS = DEFS + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
INCLUDES = ["-iquote", REPO, "-isystem", "/usr/include/eigen3"]
BIG = 1000000000


class CheckError(Exception):
    """The check itself could not run (an error exit, not a verdict)."""


# --------------------------------------------------------------------------- build
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _headers_digest():
    h = hashlib.sha256()
    files = []
    for base in ("conex", "interfaces"):
        for root, _, names in os.walk(os.path.join(REPO, base)):
            if "/test" in root:
                continue
            files += [os.path.join(root, n) for n in names if n.endswith((".h", ".hpp", ".inc"))]
    files += glob.glob(os.path.join(HARNESS, "*.h"))
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def library_sources():
    src = sorted(glob.glob(os.path.join(REPO, "conex", "*.cc")))
    src = [s for s in src if os.path.basename(s) != "elimination_ordering.cc"]
    return src + [os.path.join(REPO, "interfaces", "conex.cc")]


def _compile(src, flags, hdr):
    key = _sha(hdr, open(src, "rb").read(), src, " ".join(flags))
    obj = os.path.join(BUILD, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + INCLUDES + ["-I", HARNESS, "-c", src, "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(name, variant="product"):
    """Compile harness/<name>.cc with all of conex from the working tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    flags = {"product": PRODUCT_FLAGS, "asan": ASAN_FLAGS}[variant]
    hdr = _headers_digest()
    srcs = [os.path.join(HARNESS, name + ".cc")] + library_sources()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(s, flags + ["-DCONEX_VERBOSE=0"], hdr), srcs))
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, variant, _sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + objs + ["-o", tmp, "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe


# --------------------------------------------------------------------------- running the code
def run_harness(exe, stdin_text, timeout=60, args=()):
    """Returns (stdout_lines, how) where how is 'ok', 'crash:<sig/exit>' or 'timeout'."""
    env = dict(os.environ, OMP_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
    try:
        r = subprocess.run([exe] + list(args), input=stdin_text, capture_output=True, text=True,
                           timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return out.splitlines(), "timeout", ""
    how = "ok" if r.returncode == 0 else "crash:%d" % r.returncode
    return r.stdout.splitlines(), how, r.stderr


def records(lines):
    """The '@'-prefixed JSON records of a harness' output, in order."""
    out = []
    for s in lines:
        if s.startswith("@"):
            try:
                out.append(json.loads(s[1:]))
            except ValueError:
                out.append({"k": "garbled"})
    return out


def run_cases(exe, cases, timeout=120, chunk=None, procs=NCPU):
    """cases: list of text blocks (each one a complete case for the harness, which answers every case with
    '@{...}' records carrying "case": index). A crashing case is isolated and answered by
    {"k": "crash", "case": i, "how": ...}. Returns list (per case) of record lists."""
    results = [None] * len(cases)
    if not cases:
        return results
    chunk = chunk or max(1, min(200, (len(cases) + procs - 1) // procs))

    def go(lo, hi):
        pos = lo
        while pos < hi:
            text = "".join("case %d\n%s\nend\n" % (i, cases[i].rstrip("\n")) for i in range(pos, hi))
            lines, how, err = run_harness(exe, text, timeout)
            by = {}
            done = set()
            for s in lines:
                if s.startswith("@"):
                    try:
                        r = json.loads(s[1:])
                    except ValueError:
                        continue
                    if r.get("k") == "done":
                        done.add(r["case"])
                    else:
                        by.setdefault(r.get("case", -1), []).append(r)
            nxt = hi
            for i in range(pos, hi):
                if i in done:
                    results[i] = by.get(i, [])
                else:
                    tail = [l for l in err.splitlines() if l.strip()]
                    why = [l for l in tail if "ERROR" in l or "what()" in l or "terminate" in l][:2]
                    frames = [re.sub(r"^.* in ", "", l.strip()) for l in tail if re.match(r"\s+#\d+ ", l)][:6]
                    results[i] = by.get(i, []) + [{"k": "crash", "case": i, "how": how,
                                                   "why": " | ".join(why)[:400], "frames": frames}]
                    nxt = i + 1
                    break
            if how == "ok" and nxt == hi and any(results[i] is None for i in range(pos, hi)):
                raise CheckError("harness lost a case")
            pos = nxt

    with cf.ThreadPoolExecutor(procs) as ex:
        futs = [ex.submit(go, lo, min(lo + chunk, len(cases))) for lo in range(0, len(cases), chunk)]
        for f in futs:
            f.result()
    return results


# --------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = int(m[-1])
        self.completed = "Model checking completed. No error has been found." in out
        self.violated = bool(re.search(r"is violated|Invariant .* is violated|Temporal properties were violated|"
                                       r"Deadlock reached|Assumption .* is false|POSTCONDITION", out))

    def marks(self, tag):
        """Lines printed by PrintT(<<"tag", ...>>) are returned as raw text after the tag."""
        flat = re.sub(r"\n\s+", " ", self.out)
        return re.findall(r'<<\s*"%s",\s*(.*?)>>(?=\n|$)' % tag, flat, re.M)

    def json_marks(self):
        """Strings printed with PrintT("@@" \\o ToJson(..))"""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        return res


def tlc(module, cfg_text, workdir, files=None, workers=1, timeout=600, args=(), heap="3g", props=()):
    """Run TLC on spec/<module>.tla in a private directory with the given config text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as fh:
            fh.write(text)
    with open(os.path.join(d, module + ".cfg"), "w") as fh:
        fh.write(cfg_text)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + d] + list(props) + [
           "-cp", JAR, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta")] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    shutil.rmtree(d, ignore_errors=True)
    out = r.stdout + r.stderr
    if "-simulate" in args and "Error: " in out and "is violated" not in out:
        # an evaluation error or a deadlock ends the generation of histories early
        raise CheckError("TLC stopped generating %s histories:\n%s" % (module, out[out.find("Error: "):][:1500]))
    return TlcResult(out, r.returncode)


def model_check(ctx, module, cfg_text, expect_states=1, **kw):
    """Exhaustively check a design model; its failure is an error of the check, not of the code."""
    kw.setdefault("workers", NCPU)
    r = tlc(module, cfg_text, ctx.work, **kw)
    if not r.completed or r.distinct < expect_states:
        raise CheckError("model %s does not hold or is vacuous:\n%s" % (module, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append("%s: %d distinct states, %d generated" % (module, r.distinct, r.generated))
    return r


def sanitize(x):
    """TLC integers are 32 bit; the JSON reader wraps silently. Floats are not allowed."""
    if isinstance(x, bool) or x is None:
        return x if x is not None else "null"
    if isinstance(x, int):
        return max(-BIG, min(BIG, x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return BIG
        return max(-BIG, min(BIG, int(round(x))))
    if isinstance(x, list):
        return [sanitize(v) for v in x]
    if isinstance(x, dict):
        return {k: sanitize(v) for k, v in x.items()}
    return x


def validate(ctx, module, cases, constants="", shards=None, timeout=800, independent=True, heap="3g"):
    """Trace validation. `cases` is a list of lists of records; records of a case stay together, in order.
    The trace spec module reads Trace == ndJsonDeserialize("trace.ndjson"), consumes one record per step and
    prints <<"REJECT", line, case, reasons>> for every record that is not a step of the specification.
    Returns [(case_index_in_list, record, reason_text)]."""
    idx = [i for i, c in enumerate(cases) if c]
    if not idx:
        return []
    weight = {i: sum(len(json.dumps(r)) for r in cases[i]) for i in idx}
    total = sum(weight.values())
    if shards is None:
        shards = max(1, min(NCPU, total // 20000 + 1, len(idx)))
    groups = [[] for _ in range(shards)]
    load = [0] * shards
    for i in idx:
        g = load.index(min(load))
        groups[g].append(i)
        load[g] += weight[i]
    groups = [g for g in groups if g]

    def go(group):
        lines, owner = [], []
        for i in group:
            for r in cases[i]:
                lines.append(json.dumps(sanitize(r)))
                owner.append((i, r))
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceConsumed\n" + constants
        r = tlc(module, cfg, ctx.work, files={"trace.ndjson": "\n".join(lines) + "\n"}, workers=1,
                timeout=timeout, heap=heap)
        if not r.completed:
            raise CheckError("trace validation %s failed to run:\n%s" % (module, r.out[-3500:]))
        bad = []
        for m in r.marks("REJECT"):
            k = int(re.match(r"(\d+)", m).group(1))
            bad.append((owner[k - 1][0], owner[k - 1][1], m))
        return r, len(lines), bad

    bad = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, n, b in ex.map(go, groups):
            ctx.states += r.distinct
            ctx.transitions += r.generated
            ctx.trace_lines += n
            bad += b
    ctx.traces += len(idx)
    return bad


# --------------------------------------------------------------------------- context, verdicts
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=_workroot())
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.trace_lines = 0
        self.models, self.samples, self.assumptions = [], [], []
        self.extra = {}
        self.violations = []
        self.known_hit = []

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, replay_text, key=None):
        """key identifies the failing input/history for the known-findings file."""
        self.violations.append((what, replay_text, key or what))


def _workroot():
    d = os.path.join(VERIF, ".work")
    os.makedirs(d, exist_ok=True)
    return d


def load_known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                res.append(m.groups())
    return res


def finish(ctx, level, technique_note):
    known = [k for k in load_known() if k[0] == ctx.pid]
    real, hits = [], {}
    for what, text, key in ctx.violations:
        k = [kk for kk in known if kk[1] == key]
        if k:
            hits[key] = k[0][2]
        else:
            real.append((what, text, key))
    for key, desc in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, desc))
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "trace_records": ctx.trace_lines,
           "models": ctx.models, "samples": ctx.samples or ["(none)"],
           "known_findings_seen": sorted(hits), "method": technique_note}
    cov.update(ctx.extra)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(ctx.elapsed(), 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(ctx.work, ignore_errors=True)
    if real:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for n, (what, text, key) in enumerate(real[:10]):
            p = os.path.join(d, "%s-%d.txt" % (ctx.pid, n))
            with open(p, "w") as f:
                f.write("# %s\n# key: %s\n%s\n" % (what, key, text))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
            print("  " + what[:600])
        return 1
    print("OK property=%s states=%d traces=%d records=%d wall=%.1fs" % (
        ctx.pid, ctx.states, ctx.traces, ctx.trace_lines, ctx.elapsed()))
    return 0
