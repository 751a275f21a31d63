"""Shared machinery: running the code under test, projecting what it did onto
the lattice of the specification, running TLC over recorded traces, reporting.

Nothing in here decides a property: verdicts come from TLC evaluating the trace
specifications in /verif/spec.  Exit codes: 0 held, 1 violated (with a VIOLATION
line), 2 the machinery itself failed.
"""
import os, sys, json, time, math, subprocess, tempfile, shutil, signal, random, re, hashlib
import multiprocessing as mp
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
DIRS = ["1", "2", "3", "4", "-1", "-2", "-3", "-4"]


class MachineryError(Exception):
    pass


# ----------------------------------------------------------------------------
# code under test
def setup_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ["TQDM_DISABLE"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def import_repo():
    """Import the package from /repo's working tree and prove that is where it came from."""
    setup_env()
    try:
        import meshiphi
    except BaseException as e:                      # the tree does not import at all
        raise MachineryError(f"cannot import meshiphi from {REPO}: {e!r}")
    if not os.path.abspath(meshiphi.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError(f"meshiphi imported from {meshiphi.__file__}, not from {REPO}")
    import meshiphi.mesh_generation.mesh_builder      # noqa: warm the imports before forking
    import meshiphi.mesh_generation.environment_mesh  # noqa


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


def _worker(job):
    fn, arg, limit = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return ("ok", fn(arg))
    except Timeout:
        return ("timeout", None)
    except MemoryError:
        return ("timeout", None)
    finally:
        signal.alarm(0)


_SCRATCH = None


def scratch():
    """A private scratch directory of this run, removed at exit."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif_meshiphi_")
        os.environ["MPLCONFIGDIR"] = _SCRATCH
        owner = os.getpid()
        import atexit
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_SCRATCH, ignore_errors=True))
    return _SCRATCH


def run_pool(fn, args, limit=60):
    """fn(arg) for every arg on all cores; a run that hangs gives ('timeout', None)."""
    args = list(args)
    scratch()
    if not args:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC, initializer=_pool_init) as pool:
        return pool.map(_worker, [(fn, a, limit) for a in args], chunksize=max(1, min(16, len(args) // (NPROC * 4) or 1)))


def _pool_init():
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    null = os.open(os.devnull, os.O_WRONLY)           # programs the code starts write there, too
    os.dup2(null, 1)
    os.dup2(null, 2)


# ----------------------------------------------------------------------------
# projections
BADINT = 999_999_999


def lat_int(v, S):
    """degrees -> lattice units; None if v is not on the lattice."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return None
    if not math.isfinite(v):
        return None
    u = v * S
    r = round(u)
    if abs(u - r) > 1e-6 or abs(r) > 100_000_000:
        return None
    return int(r)


def norm_x(x, C):
    return (x + C // 2) % C - C // 2


# ----------------------------------------------------------------------------
# TLC
def tlc(module, cfg_text, env=None, workers=1, timeout=800, extra=(), heap="2g", deadlock=False):
    """Run TLC on /verif/spec/<module>.tla.  Returns dict(out, states, distinct, ok, violated)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = os.path.join(d, "run.cfg")
    open(cfg, "w").write(cfg_text)
    cp = TLAJAR
    for extra_jar in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(extra_jar):
            cp += ":" + extra_jar
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet", "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-config", "run.cfg"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"")
        out = out.decode("utf8", "replace") if isinstance(out, bytes) else out
        rc = -1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gen = dist = 0
    for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out):
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    viol = re.findall(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated", out)
    return dict(out=out, rc=rc, states=gen, distinct=dist, ok=(rc == 0), violated=[a or b for a, b in viol])


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), view=None, post=None):
    t = [f"SPECIFICATION {spec}"]
    if constants:
        t.append("CONSTANTS")
        for k, v in constants.items():
            t.append(f"  {k} = {v}")
    if invariants:
        t.append("INVARIANTS " + " ".join(invariants))
    if properties:
        t.append("PROPERTIES " + " ".join(properties))
    if constraints:
        t.append("CONSTRAINTS " + " ".join(constraints))
    if view:
        t.append("VIEW " + view)
    if post:
        t.append("POSTCONDITION " + post)
    return "\n".join(t) + "\n"


def _tlc_job(j):
    return tlc(*j[0], **j[1])


def tlc_many(jobs, parallel=NPROC):
    """jobs: list of (args, kwargs) for tlc(); run side by side."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(parallel) as ex:
        return list(ex.map(_tlc_job, jobs))


VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def validate(module, traces, want=None, constants=None, per_chunk=None, cost=None, timeout=780, extra_env=None, done=False):
    """Check recorded traces against a trace specification.

    Every trace is a dict with a list `steps`; TLC walks all traces, judging one
    step per transition, and prints a VERDICT tuple naming the failing clauses.
    Returns (verdicts, states, transitions); a verdict is (trace index, step, [clauses]).
    """
    if not traces:
        return [], 0, 0
    n = len(traces)
    cost = cost or (lambda t: 1 + len(t["steps"]))
    nchunks = min(n, NPROC if not per_chunk else max(NPROC, math.ceil(n / per_chunk)))
    order = sorted(range(n), key=lambda i: -cost(traces[i]))
    chunks = [[] for _ in range(nchunks)]
    load = [0] * nchunks
    for i in order:
        k = load.index(min(load))
        chunks[k].append(i)
        load[k] += cost(traces[i])
    jobs = []
    files = []
    for c in chunks:
        fd, path = tempfile.mkstemp(suffix=".json", dir=scratch())
        os.close(fd)
        with open(path, "w") as f:
            json.dump({"traces": [traces[i] for i in c], "want": sorted(want or [])}, f)
        files.append(path)
        env = {"TRACE_FILE": path}
        env.update(extra_env or {})
        jobs.append(((module, cfg("TraceSpec", constants, invariants=["TraceTypeOK"])),
                     dict(env=env, workers=1, timeout=timeout)))
    res = tlc_many(jobs)
    verdicts, states, trans = [], 0, 0
    for c, r, path in zip(chunks, res, files):
        if not r["ok"]:
            keep = os.path.join(VERIF, "evidence", "machinery-error.txt")
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            open(keep, "w").write(r["out"])
            shutil.copy(path, keep.replace(".txt", ".json"))
            raise MachineryError(f"TLC failed on {module} (rc={r['rc']}): " + r["out"][-1500:])
        vs = {}
        for m in VERDICT.finditer(r["out"]):
            clauses = sorted(set(re.findall(r'"([^"]*)"', m.group(3))))
            vs[int(m.group(1))] = (c[int(m.group(1)) - 1], int(m.group(2)), clauses)
        if done:       # non-vacuity: every trace was walked to the end and judged
            seen = {int(x) for x in re.findall(r'<<\s*"DONE",\s*(\d+)', r["out"])}
            if seen | set(vs) != set(range(1, len(c) + 1)) or seen & set(vs):
                raise MachineryError(f"{module}: {len(seen | set(vs))} of {len(c)} traces judged: " + r["out"][-800:])
            verdicts += list(vs.values())
            states += r["distinct"]
            trans += r["states"] - len(c)
            os.unlink(path)
            continue
        # non-vacuity: one state per step and trace (plus initial), up to the first verdict
        expect = 0
        for k, i in enumerate(c, 1):
            expect += (vs[k][1] if k in vs else len(traces[i]["steps"])) + 1
        if r["distinct"] != expect:
            raise MachineryError(f"{module}: TLC visited {r['distinct']} states, expected {expect}: " + r["out"][-800:])
        verdicts += list(vs.values())
        states += r["distinct"]
        trans += r["states"] - len(c)
        os.unlink(path)
    return sorted(verdicts), states, trans


# ----------------------------------------------------------------------------
# results
class Result:
    def __init__(self, pid):
        self.pid = pid
        self.states = 0
        self.transitions = 0
        self.model_states = 0
        self.traces = 0
        self.steps = 0
        self.violations = []      # dicts: clause, scenario, trace, pos
        self.models = []
        self.samples = 0
        self.notes = []
        self.extra = {}

    def model(self, name, r, expect_min=2):
        """Record a model-checking run of the specification itself."""
        if not r["ok"]:
            raise MachineryError(f"model {name}: TLC reports {r['violated'] or r['out'][-1500:]}")
        if r["distinct"] < expect_min:
            raise MachineryError(f"model {name}: only {r['distinct']} states - vacuous")
        self.models.append({"model": name, "distinct_states": r["distinct"], "states_generated": r["states"]})
        self.model_states += r["distinct"]
        self.states += r["distinct"]
        self.transitions += r["states"]

    def judged(self, traces, verdicts, states, trans, scenarios, relevant=None):
        self.traces += len(traces)
        self.steps += sum(len(t["steps"]) for t in traces)
        self.states += states
        self.transitions += trans
        for i, pos, clauses in verdicts:
            cl = [c for c in clauses if relevant is None or relevant(c)]
            if cl:
                self.violations.append(dict(clauses=cl, pos=pos, scenario=scenarios[i], trace=traces[i]))


def jdump(o, path):
    with open(path, "w") as f:
        json.dump(o, f, indent=1, default=str)
        f.write("\n")
