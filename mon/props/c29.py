"""Work leaves nothing behind: process-wide state, files, warnings, memory."""
import atexit
import copy
import decimal
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import tracemalloc
import warnings
import weakref

import numpy as np

from .. import gen, load, obs, packs

RULE = ("Every public operation on random maps of every kind and on packers is run between two snapshots of the process (numeric "
        "error handling, warning filters, random generators, environment, working directory, scratch directory, locale, open "
        "files, threads, handlers, limits), with output and warnings captured; answers are repeated under hostile settings; "
        "objects are dropped and must go; memory is compared before and after hundreds of further operations.  Non-trivial: a "
        "distinct (operation, map kind).")
ASSUMPTIONS = ["deprecation warnings are part of the documented interface", "the Butler's own effects are not judged"]
ROUNDS = 2
REQUIRED_EVENTS = ("operation watched", "import watched", "dropped", "memory compared", "hostile settings", "packer watched",
                   "iterations under way", "registration watched", "first use")


def cases(tier):
    n = 12 if tier == "quick" else 120
    out = [("import", {"bare": True}), ("import", {"bare": False})] + [("first", {"kind": c}) for c in gen.ALL]
    for k in range(n):
        out += [("watch", {"kind": c, "k": k}) for c in gen.ALL]
        out += [("hostile", {"kind": c, "k": k}) for c in gen.ALL]
        out += [("drop", {"kind": c, "k": k}) for c in gen.ALL]
        out += [("packer", {"k": k})]
    out += [("memory", {"kind": c, "k": k}) for k in range(max(1, n//6)) for c in gen.ALL]
    return out + [("memory-packer", {"k": k}) for k in range(max(1, n//6))]


def run_case(ctx, name, params, rng):
    globals()["do_" + name.replace("-", "_")](ctx, params, rng)


# ------------------------------------------------------------------ the process
def process(files=True):
    """What any code of this process could notice of code run before."""
    st = np.random.get_state()
    d = {"numpy errors": np.geterr(), "numpy error call": repr(np.geterrcall()), "warning filters": list(warnings.filters),
         "showwarning": id(warnings.showwarning), "random": random.getstate(), "numpy random": (st[0], st[1].tobytes(), st[2:]),
         "numpy printing": json.dumps(np.get_printoptions(), default=repr, sort_keys=True), "environment": dict(os.environ),
         "directory": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
         "threads": threading.active_count(), "switch interval": sys.getswitchinterval(), "gc": (gc.isenabled(), gc.get_threshold()),
         "decimal": repr(decimal.getcontext().prec) + decimal.getcontext().rounding, "path": list(sys.path),
         "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook), sys.gettrace() is None,
                   sys.getprofile() is None, len(sys.meta_path), len(sys.path_hooks)),
         "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "atexit": atexit._ncallbacks(),
         "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1,
                                                         signal.SIGPIPE)],
         "root logger": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
         "mask": os.umask(0o22)}
    os.umask(d["mask"])
    d["bytes as integers"] = sys.get_int_max_str_digits()
    if files:
        d["open files"] = sorted(os.listdir("/proc/self/fd"))
        d["scratch files"] = sorted(os.listdir(tempfile.gettempdir()))
    return d


class Watch:
    """Compares the process before and after; with output and warnings caught."""

    def __init__(self, ctx, what, **wit):
        self.ctx, self.what, self.wit = ctx, what, wit

    def __enter__(self):
        self.keep = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        self.out = sys.stdout, sys.stderr
        self.catch = warnings.catch_warnings(record=True)
        self.warned = self.catch.__enter__()
        warnings.simplefilter("always")
        self.before = process()
        return self

    def __exit__(self, typ, e, tb):
        after = process()
        self.catch.__exit__(typ, e, tb)
        sys.stdout, sys.stderr = self.keep
        if e is not None:
            return False
        ctx = self.ctx
        ctx.ev("operation watched")
        for k, v in self.before.items():
            ctx.ok(after[k] == v, "changed-" + k.replace(" ", "-"), "%s changed the process's %s%s" % (
                self.what, k, "" if k in ("random", "numpy random", "environment") else ": %.200r, was %.200r" % (after[k], v)),
                **self.wit)
        said = [s.getvalue() for s in self.out]
        ctx.ok(said == ["", ""], "printed", "%s printed %.200r" % (self.what, said), **self.wit)
        bad = [w for w in self.warned if not issubclass(w.category, (FutureWarning, DeprecationWarning, PendingDeprecationWarning,
                                                                     ResourceWarning, ImportWarning))]
        ctx.eq([str(w.message) for w in bad], [], "warned", "warnings of %s" % self.what, **self.wit)
        return False


def scratch():
    """A scratch directory that is both temporary directory and working directory."""
    d = tempfile.mkdtemp(prefix="verif-c29-")
    os.environ["TMPDIR"] = d
    tempfile.tempdir = d
    os.chdir(d)
    return d


class Scratch:
    """A scratch directory, and an environment in which nothing is set that could be."""

    def __enter__(self):
        self.old = dict(os.environ), tempfile.tempdir, os.getcwd()
        for k in list(os.environ):
            if k not in ("PATH", "HOME") and not k.startswith(("PYTHON", "VERIF")):
                del os.environ[k]
        self.dir = scratch()
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old[2])
        tempfile.tempdir = self.old[1]
        os.environ.clear()
        os.environ.update(self.old[0])
        shutil.rmtree(self.dir, ignore_errors=True)


class Unusual:
    """Settings of the process that are not the default ones, so that setting the default shows."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.keep = (np.geterr(), np.get_printoptions(), sys.getrecursionlimit(), sys.getswitchinterval(), gc.get_threshold(),
                     decimal.getcontext().copy(), sys.get_int_max_str_digits(), os.umask(rng.choice([0o022, 0o027, 0o077])),
                     logging.root.level, signal.getsignal(signal.SIGUSR1))
        np.seterr(**{k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")})
        np.set_printoptions(precision=rng.randint(3, 12), threshold=rng.randint(5, 2000))
        sys.setrecursionlimit(sys.getrecursionlimit() + rng.randint(0, 500))
        sys.setswitchinterval(rng.choice([0.005, 0.003, 0.011]))
        gc.set_threshold(rng.randint(500, 900), *gc.get_threshold()[1:])
        decimal.getcontext().prec = rng.randint(20, 40)
        sys.set_int_max_str_digits(rng.randint(4000, 9000))
        logging.root.setLevel(rng.choice([logging.ERROR, logging.CRITICAL, logging.WARNING]))
        signal.signal(signal.SIGUSR1, rng.choice([signal.SIG_DFL, signal.SIG_IGN]))
        random.seed(rng.random())
        np.random.seed(rng.randrange(2**31))

    def __exit__(self, *a):
        k = self.keep
        np.seterr(**k[0])
        np.set_printoptions(**k[1])
        sys.setrecursionlimit(k[2])
        sys.setswitchinterval(k[3])
        gc.set_threshold(*k[4])
        decimal.setcontext(k[5])
        sys.set_int_max_str_digits(k[6])
        os.umask(k[7])
        logging.root.setLevel(k[8])
        signal.signal(signal.SIGUSR1, k[9])


# ------------------------------------------------------------------ operations
def spec_of(rng, kind):
    s = gen.spec_random(rng, kinds=(kind,), maxpatch=5, max_rings=8)
    if s["cls"] == "healpix":
        s["log2NSide"] = min(s["log2NSide"], 1)
    return s


def operations(s, rng):
    """[(name, function of a map)]: every public operation, with fixed arguments, answers as plain values."""
    pts = [(rng.uniform(0, 360), rng.uniform(-89, 89)) for _ in range(3)]
    coords = [gen.sp(*p) for p in pts]
    a = np.array(pts)
    k = rng.random()

    def t_of(m):
        return m[int(k*len(m))]

    def p_of(m):
        t = t_of(m)
        return t[int(k*len(t))]

    def fresh_log(m):
        out = io.StringIO()
        lg = logging.Logger("verif", level=logging.INFO)
        lg.addHandler(logging.StreamHandler(out))
        m.logSkyMapInfo(lg)
        return out.getvalue()

    def near(m):
        t = t_of(m)
        return t.getWcs().pixelToSky(0.3*t.getBBox().getWidth(), 0.6*t.getBBox().getHeight())

    def maybe(f):
        e = obs.attempt(f)
        return e[1] if e[0] == "ok" else ["exc", e[1].__name__]
    ops = [
        ("build", lambda m: len(gen.build(s))),
        ("digest", lambda m: gen.build(s).getSha1().hex()),
        ("compare", lambda m: [m == gen.build(s), m != gen.build(s), m == 3, hash(m) == hash(gen.build(s))]),
        ("findTract", lambda m: [obs.num(m.findTract(c).getId()) for c in coords]),
        ("findTractIdArray", lambda m: m.findTractIdArray(a[:, 0], a[:, 1], degrees=True).tolist()),
        ("findTractIdArray radians", lambda m: m.findTractIdArray(np.radians(a[:, 0]), np.radians(a[:, 1])).tolist()),
        ("findTractPatchList", lambda m: maybe(lambda: [(obs.num(t.getId()), len(p)) for t, p in m.findTractPatchList([near(m)])])),
        ("findClosestTractPatchList", lambda m: maybe(lambda: [(obs.num(t.getId()), len(p))
                                                               for t, p in m.findClosestTractPatchList([near(m)])])),
        ("iterate", lambda m: [obs.num(t.getId()) for t in m]),
        ("interrupted iterations", lambda m: interrupted(m)),
        ("past the end", lambda m: maybe(lambda: m[len(m)])),
        ("tract", lambda m: obs.tract(t_of(m))),
        ("findPatch", lambda m: maybe(lambda: obs.patch(t_of(m).findPatch(near(m))))),
        ("findPatch off", lambda m: [maybe(lambda: obs.patch(t_of(m).findPatch(c))) for c in coords]),
        ("contains", lambda m: [bool(t_of(m).contains(c)) for c in coords]),
        ("patches", lambda m: [obs.patch(p) for p in t_of(m)][:50]),
        ("no such patch", lambda m: maybe(lambda: t_of(m)[(-1, 0)])),
        ("cells", lambda m: [obs.cell(c) for c in p_of(m)][:50]),
        ("polygons", lambda m: [maybe(lambda: obs.poly(p_of(m).getInnerSkyPolygon())),
                                maybe(lambda: obs.poly(p_of(m).getOuterSkyPolygon())),
                                maybe(lambda: obs.poly(t_of(m).getOuterSkyPolygon())),
                                maybe(lambda: obs.region(t_of(m).getInnerSkyRegion()))]),
        ("text", lambda m: [str(t_of(m)), repr(t_of(m)), str(p_of(m)), repr(p_of(m))]),
        ("log", fresh_log),
        ("pickle", lambda m: obs.num(pickle.loads(pickle.dumps(m))[0].getId())),
        ("copy", lambda m: len(copy.deepcopy(m))),
    ]
    if s["cls"] == "rings":
        ops.append(("findAllTracts", lambda m: [sorted(obs.num(t.getId()) for t in m.findAllTracts(c)) for c in coords]))
    rng.shuffle(ops)
    return ops


def interrupted(m):
    """Loops left early, by break, by an error, and one still open."""
    out = []
    for t in m:
        out.append(obs.num(t.getId()))
        break
    for p in m[0]:
        out.append(obs.pair(p.getIndex()))
        break
    for c in m[0][0]:
        out.append(obs.pair(c.getIndex()))
        break
    try:
        for t in m:
            raise KeyError("stop")
    except KeyError:
        pass
    a, b = iter(m), iter(m)
    out.append([obs.num(next(a).getId()), obs.num(next(b).getId()), obs.num(next(a, m[0]).getId())])
    return out


def do_watch(ctx, params, rng):
    s = spec_of(rng, params["kind"])
    with Scratch(), Unusual(rng):
        m = gen.build(s)
        for what, f in operations(s, rng):
            with Watch(ctx, what, spec=s):
                f(m)
            ctx.seen(what, s["cls"], s["builder"])
        with Watch(ctx, "iterations under way", spec=s):
            under_way = [iter(m), iter(m[len(m) - 1]), iter(m[0][0])]
            for it in under_way:
                next(it, None)
        ctx.ev("iterations under way")
        del it, under_way
        if len(m) <= 30:
            long_lists(ctx, s, m, rng)
        if params["k"] % 12 == 0 and len(m) <= 30:
            registration(ctx, s, rng)
    ctx.sample(map=gen.label(s))


def registration(ctx, s, rng):
    """What registering leaves changed, once the Butler has made itself at home in the process."""
    from lsst.daf.butler import Butler
    if sum(len(t) for t in gen.build(s)) > 400:
        return
    root = tempfile.mkdtemp()
    Butler.makeRepo(root)
    b = Butler.from_config(root, writeable=True)
    first = gen.build(dict(gen.spec_random(rng, kinds=("dodeca",)), builder="legacy", dims=[1000, 1000], border=0, pixelScale=2000.0,
                           tractOverlap=0.0, projection="TAN"))
    e = obs.attempt(first.register, "first", b)
    m = gen.build(s)
    for again in range(2):
        with Unusual(rng):
            before = process(files=False)
            e = obs.attempt(m.register, "map", b)
            after = process(files=False)
        ctx.ev("registration watched")
        for k, v in before.items():
            if k not in ("threads", "atexit", "gc"):
                ctx.ok(after[k] == v, "changed-" + k.replace(" ", "-"), "registering (%s) changed the process's %s: %.200r, was "
                       "%.200r" % (e[0], k, after[k], v), spec=s)
    ctx.seen("register", s["cls"], s["builder"], e[0])
    del b, e
    gc.collect()        # (closes its database)


def long_lists(ctx, s, m, rng):
    """Lists and arrays longer than anyone would write down."""
    n = rng.choice([600, 1100, 2100])
    r = np.random.RandomState(rng.randrange(2**31))
    ra, dec = r.uniform(0, 360, n), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    coords = [gen.sp(a, d) for a, d in zip(ra[:n if n < 2000 else 300], dec)]
    ops = [("findTractIdArray", lambda: m.findTractIdArray(ra, dec, degrees=True)),
           ("findTractPatchList", lambda: m.findTractPatchList(coords)),
           ("findClosestTractPatchList", lambda: m.findClosestTractPatchList(coords[:60]))]
    for what, f in ops:
        if s["cls"] == "rings" and what == "findTractPatchList":
            coords = coords[:40] + coords[:40]*15
        ctx.ev("long list")
        with Watch(ctx, "%s of many" % what, spec=s, n=n):
            obs.attempt(f)


def do_hostile(ctx, params, rng):
    """The same answers whatever the process is set to."""
    s = spec_of(rng, params["kind"])
    ops = operations(s, rng)
    usual = {what: f(gen.build(s)) for what, f in ops}
    with Scratch():
        m = gen.build(s)
        for what, f in ops:
            rs = random.getstate(), np.random.get_state()
            prec, limit = decimal.getcontext().prec, np.get_printoptions()
            setting = rng.choice(["seeds", "printing", "decimal", "no gc", "warn error", "no stdout", "closed stdin", "environment",
                                  "random fixed", "debug"])
            keep = sys.stdout, sys.stdin, dict(os.environ), logging.root.level
            try:
                if setting in ("seeds", "random fixed"):
                    random.seed(rng.choice([0, 1]))
                    np.random.seed(rng.choice([0, 1]))
                elif setting == "printing":
                    np.set_printoptions(precision=1, threshold=2, suppress=True)
                elif setting == "decimal":
                    decimal.getcontext().prec = 2
                elif setting == "no gc":
                    gc.disable()
                elif setting == "no stdout":
                    sys.stdout = None
                elif setting == "closed stdin":
                    sys.stdin = None
                elif setting == "environment":
                    for k in ("HOME", "USER", "LANG", "TZ", "PATH", "PYTHONHASHSEED"):
                        os.environ.pop(k, None)
                elif setting == "debug":
                    logging.root.setLevel(1)
                with warnings.catch_warnings():
                    if setting == "warn error":
                        warnings.simplefilter("error", RuntimeWarning)
                        warnings.simplefilter("error", UserWarning)
                    got = obs.attempt(f, m)
            finally:
                random.setstate(rs[0])
                np.random.set_state(rs[1])
                decimal.getcontext().prec = prec
                np.set_printoptions(**limit)
                gc.enable()
                sys.stdout, sys.stdin = keep[0], keep[1]
                os.environ.clear()
                os.environ.update(keep[2])
                logging.root.setLevel(keep[3])
            ctx.ev("hostile settings")
            ctx.ok(got[0] == "ok", "setting-fails", "%s with %s: %r" % (what, setting, got), spec=s)
            ctx.eq(repr(got[1]), repr(usual[what]), "setting-differs", "%s with %s" % (what, setting), spec=s)
            ctx.seen(what, setting)


# ------------------------------------------------------------------ imports
IMPORT = """
import sys, warnings
sys.path.insert(0, %(here)r)
from mon import load
load._paths(); load.inject_version()
import lsst.geom, lsst.afw.geom, lsst.pex.exceptions, lsst.pex.config, lsst.sphgeom, hpgeom, numpy, deprecated.sphinx
import lsst.daf.butler
from mon.props import c29
warnings.simplefilter("default")
c29.Unusual(c29.random.Random(%(seed)d)).__enter__()
a = c29.process(files=False)
import lsst.skymap, lsst.skymap.packers, lsst.skymap.ringsSkyMap, lsst.skymap.healpixSkyMap
b = c29.process(files=False)
import json
print(json.dumps([k for k in a if a[k] != b[k]]))
"""


FIRST = """
import sys
sys.path.insert(0, %(here)r)
from mon import load
load._paths(); load.inject_version()
import lsst.geom, lsst.afw.geom, lsst.pex.exceptions, lsst.pex.config, lsst.sphgeom, hpgeom, numpy, deprecated.sphinx
import lsst.daf.butler
from mon.props import c29
c29.first_use(%(kind)r, %(seed)d)
"""


class Collector:
    """Stands in for the run's context in an interpreter of its own."""

    def __init__(self):
        self.bad, self.n = [], 0

    def ok(self, good, key, msg, **wit):
        self.n += 1
        if not good:
            self.bad.append([key, msg])
        return good

    def eq(self, got, want, key, msg, **wit):
        return self.ok(got == want, key, "%s: %r, want %r" % (msg, got, want))

    def ev(self, *a):
        pass


def first_use(kind, seed):
    """The operations, each for the first time in the process."""
    rng = random.Random(seed)
    ctx = Collector()
    with Scratch(), Unusual(rng):
        s = spec_of(rng, kind)
        gen._mapclasses()
        ops = operations(s, rng)
        with Watch(ctx, "build"):
            m = gen.build(s)
        for what, f in ops:
            with Watch(ctx, "first " + what):
                f(m)
    print(json.dumps([ctx.n, ctx.bad]))


def do_first(ctx, params, rng):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR") or k.startswith(("PYTHON", "VERIF"))}
    seed = rng.randrange(10**6)
    r = subprocess.run([sys.executable, "-c", FIRST % dict(here=load.HERE, seed=seed, kind=params["kind"])], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=load.HERE, env=dict(env, PYTHONDONTWRITEBYTECODE="1"), timeout=300)
    if not ctx.ok(r.returncode == 0, "first-use", "failed: %s" % r.stderr.decode()[-2000:]):
        return
    n, bad = json.loads(r.stdout.decode().splitlines()[-1])
    ctx.ev("first use", n)
    for key, msg in bad:
        ctx.ok(False, key, msg, kind=params["kind"], seed=seed)
    ctx.ok(n > 300, "first-use", "only %d comparisons" % n)
    ctx.seen("first", params["kind"])


def do_import(ctx, params, rng):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if params["bare"]:
        env = {k: v for k, v in env.items() if k in ("PATH", "HOME", "TMPDIR") or k.startswith(("PYTHON", "VERIF"))}
    r = subprocess.run([sys.executable, "-c", IMPORT % dict(here=load.HERE, seed=rng.randrange(10**6))], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=load.HERE, env=env, timeout=300)
    ctx.ok(r.returncode == 0, "import", "import failed: %s" % r.stderr.decode()[-2000:])
    ctx.ev("import watched")
    lines = r.stdout.decode().splitlines()
    ctx.eq(len(lines), 1, "import-printed", "lines printed: %r" % (lines,))
    ctx.eq(json.loads(lines[-1]), [], "import-changed", "importing the package changed the process's")
    warned = [ln for ln in r.stderr.decode().splitlines() if "Warning" in ln and "lsst/skymap" in ln]
    ctx.eq(warned, [], "import-warned", "warnings on import")
    ctx.seen("import")


# ------------------------------------------------------------------ packers
def do_packer(ctx, params, rng):
    packs.universe()
    with Scratch(), Unusual(rng):
        while True:
            c = packs.random_case(rng)
            e = obs.attempt(packs.make, c)
            if e[0] == "ok":
                break
        p = e[1]
        ids = sample_ids(c, rng)
        vals = [p.pack(d) for d in ids]
        for what, f in (("make", lambda: packs.make(c)), ("pack", lambda: [p.pack(d) for d in ids]),
                        ("unpack", lambda: [p.unpack(v) for v in vals]), ("bits", lambda: p.maxBits),
                        ("refuse", lambda: obs.attempt(p.pack, packs.data_id(c["name"], c["n_tracts"], 0)))):
            with Watch(ctx, "packer " + what, case=c):
                f()
            ctx.ev("packer watched")
            ctx.seen("packer", what, c["how"])
        r = weakref.ref(p)
        del p, e, f
        gc.collect()
        ctx.ev("dropped")
        ctx.ok(r() is None, "kept-packer", "a packer no longer used is kept", case=c)


def sample_ids(c, rng):
    bands = [b for b in packs.table(c) if b is not None] if packs.n_bands(c) else []
    return [packs.data_id(c["name"], rng.randrange(c["n_tracts"]), rng.randrange(c["nx"]*c["ny"]),
                          rng.choice(bands) if bands else None) for _ in range(6)]


# ------------------------------------------------------------------ memory
def do_drop(ctx, params, rng):
    """Maps, tracts and patches no longer used are freed, also after use and when a query failed."""
    s = spec_of(rng, params["kind"])
    m = gen.build(s)
    ops = operations(s, rng)
    chosen = [w for w, f in ops if rng.random() < 0.6]
    for what, f in ops:
        if what in chosen:
            f(m)
    t = m[rng.randrange(len(m))]
    p = t[rng.randrange(min(len(t), 5))]
    refs = {"map": weakref.ref(m), "configuration": weakref.ref(m.config)}
    for name, o in (("tract", t), ("patch", p)):
        e = obs.attempt(weakref.ref, o)
        if e[0] == "ok":
            refs[name] = e[1]
    keep = rng.choice(["nothing", "tract", "patch"])
    held = {"tract": t, "patch": p, "nothing": None}[keep]
    del m, t, p, o, e, what, f, ops
    gc.collect()
    ctx.ev("dropped")
    for name, r in refs.items():
        if name == keep or (keep == "tract" and name == "patch"):
            continue
        if keep != "nothing" and name in ("configuration", "tract", "map"):
            continue         # a tract may hold its layout's settings, a patch its tract's
        ctx.ok(r() is None, "kept-" + name, "a %s no longer used is kept (holding %s) after %s" % (name, keep, chosen), spec=s)
    del held
    gc.collect()
    for name, r in refs.items():
        ctx.ok(r() is None, "kept-" + name, "a %s no longer used is kept after %s" % (name, chosen), spec=s)
    ctx.seen("drop", s["cls"], keep, tuple(chosen[:2]))


def grown(f, warm, more):
    """Objects and bytes kept by further calls, and the number of calls."""
    for _ in range(warm):
        f()
    gc.collect()
    gc.collect()
    tracemalloc.start()
    a, x = len(gc.get_objects()), tracemalloc.get_traced_memory()[0]
    for _ in range(more):
        f()
    gc.collect()
    gc.collect()
    b, y = len(gc.get_objects()), tracemalloc.get_traced_memory()[0]
    tracemalloc.stop()
    return b - a, y - x


def do_memory(ctx, params, rng):
    """With all tracts made, further queries at ever new positions keep nothing."""
    s = gen.spec_random(rng, kinds=(params["kind"],), maxpatch=3, max_rings=3)
    if s["cls"] == "healpix":
        s["log2NSide"] = min(s["log2NSide"], 1)
    m = gen.build(s)
    for t in m:
        list(zip(t, range(40)))
    n = len(m)
    r2 = random.Random(rng.random())

    def coord():
        return gen.sp(r2.uniform(0, 360), r2.uniform(-80, 80))

    def inside():
        t = m[r2.randrange(n)]
        return t, t.getWcs().pixelToSky(r2.uniform(0, t.getBBox().getWidth() - 1), r2.uniform(0, t.getBBox().getHeight() - 1))

    def list_of():
        t, c = inside()
        return obs.attempt(t.findPatchList, [c])[0]

    def patch():
        t, c = inside()
        return obs.attempt(t.findPatch, c)[0]

    def poly():
        t, c = inside()
        p = obs.attempt(t.findPatch, c)
        if p[0] == "ok":
            obs.attempt(p[1].getOuterSkyPolygon)
            obs.attempt(p[1].getInnerSkyPolygon)
            hash(repr(p[1]))

    def bad():
        obs.attempt(m.__getitem__, n + r2.randrange(10**6))
        obs.attempt(m[0].__getitem__, 10**6 + r2.randrange(10**6))
    acts = [("findTract", lambda: m.findTract(coord())),
            ("array", lambda: m.findTractIdArray(np.array([r2.uniform(0, 6)]), np.array([r2.uniform(-1, 1)]))),
            ("contains", lambda: m[r2.randrange(n)].contains(coord())), ("patch", patch), ("list", list_of), ("polygon", poly),
            ("digest", lambda: gen.build(s).getSha1()), ("pickle", lambda: pickle.loads(pickle.dumps(m))), ("bad", bad),
            ("compare", lambda: m == gen.build(s)), ("region", lambda: obs.attempt(m.findClosestTractPatchList, [coord()])[0])]
    if s["cls"] == "rings":
        acts.append(("all", lambda: m.findAllTracts(coord())))
    for what, f in rng.sample(acts, 6):
        more = 300
        if what in ("digest", "pickle", "compare"):
            more = 15 if s["cls"] in ("equat", "dodeca") else 60
        elif what in ("findTract", "region", "array") and s["cls"] in ("equat", "discrete", "dodeca"):
            more = 100
        limit = 12000 + 50*more
        objs, size = grown(f, more, more)
        if objs > more//3 or size > limit:
            # Something of Python's own may have grown; a leak goes on.
            objs, size = grown(f, more, more)
        ctx.ev("memory compared")
        ctx.ok(objs <= more//3 and size <= limit, "grows", "%d more calls of %s keep %d objects, %d bytes" % (more, what, objs, size),
               spec=s)
        ctx.seen("memory", what, s["cls"])


def do_memory_packer(ctx, params, rng):
    while True:
        c = packs.random_case(rng)
        e = obs.attempt(packs.make, c)
        if e[0] == "ok" and c["n_tracts"] > 200 and c["how"] != "field":     # (which makes a new type each time)
            break
    p = e[1]
    r2 = random.Random(rng.random())

    def one():
        d = sample_ids(c, r2)[0]
        p.unpack(p.pack(d))
    objs, size = grown(one, 200, 300)
    if objs > 100 or size > 25000:
        objs, size = grown(one, 200, 300)
    ctx.ev("memory compared")
    ctx.ok(objs <= 100 and size <= 25000, "grows", "300 more calls of a packer keep %d objects, %d bytes" % (objs, size), case=c)
    objs, size = grown(lambda: packs.make(c), 30, 60)
    ctx.ok(objs <= 60 and size <= 25000, "grows", "making 60 more packers keeps %d objects, %d bytes" % (objs, size), case=c)
    ctx.seen("memory packer", c["how"])
