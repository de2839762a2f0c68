"""Registering is all or nothing, may be repeated, and never changes a registered map."""
import contextlib
import os
import pickle
import signal

from .. import gen, obs
from ..repo import Repo, state
from .c20 import small

RULE = ("Registrations in real Butler repositories are interrupted: an exception before or after each call the code makes of "
        "the Butler and of the WCS, and death of the process at each such call; then repeated, attempted under another name or "
        "with another map, and made by several processes at once.  The repository is read back with a new client each time.  "
        "Non-trivial: a distinct (interruption, call interrupted, map kind).")
ASSUMPTIONS = ["the Butler's own transactions are trusted, and its errors when processes collide are tolerated if the end "
               "state is whole"]
LEVEL = "fault_enumeration"
REQUIRED_EVENTS = ("fault injected", "process killed", "registered again", "conflict refused", "registered after failure",
                   "processes at once", "same map again", "large map interrupted")


class Injected(Exception):
    """Not any exception the code could know about."""


class Fault(BaseException):
    """Nor even an Exception (as KeyboardInterrupt is)."""


def cases(tier):
    n = 3 if tier == "quick" else 40
    out = []
    for k in range(n):
        for kind in gen.ALL:
            out += [("fault", {"kinds": [kind], "k": k}), ("repeat", {"kinds": [kind], "k": k})]
    out += [("kill", {"k": k}) for k in range(8 if tier == "quick" else 60)]
    out += [("race", {"k": k}) for k in range(4 if tier == "quick" else 24)]
    out += [("wcs", {"k": k}) for k in range(8 if tier == "quick" else 60)]
    out += [("big", {"k": k}) for k in range(3 if tier == "quick" else 30)]
    return out


def prepare(tier):
    from ..repo import template
    template()


class Spy:
    """Passes everything on to the Butler, counting calls and acting at the chosen one."""

    def __init__(self, target, act, calls, path=""):
        self.__dict__.update(_t=target, _act=act, _calls=calls, _path=path)

    def __getattr__(self, name):
        v = getattr(self._t, name)
        path = self._path + "." + name
        if name in ("registry", "collections"):
            return Spy(v, self._act, self._calls, path)
        if not callable(v):
            return v

        def call(*a, **k):
            me = len(self._calls)
            self._calls.append(path)
            self._act("before", me, path)
            out = v(*a, **k)
            if name == "transaction":
                return self._transaction(out, me, path)
            self._act("after", me, path)
            return out
        return call

    def __setattr__(self, name, v):
        setattr(self._t, name, v)

    @contextlib.contextmanager
    def _transaction(self, cm, me, path):
        with cm as x:
            self._act("after", me, path)
            yield x
            # the last moment before the commit
            last = len(self._calls)
            self._calls.append(path + ".commit")
            self._act("before", last, path + ".commit")


def quiet(*a):
    pass


def run_case(ctx, name, params, rng):
    globals()["do_" + name](ctx, params, rng)


def expected(ctx, maps):
    """What a repository with just these maps says."""
    with Repo() as r:
        b = r.butler()
        for nm, s in maps:
            gen.build(s).register(nm, b)
        return state(r.root)


def do_fault(ctx, params, rng):
    s, m = small(rng, tuple(params["kinds"]))
    want = expected(ctx, [("m", s)])
    with Repo() as r0:
        calls = []
        gen.build(s).register("m", Spy(r0.butler(), quiet, calls))
        ctx.eq(state(r0.root), want, "spied", "state after an uninterrupted registration", spec=s)
    with Repo() as r0:
        empty = state(r0.root)
    n = len(calls)
    ctx.ok(n > 3, "spied", "only %d calls seen" % n)
    points = [(k, w) for k in range(n) for w in ("before", "after")]
    firsts = {}
    for p in points:
        firsts.setdefault((calls[p[0]], p[1]), p)
    lasts = {}
    for p in points:
        lasts[(calls[p[0]], p[1])] = p
    chosen = set(firsts.values()) | set(lasts.values())
    rest = [p for p in points if p not in chosen]
    rng.shuffle(rest)
    chosen = sorted(chosen)
    if not ctx.thorough:
        chosen = rng.sample(chosen, min(len(chosen), 7)) + rest[:1]
    else:
        chosen += rest[:10]
    for k, w in chosen:
        exc = rng.choice([Injected, Fault, ValueError, KeyError, OSError])

        def act(when, i, path):
            if i == k and when == w:
                raise exc("injected")
        with Repo() as r:
            b = r.butler()
            mm = gen.build(s)
            seen = []
            raised = None
            try:
                mm.register("m", Spy(b, act, seen))
            except BaseException as e:
                if e.__class__.__name__ in ("StopCase",):
                    raise
                raised = e
            reached = len(seen) > k
            wit = dict(spec=s, call=calls[k], when=w, exception=exc.__name__)
            if not reached or (w == "after" and seen[k].endswith(".commit")):
                continue
            ctx.ev("fault injected")
            ctx.ok(raised is not None, "swallowed", "%s %s %s was swallowed" % (exc.__name__, w, seen[k]), **wit)
            st = state(r.root)
            ctx.ok(st == empty, "partial", "after %s %s call %d (%s): repository holds %s" % (
                exc.__name__, w, k, seen[k], brief(st)), **wit)
            # and again, with the same client and map or new ones
            if rng.random() < 0.5:
                b = r.butler()
                mm = gen.build(s)
            e = obs.attempt(mm.register, "m", b)
            ctx.ev("registered after failure")
            ctx.ok(e[0] == "ok", "stuck", "registering again after %s %s %s: %r" % (exc.__name__, w, seen[k], e), **wit)
            ctx.ok(state(r.root) == want, "stuck", "registering again after %s %s %s left %s" % (
                exc.__name__, w, seen[k], brief(state(r.root))), **wit)
            ctx.seen("fault", seen[k], w, exc.__name__, s["cls"])
    ctx.sample(map=gen.label(s), calls=calls[:8], points=[(calls[k], w) for k, w in chosen[:6]])


def brief(st):
    return {k: len(v) for k, v in st.items()}


def do_big(ctx, params, rng):
    """Maps of many tracts, or of tracts of many patches, stopped part way through."""
    from .c20 import many
    s = many(rng, params["k"] % 3)
    want = expected(ctx, [("m", s)])
    with Repo() as r0:
        empty = state(r0.root)
        calls = []
        gen.build(s).register("m", Spy(r0.butler(), quiet, calls))
    n = len(calls)
    puts = [i for i, c in enumerate(calls) if c.endswith(".put")]
    inserts = [i for i, c in enumerate(calls) if c.endswith("insertDimensionData")]
    points = {(n - 1, "before", "raise"), (rng.choice(puts or [n - 2]), "before", rng.choice(["raise", "kill"])),
              (rng.choice(inserts or [n//2]), "after", rng.choice(["raise", "kill"]))}
    for k, w, how in sorted(points):
        def act(when, i, path):
            if i == k and when == w:
                if how == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise Injected("injected")
        with Repo() as r:
            if how == "kill":
                _, status = os.waitpid(child(lambda: gen.build(s).register("m", Spy(r.butler(), act, []))), 0)
                stopped = os.WIFSIGNALED(status)
            else:
                stopped = obs.attempt(gen.build(s).register, "m", Spy(r.butler(), act, []))[0] == "exc"
            ctx.ok(stopped, "swallowed", "%s at call %d (%s) had no effect" % (how, k, calls[k]), spec=gen.label(s))
            ctx.ev("process killed" if how == "kill" else "fault injected")
            ctx.ev("large map interrupted")
            st = state(r.root)
            ctx.ok(st == empty, "partial", "after %s %s call %d of %d (%s) repository holds %s" % (
                how, w, k, n, calls[k], brief(st)), spec=gen.label(s))
            e = obs.attempt(gen.build(s).register, "m", r.butler())
            ctx.ok(e[0] == "ok" and state(r.root) == want, "stuck", "registering again after %s %s %s: %r, %s" % (
                how, w, calls[k], e, brief(state(r.root))), spec=gen.label(s))
        ctx.seen("big", calls[k], w, how, params["k"] % 3)


def do_wcs(ctx, params, rng):
    """A failure in working out a region, part way through."""
    s, _ = small(rng, gen.ALL)
    want = expected(ctx, [("m", s)])
    with Repo() as r0:
        empty = state(r0.root)
    import lsst.afw.geom as afwGeom
    real = afwGeom.SkyWcs.pixelToSky
    total = [0]

    def counting(self, *a, **k):
        total[0] += 1
        return real(self, *a, **k)
    m = gen.build(s)
    for t in m:
        pass
    afwGeom.SkyWcs.pixelToSky = counting
    try:
        with Repo() as r:
            m.register("m", r.butler())
    finally:
        afwGeom.SkyWcs.pixelToSky = real
    for _ in range(3):
        k = rng.choice([0, total[0] - 1, rng.randrange(max(1, total[0]))])
        n = [0]

        def failing(self, *a, **kw):
            n[0] += 1
            if n[0] == k + 1:
                raise Injected("no sky position")
            return real(self, *a, **kw)
        with Repo() as r:
            b = r.butler()
            afwGeom.SkyWcs.pixelToSky = failing
            try:
                e = obs.attempt(m.register, "m", b)
            finally:
                afwGeom.SkyWcs.pixelToSky = real
            if n[0] <= k:
                continue
            ctx.ev("fault injected")
            ctx.ok(e[0] == "exc", "swallowed", "a failed region was swallowed", spec=s)
            ctx.eq(brief(state(r.root)), brief(empty), "partial", "repository after region %d failed" % k, spec=s)
            m.register("m", b)
            ctx.ev("registered after failure")
            ctx.ok(state(r.root) == want, "stuck", "registering again left %s" % brief(state(r.root)), spec=s)
            ctx.seen("wcs", s["cls"], k == 0, k == total[0] - 1)


def child(f):
    """Run f in a process of its own; returns its wait status."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            f()
            code = 0
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    return pid


def do_kill(ctx, params, rng):
    """The process dies at some call; the repository then holds all of the map or nothing of it."""
    s, _ = small(rng, gen.ALL)
    want = expected(ctx, [("m", s)])
    with Repo() as r0:
        empty = state(r0.root)
        calls = []
        gen.build(s).register("m", Spy(r0.butler(), quiet, calls))
    for _ in range(3 if not ctx.thorough else 6):
        k = rng.choice([len(calls) - 1, len(calls) - 2, rng.randrange(len(calls)), rng.randrange(len(calls))])
        w = rng.choice(["before", "after"])
        if calls[k].endswith(".commit"):
            w = "before"

        def act(when, i, path):
            if i == k and when == w:
                os.kill(os.getpid(), signal.SIGKILL)
        with Repo() as r:
            pid = child(lambda: gen.build(s).register("m", Spy(r.butler(), act, [])))
            _, status = os.waitpid(pid, 0)
            if not os.WIFSIGNALED(status):
                ctx.ok(os.WEXITSTATUS(status) == 0, "killed", "the process failed before call %d" % k, spec=s)
                continue
            ctx.ev("process killed")
            st = state(r.root)
            ctx.ok(st == empty or st == want, "partial", "the process died %s call %d (%s); repository holds %s, whole is %s" % (
                w, k, calls[k], brief(st), brief(want)), spec=s)
            e = obs.attempt(gen.build(s).register, "m", r.butler())
            ctx.ev("registered after failure")
            ctx.ok(e[0] == "ok" and state(r.root) == want, "stuck", "registering again after death %s %s: %r, %s" % (
                w, calls[k], e, brief(state(r.root))), spec=s, call=calls[k], when=w)
            ctx.seen("kill", calls[k], w, s["cls"])


def do_race(ctx, params, rng):
    """Several processes register at once, the same map or two maps."""
    s, _ = small(rng, gen.ALL)
    two = rng.random() < 0.4
    s2 = dict(s, pixelScale=s["pixelScale"]*(1 + 1e-9))
    if two:
        nm2 = rng.choice(["m", "n"])
        jobs = [("m", s), (nm2, s2)]*2
    else:
        jobs = [("m", s)]*3
    wants = [expected(ctx, [("m", s)])]
    if two:
        wants = [expected(ctx, [("m", s)]), expected(ctx, [("m", s2)])] if nm2 == "m" else [
            expected(ctx, [("m", s), ("n", s2)]), expected(ctx, [("m", s)]), expected(ctx, [("n", s2)])]
    with Repo() as r:
        a, z = os.pipe()

        def one(nm, sp):
            os.close(z)
            m = gen.build(sp)
            b = r.butler()
            os.read(a, 1)       # all start together
            m.register(nm, b)
        pids = [child(lambda j=j: one(*j)) for j in jobs]
        os.close(a)
        os.close(z)
        good = 0
        for p in pids:
            _, st = os.waitpid(p, 0)
            good += os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        st = state(r.root)
        ctx.ev("processes at once", len(jobs))
        ctx.ev("of which succeeded", good)
        ctx.ok(st in wants, "race", "%d processes (%d succeeded) left %s" % (len(jobs), good, brief(st)), spec=s)
        ctx.ok(good > 0, "race", "no process managed to register", spec=s)
        e = obs.attempt(gen.build(s).register, "m", r.butler())
        if not two or nm2 == "n":
            ctx.ok(e[0] == "ok", "race", "registering afterwards: %r" % (e,), spec=s)
        ctx.seen("race", two, s["cls"], good)


def do_repeat(ctx, params, rng):
    """Again under the same name: nothing changes.  Another map under the name, or the map under another: refused."""
    from lsst.daf.butler.registry import ConflictingDefinitionError
    s, m = small(rng, tuple(params["kinds"]))
    want = expected(ctx, [("m", s)])
    with Repo() as r:
        b = r.butler()
        m.register("m", b)
        ctx.ok(state(r.root) == want, "repeat", "state after registering", spec=s)
        for how in rng.sample(["same", "rebuilt", "pickled", "new client", "stored"], 3):
            c = r.butler() if how == "new client" else b
            if how == "pickled":
                mm = pickle.loads(pickle.dumps(m))
            elif how == "stored":
                mm = b.get("skyMap", skymap="m", collections="skymaps")
            else:
                mm = m if how == "same" else gen.build(s)
            e = obs.attempt(mm.register, "m", c)
            ctx.ev("same map again")
            ctx.ok(e[0] == "ok", "repeat", "registering the %s map again: %r" % (how, e), spec=s)
            ctx.ok(state(r.root) == want, "repeat", "registering the %s map again changed the repository" % how, spec=s)
            ctx.ev("registered again")
            ctx.seen("repeat", how, s["cls"])
        # another map under this name
        t, other = small(rng, gen.ALL)
        for what, sp in (("unlike", t), ("alike", dict(s, pixelScale=s["pixelScale"]*(1 + 1e-12))),
                         ("border", dict(s, border=s["border"] + 1) if s["builder"] == "legacy" else
                          dict(s, cellBorder=s["cellBorder"] + 1))):
            if gen.build(sp).getSha1() == m.getSha1():
                continue
            e = obs.attempt(gen.build(sp).register, "m", r.butler() if rng.random() < 0.5 else b)
            ctx.ev("conflict refused")
            ctx.ok(e[0] == "exc" and issubclass(e[1], ConflictingDefinitionError), "conflict-name",
                   "registering a different map (%s) under the name: %r" % (what, e), spec=s, other=sp)
            ctx.ok(state(r.root) == want, "conflict-changed", "a refused registration changed the repository", spec=s)
            ctx.seen("conflict", what, s["cls"])
        # this map under another name
        e = obs.attempt(gen.build(s).register, "another", b)
        ctx.ev("conflict refused")
        ctx.ok(e[0] == "exc" and issubclass(e[1], ConflictingDefinitionError), "conflict-digest",
               "registering the map under another name: %r" % (e,), spec=s)
        ctx.ok(state(r.root) == want, "conflict-changed", "a refused registration changed the repository", spec=s)
        # the refusals left the client and repository in working order
        if other.getSha1() != m.getSha1():
            other.register("n", b)
            ctx.ok(state(r.root) == expected(ctx, [("m", s), ("n", t)]), "after-refusal", "another map after refusals",
                   spec=s, other=t)
