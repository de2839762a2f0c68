"""Threads sharing a sky map get the answers they would get alone."""
import numpy as np

from .. import gen, obs, packs, ref, sched
from ..core import Inconclusive
from .c13 import at, perform, random_op, run, same, short

RULE = ("2 to 4 threads share one or two maps, fresh or warm, (or one or two packers) and run 2 to 8 queries each, mostly of the same tracts.  A "
        "scheduler decides at every executed line (or bytecode) of the package who runs next: random switching at "
        "several rates, or a few random preemptions; further cases run free with microsecond time slices.  Every "
        "answer is compared with the answer of a fresh map in one thread.  Non-trivial: a distinct interleaving, "
        "by its sequence of switch points.")
ASSUMPTIONS = ["pex_config does not support two threads saving one configuration at once: one thread saves at a time",
               "CPython with its global lock: switches happen between bytecodes, not inside library calls"]
ROUNDS = 3
REQUIRED_EVENTS = ("thread switch", "controlled run", "free run", "answer", "packer answer")


def cases(tier):
    n = 220 if tier == "quick" else 3000
    out = []
    for k in range(n):
        out.append(("controlled", {"k": k, "kind": gen.ALL[k % 5] if k % 3 else "rings"}))
    out += [("patchlists", {"k": k}) for k in range(n//6)]
    out += [("packer", {"k": k}) for k in range(n//4)]
    out += [("free", {"k": k, "kind": gen.ALL[k % 5]}) for k in range(n//8)]
    return out


def thread_op(rng, spec, n, hot):
    while True:
        op = random_op(rng, spec, n, None)
        if op[0] in ("grow", "scribble", "equal"):
            continue
        if op[0] == "roundtrip":        # saving a configuration is not for two threads at once (pex_config)
            continue
        if len(op) > 1 and isinstance(op[1], int) and op[0] != "iter" and rng.random() < 0.8:
            op = (op[0], rng.choice(hot)) + tuple(op[2:])
        return op


def run_case(ctx, name, params, rng):
    if name == "patchlists":
        return patchlists(ctx, rng)
    if name == "packer":
        return packer(ctx, rng)
    kw = dict(kinds=(params["kind"],), max_rings=6)
    spec = gen.spec_random(rng, **kw)
    while spec["cls"] == "healpix" and spec["log2NSide"] > 1:
        spec = gen.spec_random(rng, **kw)
    specs = [spec]
    if rng.random() < 0.25:
        specs.append(gen.spec_random(rng, max_rings=4))
        while specs[1]["cls"] == "healpix" and specs[1]["log2NSide"] > 1:
            specs[1] = gen.spec_random(rng, max_rings=4)
    maps = [obs.build(ctx, s) for s in specs]
    lens = [len(m) for m in maps]
    hot = [rng.randrange(lens[0]) for _ in range(2)]
    nt = rng.choice([2, 2, 3, 4])
    work = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(2, 5 if name == "controlled" else 12)):
            j = rng.randrange(len(maps))
            h = [i % lens[j] for i in hot]
            ops.append((j, thread_op(rng, specs[j], lens[j], h)))
        work.append(ops)
    if rng.random() < 0.5:      # everyone asks the same things
        work = [list(work[0]) for _ in range(nt)]
    want = {}
    for ops in work:
        for j, op in ops:
            if (j, repr(op)) not in want:
                want[(j, repr(op))] = run(gen.build(specs[j]), op, None, None)
    if rng.random() < 0.3:      # a warm map
        for i in hot:
            maps[0][i]
    if rng.random() < 0.2:      # one saves or copies the map again and again while others ask
        how = rng.choice(["pickle", "copy", "deepcopy"])
        work = [list(w) for w in work]
        work[0] = [(0, ("roundtrip", how, rng.choice(hot))) for _ in range(2)]      # it alone
        for w in work[1:]:
            w[:0] = [(0, ("tract", rng.choice(hot))) for _ in range(3)]
        for ops in work:
            for j, op in ops:
                if (j, repr(op)) not in want:
                    want[(j, repr(op))] = run(gen.build(specs[j]), op, None, None)
        ctx.ev("saved meanwhile")
    bodies = [lambda ops=ops: [run(maps[j], op, None, None) for j, op in ops] for ops in work]
    if name == "free":
        res = sched.free(bodies)
        ctx.ev("free run")
        ctx.seen("free", gen.label(spec), nt, rng.random())
        trace = None
    else:
        k = rng.random()
        s = sched.Controlled(rng.random(), switch=rng.choice([0.02, 0.1, 0.3, 0.6, 1.0]), opcodes=rng.random() < 0.25,
                             changes=None if k < 0.6 else {rng.randrange(3000) for _ in range(rng.choice([1, 2, 3, 8]))})
        if s.changes is not None:
            s.changes |= {rng.randrange(200) for _ in range(2)}
        res = s.run(bodies)
        ctx.ev("controlled run")
        ctx.ev("thread switch", s.switches)
        ctx.ev("scheduling point", s.events)
        if s.stalls:
            ctx.ev("blocked outside", s.stalls)
        if s.switches:
            ctx.seen(tuple(s.trace))
        trace = s.trace
    judge(ctx, specs, work, res, want, trace)
    # and the map is left answering correctly
    for ops in work:
        for j, op in ops[:3]:
            got = run(maps[j], op, None, None)
            ctx.ok(same(got, want[(j, repr(op))]), "afterwards", "%s after the threads ended: %s, alone: %s" % (
                op, short(got), short(want[(j, repr(op))])), specs=specs)
    ctx.sample(map=spec["cls"], threads=nt, ops=[[o[0] for _, o in ops] for ops in work],
               switches=len(trace or ()), first_switches=[list(q) for q in (trace or ())[:6]])


def judge(ctx, specs, work, res, want, trace):
    for k, r in enumerate(res):
        if r is None:
            raise Inconclusive("a thread did not finish")
        if not r[0]:
            raise r[1]
        for (j, op), got in zip(work[k], r[1]):
            ctx.ev("answer")
            w = want[(j, repr(op))]
            ctx.ok(same(got, w), "thread-answer", "thread %d: %s gave %s, alone: %s" % (k, op, short(got), short(w)),
                   specs=specs, switches=[list(q) for q in (trace or ())[-12:]])


def patchlists(ctx, rng):
    """Region queries while other threads make the same tracts."""
    spec = gen.spec_random(rng, kinds=("rings", "discrete", "rings"), max_rings=5)
    m0 = gen.build(spec)
    b = m0[0].getBBox()
    regions = []
    for _ in range(2):
        t = m0[rng.randrange(len(m0))]
        pts = [at(t, rng.uniform(0.1, .9), rng.uniform(.1, .9)) for _ in range(rng.choice([2, 3, 4]))]
        regions.append(pts)

    def ask(m, f, pts):
        r = obs.attempt(getattr(m, f), pts)
        if r[0] == "exc":
            return "raised " + r[1].__name__
        return sorted([int(a.getId()), sorted(obs.pair(p.getIndex()) for p in b)] for a, b in r[1])
    qs = [(f, i) for f in ("findTractPatchList", "findClosestTractPatchList") for i in (0, 1)]
    want = {q: ask(gen.build(spec), q[0], regions[q[1]]) for q in qs}
    m = obs.build(ctx, spec)
    work = [[rng.choice(qs) for _ in range(2)] for _ in range(2)]
    if rng.random() < 0.5:
        work[1] = list(work[0])
    s = sched.Controlled(rng.random(), switch=rng.choice([0.02, 0.1, 0.3]))
    res = s.run([lambda w=w: [ask(m, f, regions[i]) for f, i in w] for w in work])
    ctx.ev("controlled run")
    ctx.ev("thread switch", s.switches)
    if s.switches:
        ctx.seen(tuple(s.trace))
    for k, r in enumerate(res):
        if r is None:
            raise Inconclusive("a thread did not finish")
        if not r[0]:
            raise r[1]
        for q, got in zip(work[k], r[1]):
            ctx.ev("answer")
            ctx.ok(got == want[q], "patch-list", "thread %d: %s gave %s, alone: %s" % (k, q, short(got), short(want[q])),
                   spec=spec)


def packer(ctx, rng):
    """Threads that share one or two new packers."""
    cs = []
    for _ in range(rng.choice([1, 1, 2])):
        c = packs.random_case(rng)
        while packs.n_bands(c) == 0 and rng.random() < 0.9:
            c = packs.random_case(rng)
        cs.append(c)
    ps = [packs.make(c) for c in cs]
    work = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 5)):
            j = rng.randrange(len(cs))
            c = cs[j]
            nb = packs.n_bands(c)
            bands = [b for b, i in packs.table(c).items() if b is not None and 0 <= i < nb]
            t, q = rng.randrange(c["n_tracts"]), rng.randrange(c["nx"]*c["ny"])
            b = rng.choice(bands) if nb else None
            ops.append((j, rng.choice(["pack", "unpack", "unpack", "bits", "refuse"]), t, q, b))
        work.append(ops)
    if rng.random() < 0.4:
        work = [list(work[0]) for _ in work]

    def one(j, how, t, q, b):
        c, p = cs[j], ps[j]
        if how == "bits":
            return p.maxBits
        if how == "refuse":
            return obs.attempt(p.pack, packs.data_id(c["name"], c["n_tracts"], q, b))[0]
        if how == "pack":
            return p.pack(packs.data_id(c["name"], t, q, b))
        u = p.unpack(packs.number(c, t, q, b))
        return (u["tract"], u["patch"], u["band"] if b is not None else None, u["skymap"])

    def want(j, how, t, q, b):
        c = cs[j]
        return {"bits": packs.bits(c), "refuse": "exc", "pack": packs.number(c, t, q, b),
                "unpack": (t, q, b, c["name"])}[how]
    bodies = [lambda ops=ops: [one(*op) for op in ops] for ops in work]
    trace = None
    if rng.random() < 0.15:
        res = sched.free(bodies)
        ctx.ev("free run")
    else:
        s = sched.Controlled(rng.random(), switch=rng.choice([0.1, 0.3, 0.6, 1.0]), opcodes=rng.random() < 0.4,
                             changes=None if rng.random() < 0.7 else {rng.randrange(150) for _ in range(rng.choice([1, 2, 3, 6]))})
        res = s.run(bodies)
        ctx.ev("controlled run")
        ctx.ev("thread switch", s.switches)
        if s.switches:
            ctx.seen("packer", tuple(s.trace))
        trace = s.trace
    for k, r in enumerate(res):
        if r is None:
            raise Inconclusive("a thread did not finish")
        if not r[0]:
            ctx.fail("packer-raised", "thread %d of %r raised %r" % (k, work[k], r[1]), cases=cs,
                     switches=[list(q) for q in (trace or ())[-12:]])
            continue
        for op, got in zip(work[k], r[1]):
            ctx.ev("packer answer")
            ctx.ok(got == want(*op), "packer-answer", "thread %d: %r gave %r, want %r" % (k, op, got, want(*op)), cases=cs,
                   switches=[list(q) for q in (trace or ())[-12:]])
    for op in work[0]:
        ctx.ok(one(*op) == want(*op), "packer-afterwards", "%r after the threads ended gave %r, want %r" % (
            op, one(*op), want(*op)), cases=cs)
