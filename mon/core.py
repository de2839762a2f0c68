"""Monitor runtime: case scheduling, event counting, verdicts, evidence.

A property module (``mon/props/cNN.py``) supplies

    RULE        how its cases are made and what makes one non-trivial
    ASSUMPTIONS list of str
    cases(tier) -> list of (name, params)      deterministic, JSON-able params
    run_case(ctx, name, params, rng)           drives the code and judges it

Each case gets its own PRNG, derived from (property, seed, case number), so a
violation is replayed by re-running that one case.  Verdicts are three-valued:
exit 0 held, exit 1 violated (with a VIOLATION line), exit 3 inconclusive
(nothing observed, harness error, stand-in library lacks something, watchdog).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import load

HERE = load.HERE
KNOWN_FILE = os.path.join(HERE, "known_findings.json")


class Inconclusive(Exception):
    """The monitor cannot decide (never raised for anything the code did)."""


class StopCase(Exception):
    """Enough violations in this case."""


class Ctx:
    """What one case observed."""

    MAX_VIOL = 5

    def __init__(self, prop, tier, case):
        self.prop, self.tier, self.case = prop, tier, case
        self.evals = 0
        self.distinct = set()
        self.events = collections.Counter()
        self.violations = []
        self.samples = []
        self.per_key = collections.Counter()
        self.known = {k["key"] for k in known_findings() if k["property"] == prop and k.get("status") == "known"}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ev(self, kind, n=1):
        """Count an observed event (a call made, a result recorded)."""
        self.events[kind] += n

    def seen(self, *what):
        """Note a non-trivial situation; counted once however often it recurs."""
        self.distinct.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: _plain(v) for k, v in kw.items()})

    def ok(self, cond, key, msg="", **witness):
        """One oracle evaluation.  ``key`` names the mechanism that failed."""
        self.evals += 1
        if cond:
            return True
        self.per_key[key] += 1
        if self.per_key[key] <= self.MAX_VIOL:
            self.violations.append({"key": key, "msg": str(msg),
                                    "witness": {k: _plain(v) for k, v in witness.items()}})
        if self.per_key[key] >= self.MAX_VIOL and key not in self.known:
            raise StopCase()
        return False

    def fail(self, key, msg="", **witness):
        return self.ok(False, key, msg, **witness)

    def eq(self, got, want, key, msg="", **witness):
        return self.ok(got == want, key, "%s: got %r, want %r" % (msg, got, want), **witness)

    def evn(self, n):
        """Count n oracle evaluations that were made in bulk and held."""
        self.evals += int(n)


def _plain(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        return repr(v)


_SHIM_MODULES = ("lsst.geom", "lsst.afw", "lsst.pex.exceptions")


def _lacks_api(exc):
    """Did the code ask the stand-in library for something it does not have?"""
    if isinstance(exc, AttributeError) and getattr(exc, "obj", None) is not None:
        o = exc.obj
        mod = o.__name__ if isinstance(o, type(os)) else (
            o.__module__ if isinstance(o, type) else type(o).__module__)
        name = getattr(exc, "name", "") or ""
        return any(mod == m or mod.startswith(m + ".") for m in _SHIM_MODULES) and not name.startswith("_")
    if isinstance(exc, ImportError):
        return any((exc.name or "").startswith(m) or m in str(exc) for m in _SHIM_MODULES)
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    repo = [f for f in tb if f.filename.startswith(load.REPO + os.sep)]
    where = "%s:%s" % (os.path.basename(repo[-1].filename), repo[-1].name) if repo else "harness"
    return type(exc).__name__, where, "".join(traceback.format_exception(exc))[-3000:]


_EXCUSED = None


def _run_one(args):
    prop, tier, seed, idx, name, params = args
    mod = importlib.import_module("mon.props." + prop.lower())
    ctx = Ctx(prop, tier, [name, idx, params])
    rng = random.Random("%s/%d/%d/%s" % (prop, seed, idx, name))
    t0 = time.time()
    out = {"idx": idx, "name": name, "params": params, "inconclusive": None}
    try:
        mod.run_case(ctx, name, params, rng)
    except StopCase:
        pass
    except Inconclusive as e:
        out["inconclusive"] = str(e)
    except MemoryError:
        out["inconclusive"] = "out of memory"
    except Exception as e:
        if _lacks_api(e):
            out["inconclusive"] = "stand-in library lacks: %s\n%s" % (e, describe(e)[2])
        else:
            typ, where, txt = describe(e)
            ctx.evals += 1
            ctx.violations.append({"key": "unexpected-%s" % typ,
                                   "msg": "unexpected %s in %s: %s" % (typ, where, e),
                                   "witness": {"traceback": txt}})
    out.update(evals=ctx.evals, distinct=ctx.distinct, events=ctx.events,
               violations=ctx.violations, samples=ctx.samples, t=time.time() - t0)
    return out


def known_findings():
    if not os.path.exists(KNOWN_FILE):
        return []
    with open(KNOWN_FILE) as f:
        return json.load(f)["findings"]


def _watchdog(limit):
    def fire(sig, frame):
        print("INCONCLUSIVE watchdog: no verdict after %d s" % limit, flush=True)
        for p in multiprocessing.active_children():
            p.kill()
        os._exit(3)
    signal.signal(signal.SIGALRM, fire)
    signal.alarm(limit)


def run(prop, tier, seed, only=None, jobs=None):
    t0 = time.time()
    _watchdog(840 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "7200")))
    try:
        load.load()
        mod = importlib.import_module("mon.props." + prop.lower())
    except ImportError as e:
        print("INCONCLUSIVE property=%s cannot import the package under test: %r" % (prop, e))
        traceback.print_exc()
        return 3
    # Each round is the same list of cases with other random choices.
    rounds = int(os.environ.get("VERIF_ROUNDS", getattr(mod, "ROUNDS", 1))) if tier == "quick" else 1
    todo = [(prop, tier, seed, i, n, p) for i, (n, p) in enumerate(list(mod.cases(tier))*rounds)]
    if only is not None:
        todo = [t for t in todo if t[3] == only]
    n = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    if len(todo) == 1 or n == 1:
        res = until_violation(map(_run_one, todo), prop)
    else:
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        with multiprocessing.get_context("fork").Pool(min(n, len(todo)), maxtasksperchild=None) as pool:
            res = until_violation(pool.imap_unordered(_run_one, todo, chunksize=1), prop)
    res.sort(key=lambda r: r["idx"])

    evals = sum(r["evals"] for r in res)
    distinct = set().union(*[r["distinct"] for r in res]) if res else set()
    events = collections.Counter()
    for r in res:
        events.update(r["events"])
    known = {k["key"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    hit, bad, inc = {}, [], []
    for r in res:
        if r["inconclusive"]:
            inc.append(r)
        for v in r["violations"]:
            if v["key"] in known:
                hit.setdefault(v["key"], []).append((r, v))
            else:
                bad.append((r, v))
    samples = [s for r in res for s in r["samples"]][:6]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
            "samples": samples or [{"case": r["name"], "params": r["params"]} for r in res[:3]],
            "cases": len(res), "events": dict(sorted(events.items())),
        },
        "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    if hit:
        ev["coverage"]["known_findings_observed"] = {k: len(v) for k, v in hit.items()}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, known[k]["what"], len(hit[k])))
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(res, key=lambda r: -r["t"])[:8]:
            print("  %.2fs %s %s" % (r["t"], r["name"], json.dumps(r["params"])[:150]))
    print("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct situations, %.1f s" % (
        prop, tier, seed, len(res), evals, len(distinct), time.time() - t0))
    if bad:
        keys = collections.Counter(v["key"] for _, v in bad)
        shown = set()
        for r, v in bad:
            if v["key"] in shown or len(shown) >= 6:
                continue
            shown.add(v["key"])
            path = write_replay(prop, tier, seed, r, v)
            print("  %s x%d: %s" % (v["key"], keys[v["key"]], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inc:
        for r in inc[:5]:
            print("INCONCLUSIVE property=%s case %s %s: %s" % (prop, r["name"], r["idx"], r["inconclusive"]))
        return 3
    if only is None and (evals == 0 or not distinct or not events):
        print("INCONCLUSIVE property=%s: the monitor observed nothing" % prop)
        return 3
    need = getattr(mod, "REQUIRED_EVENTS", ())
    missing = [k for k in need if not events.get(k)]
    if only is None and missing:
        print("INCONCLUSIVE property=%s: never observed %s" % (prop, missing))
        return 3
    return 0


def until_violation(results, prop):
    """All results; with VERIF_FIRST set (for trying many changes), only up to the first violation."""
    if not os.environ.get("VERIF_FIRST"):
        return list(results)
    known = {k["key"] for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    res = []
    for r in results:
        res.append(r)
        if any(v["key"] not in known for v in r["violations"]):
            break
    return res


def write_replay(prop, tier, seed, r, v):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, tier, seed, r["idx"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "case": r["idx"], "name": r["name"],
                   "params": r["params"], "violation": v,
                   "rerun": "bash /verif/check.sh %s %s --replay %s" % (prop, tier, path)},
                  f, indent=1, default=repr)
    return path


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    rest = list(argv[1:])
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            with open(rest.pop(0)) as f:
                rp = json.load(f)
            tier, seed, only = rp["tier"], rp["seed"], rp["case"]
        elif a == "--seed":
            seed = int(rest.pop(0))
        else:
            raise SystemExit("unknown argument %r" % a)
    return run(prop, tier, seed, only)

