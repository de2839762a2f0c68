"""Maps saved by the original code, kept with what it answered about them.

``python -m mon.golden write`` makes the files (done once, from the tree the
properties were written against); the monitors only read them.
"""
import base64
import json
import math
import os
import pickle
import random
import sys

from . import gen, load, obs

PATH = os.path.join(load.HERE, "golden", "maps.json")


def describe(m, spec, rng):
    """What the map answers about a sample of tracts, patches, cells and positions."""
    n = len(m)
    out = {"class": type(m).__name__, "len": n, "sha1": m.getSha1().hex(), "tracts": [], "found": []}
    for i in obs.tract_ids(n, rng, 6):
        t = m[i]
        d = obs.tract(t)
        nx, ny = t.getNumPatches()
        p = t.getPatchInfo((rng.randrange(nx), rng.randrange(ny)))
        d = {"tract": d, "patch": obs.patch(p)}
        if p.getNumCells()[0]:
            d["cell"] = obs.cell(p.getCellInfo((p.getNumCells()[0] - 1, 0)))
        out["tracts"].append(d)
    for _ in range(40):
        ra, dec = rng.uniform(0, 360), math.degrees(math.asin(rng.uniform(-1, 1)))
        p = gen.sp(ra, dec)
        out["found"].append([ra, dec, int(m.findTract(p).getId()),
                             int(m.findTractIdArray([ra % 360], [dec], degrees=True)[0])])
    return out


def specs():
    rng = random.Random("golden")
    out = [dict(s) for s in gen.PRODUCTION]
    for kind in gen.ALL:
        for v in ((0, 1) if kind == "rings" else (0,)):
            for b in ("legacy", "cells"):
                for _ in range(2):
                    s = gen.spec_random(rng, kinds=(kind,), builders=(b,), version=v, max_rings=20)
                    out.append(s)
    return out


def close(a, b, tol=1e-9):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol*max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    return a == b


def sky(p):
    """Unit vector of a recorded position; None for the corner that has none."""
    if "nan" in p or any(v != v for v in p):
        return None
    return (math.cos(p[1])*math.cos(p[0]), math.cos(p[1])*math.sin(p[0]), math.sin(p[1]))


def corners(a, b):
    """The same corners, whichever is listed first and however longitudes are wrapped."""
    a, b = [[sky(q) for q in v] for v in (a, b)]
    hit = [[(u is None) == (v is None) and (u is None or close(u, v)) for v in b] for u in a]
    return len(a) == len(b) and all(map(any, hit)) and all(map(any, zip(*hit)))


def polar(t):
    """Longitudes given to a centre or corner at a pole: rounding decides them, and they turn the pixel grid."""
    return sorted(round(p[0] % (2*math.pi), 6) for p in [t[3]] + t[8] if "nan" not in p and abs(p[1]) > math.pi/2 - 1e-7)


def same(a, b):
    """Whether two descriptions agree: integers exactly, numbers to 1e-9, positions as positions."""
    if isinstance(a, dict) and isinstance(b, dict) and "tract" in a and "tract" in b and polar(a["tract"]) != polar(b["tract"]):
        a, b = a["tract"], b["tract"]
        return a[1] == b[1] and close(a[7], b[7]) and close(sky(a[3]), sky(b[3])) and corners(a[8], b[8])
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) == 10 and a[0] == b[0] == "tract":
        (pa, sa, ma, ja), (pb, sb, mb, jb) = a[9], b[9]
        return (close(a[1:3] + a[4:8], b[1:3] + b[4:8]) and close(sky(a[3]), sky(b[3])) and corners(a[8], b[8]) and
                close([pa, ma, ja, sa[1]], [pb, mb, jb, sb[1]]) and close(math.cos(sa[0] - sb[0]), 1.0))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return close(a, b)


def read():
    with open(PATH) as f:
        return json.load(f)


def write():
    load.load()
    items = []
    for k, s in enumerate(specs()):
        m = gen.build(s)
        items.append({"seed": k, "spec": s, "pickles": [base64.b64encode(pickle.dumps(m, p)).decode() for p in (0, 2, 4)],
                      "answers": describe(m, s, random.Random(k))})
    with open(PATH, "w") as f:
        json.dump(items, f)
        f.write("\n")


if __name__ == "__main__" and sys.argv[1:] == ["write"]:
    write()
