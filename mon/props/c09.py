"""Cells tile each patch and its cell border on one grid shared by neighbouring patches."""
from .. import gen, obs, ref

RULE = ("Random cell-based maps of every kind plus the production cell map; every cell of small patches, edges, corners and a "
        "sample of large ones; patches of several tracts read interleaved.  Neighbouring patches are compared on the "
        "cells they share.  Non-trivial: a distinct (cells per patch, border cells, border pixels, position of cell and "
        "of patch).")
ASSUMPTIONS = ["boxes are compared as integers, exactly"]
ROUNDS = 5
REQUIRED_EVENTS = ("cell read", "patch covered", "shared cell")


def cases(tier):
    n = 250 if tier == "quick" else 2000
    return ([("production", {})]
            + [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)])


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production("lsst_cells_v1")
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), builders=("cells",), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    m = obs.build(ctx, spec)
    per, inb = spec["perPatch"], spec["inBorder"]
    nc = ref.num_cells(spec)[0]
    ids = obs.tract_ids(len(m), rng, 3)
    patches = []
    for t in [m[i] for i in ids]:
        nx, ny = obs.pair(t.getNumPatches())
        for x, y in rng.sample(obs.patch_ids(nx, ny, rng, 9), min(4, nx*ny)):
            patches.append((t, x, y, t.getPatchInfo((x, y))))
    work = []
    for t, x, y, p in patches:
        wit = dict(spec=spec, tract=t.getId(), patch=[x, y])
        ctx.eq(obs.pair(p.getNumCells()), [nc, nc], "num-cells", "cells per patch", **wit)
        ctx.eq(len(p), nc*nc, "len", "length of a patch", **wit)
        ctx.eq(obs.num(p.getCellBorder()), spec["cellBorder"], "cell-border", "cell border", **wit)
        ctx.eq(obs.pair(p.getCellInnerDimensions()), list(spec["cell"]), "cell-dim", "cell dimensions", **wit)
        if nc*nc <= 150:
            work += [(t, x, y, p, a, b) for a in range(nc) for b in range(nc)]
        else:
            sel = set(obs.patch_ids(nc, nc, rng, 50))
            sel |= {(a, b) for a in (inb - 1, inb, inb + per - 1, inb + per) for b in (inb, inb - 1, inb + per)
                    if 0 <= a < nc and 0 <= b < nc}
            work += [(t, x, y, p, a, b) for a, b in sorted(sel)]
    rng.shuffle(work)
    cover = {}
    for t, x, y, p, a, b in work:
        c = p.getCellInfo((a, b))
        ctx.ev("cell read")
        wit = dict(spec=spec, tract=t.getId(), patch=[x, y], cell=[a, b])
        i, o = ref.cell_boxes(spec, x, y, a, b)
        ctx.eq(obs.rbox(c.getInnerBBox()), list(i), "inner", "inner box of cell", **wit)
        ctx.eq(obs.rbox(c.getOuterBBox()), list(o), "outer", "outer box of cell", **wit)
        ctx.eq(obs.pair(c.getIndex()), [a, b], "index", "cell index", **wit)
        ctx.ok(obs.wcs(c.getWcs()) == obs.wcs(t.getWcs()), "wcs", "cell WCS differs from its tract's", **wit)
        ctx.seen(per, inb, spec["cellBorder"], spec["cell"][0], a < inb, b < inb, a >= inb + per, b >= inb + per,
                 x == 0, y == 0)
        cover.setdefault((t.getId(), x, y), (p, []))[1].append((a, b, obs.rbox(c.getInnerBBox()),
                                                               obs.rbox(c.getOuterBBox())))
        # the same grid square seen from the neighbouring patch
        nx, ny = t.getNumPatches()
        for dx, dy in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)):
            a2, b2 = a - dx*per, b - dy*per
            if 0 <= x + dx < nx and 0 <= y + dy < ny and 0 <= a2 < nc and 0 <= b2 < nc and rng.random() < 0.3:
                c2 = t.getPatchInfo((x + dx, y + dy)).getCellInfo((a2, b2))
                ctx.ev("shared cell")
                ctx.ok(obs.rbox(c2.getInnerBBox()) == obs.rbox(c.getInnerBBox())
                       and obs.rbox(c2.getOuterBBox()) == obs.rbox(c.getOuterBBox()), "shared",
                       "cell (%d, %d) of patch (%d, %d) and cell (%d, %d) of patch (%d, %d) differ" % (
                           a, b, x, y, a2, b2, x + dx, y + dy), **wit)
    for (tid, x, y), (p, cells) in cover.items():
        if len(cells) != nc*nc:
            continue
        ctx.ev("patch covered")
        wit = dict(spec=spec, tract=tid, patch=[x, y])
        pi, po = obs.rbox(p.getInnerBBox()), obs.rbox(p.getOuterBBox())
        core = [c for c in cells if inb <= c[0] < inb + per and inb <= c[1] < inb + per]
        hull = lambda bs: [min(q[0] for q in bs), min(q[1] for q in bs), max(q[2] for q in bs), max(q[3] for q in bs)]
        area = lambda bs: sum((q[2] - q[0] + 1)*(q[3] - q[1] + 1) for q in bs)
        ctx.eq(hull([c[2] for c in core]), pi, "core-hull", "inner cells span the patch inner box", **wit)
        ctx.eq(area([c[2] for c in core]), area([pi]), "core-area", "inner cells tile the patch inner box", **wit)
        ctx.eq(hull([c[3] for c in cells]), po, "outer-hull", "cell outer boxes span the patch outer box", **wit)
        g = hull([c[2] for c in cells])
        ctx.eq(area([c[2] for c in cells]), area([g]), "all-area", "cells tile without gap or overlap", **wit)
        ctx.eq([obs.cell(c) for c in p], [obs.cell(p.getCellInfo(k)) for k in range(nc*nc)], "iteration",
               "iterating a patch", **wit)
    ctx.sample(spec=spec, cells=nc, read=len(work))
