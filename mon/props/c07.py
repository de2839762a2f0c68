"""The inner boxes of patches tile the tract; outer boxes add the border."""
from .. import gen, obs, ref

RULE = ("Random and production maps of every kind and both patch layouts, including maps whose tracts differ in size; "
        "several tracts are held at once and their patches read interleaved.  Every patch of small tracts, corners, "
        "edges and a sample of large ones.  Non-trivial: a distinct (builder, patch counts, border class, position of "
        "the patch in the grid).")
ASSUMPTIONS = ["boxes are compared as integers, exactly"]
ROUNDS = 10
REQUIRED_EVENTS = ("patch read", "tract tiled completely", "tracts of different size")


def cases(tier):
    n = 250 if tier == "quick" else 2500
    out = [("production", {"name": p["name"]}) for p in gen.PRODUCTION]
    out += [("random", {"kind": gen.ALL[k % len(gen.ALL)], "k": k}) for k in range(n)]
    out += [("sizes", {"k": k}) for k in range(n//4)]
    return out


def run_case(ctx, name, params, rng):
    if name == "production":
        spec = gen.production(params["name"])
    elif name == "sizes":
        spec = gen.spec_random(rng, kinds=("discrete",))
        while len(spec["raList"]) < 3:
            spec = gen.spec_random(rng, kinds=("discrete",))
        r = min(spec["radiusList"])
        spec["radiusList"] = [r*rng.choice([0.3, 0.5, 1.0, 1.0, 2.0]) for _ in spec["raList"]]
    else:
        spec = gen.spec_random(rng, kinds=(params["kind"],), max_rings=40)
    if name == "random" and rng.random() < 0.12:
        spec = gen.big(rng, spec)
        ctx.ev("big")
    m = obs.build(ctx, spec)
    ids = obs.tract_ids(len(m), rng, 5)
    rng.shuffle(ids)
    tracts = [m[i] for i in ids]
    if len({tuple(obs.rbox(t.getBBox())) for t in tracts}) > 1:
        ctx.ev("tracts of different size")
    w, h = ref.patch_inner(spec)
    work = []
    for t in tracts:
        b = obs.rbox(t.getBBox())
        nx, ny = obs.pair(t.getNumPatches())
        wit = dict(spec=spec, tract=t.getId())
        ctx.eq(b[:2], [0, 0], "origin", "tract bbox starts at", **wit)
        ctx.eq([b[2] + 1, b[3] + 1], [nx*w, ny*h], "dimensions", "tract size for %d x %d patches of %d x %d" % (
            nx, ny, w, h), **wit)
        ctx.eq(obs.pair(t.getPatchInnerDimensions()), [w, h], "inner-dim", "patch inner dimensions", **wit)
        ctx.eq(obs.num(t.getPatchBorder()), ref.patch_border(spec), "border", "patch border", **wit)
        ctx.eq(len(t), nx*ny, "len", "number of patches", **wit)
        if nx*ny <= (150 if not ctx.thorough else 600):
            work += [(t, x, y) for x in range(nx) for y in range(ny)]
        else:
            work += [(t, x, y) for x, y in obs.patch_ids(nx, ny, rng, 40)]
    rng.shuffle(work)
    cover = {}
    for t, x, y in work:
        p = t.getPatchInfo((x, y))
        ctx.ev("patch read")
        b = obs.rbox(t.getBBox())
        nx, ny = t.getNumPatches()
        wit = dict(spec=spec, tract=t.getId(), patch=[x, y])
        i, o = obs.rbox(p.getInnerBBox()), obs.rbox(p.getOuterBBox())
        ctx.eq(i, list(ref.inner_box(spec, x, y)), "inner", "inner box of patch (%d, %d)" % (x, y), **wit)
        ctx.eq(o, list(ref.outer_box(spec, x, y, (b[2] + 1, b[3] + 1))), "outer", "outer box of patch (%d, %d) of "
               "%d x %d" % (x, y, nx, ny), **wit)
        ctx.eq(tuple(obs.pair(p.getIndex())), (x, y), "index", "index of patch", **wit)
        ctx.ok(obs.wcs(p.getWcs()) == obs.wcs(t.getWcs()), "wcs", "patch WCS differs from its tract's", **wit)
        cover.setdefault(t.getId(), []).append(i)
        ctx.seen(spec["builder"], nx, ny, spec["cls"], x == 0, y == 0, x == nx - 1, y == ny - 1,
                 ref.patch_border(spec) == 0, ref.patch_border(spec) > w)
    for t in tracts:
        nx, ny = t.getNumPatches()
        boxes = cover[t.getId()]
        if len(boxes) != nx*ny:
            continue
        ctx.ev("tract tiled completely")
        area = sum((q[2] - q[0] + 1)*(q[3] - q[1] + 1) for q in boxes)
        b = obs.rbox(t.getBBox())
        ctx.eq(area, (b[2] + 1)*(b[3] + 1), "area", "inner boxes cover", spec=spec, tract=t.getId())
        xs, ys = {(q[0], q[2]) for q in boxes}, {(q[1], q[3]) for q in boxes}
        for s in (sorted(xs), sorted(ys)):
            ctx.ok(all(s[j][1] + 1 == s[j + 1][0] for j in range(len(s) - 1)), "gap", "gap or overlap in %r" % s[:5],
                   spec=spec)
        seq = list(t)
        ctx.eq([obs.patch(p) for p in seq], [obs.patch(t.getPatchInfo(k)) for k in range(nx*ny)], "iteration",
               "iterating a tract", spec=spec)
    ctx.sample(spec=spec, tracts=ids, sizes=[obs.rbox(t.getBBox())[2:] for t in tracts], patches=len(work))
