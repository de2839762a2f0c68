"""Packers and data IDs for the packing monitors."""
import copy
import io
import pickle
import string

DEFAULT_BANDS = ([None] + list("ugrizyUBGVRIZYJHK") + ["N387", "N515", "N656", "N816", "N921", "N1010"]
                 + ["N419", "N540", "N708", "N964"])
_U = None


def universe():
    global _U
    if _U is None:
        from lsst.daf.butler import DimensionUniverse
        _U = DimensionUniverse()
    return _U


def fixed(name, counts=None):
    from lsst.daf.butler import DataCoordinate
    u = universe()
    d = DataCoordinate.from_full_values(u.conform(["skymap"]), values=(name,))
    if counts is None:
        return d
    return d.expanded(records={"skymap": u["skymap"].RecordClass(
        name=name, hash=b"x"*20, tract_max=counts[0], patch_nx_max=counts[1], patch_ny_max=counts[2])})


def data_id(name, tract, patch, band=None):
    from lsst.daf.butler import DataCoordinate
    kw = dict(skymap=name, tract=tract, patch=patch)
    if band is not None:
        kw["band"] = band
    return DataCoordinate.standardize(kw, universe=universe())


def random_case(rng):
    """A packing configuration as plain data."""
    big = rng.random() < 0.3
    nt = rng.choice([1, 2, 3, 5, 12, 255, 256, 257, rng.randint(1, 40)]) if not big else rng.choice(
        [18938, 19000, 2**15, 2**20 - 1, 2**31, rng.randint(1000, 10**6), 2**40, 3**40])
    nx, ny = rng.choice([(1, 1), (3, 3), (9, 9), (10, 10), (1, 7), (12, 5), (2**12, 2**11) if big else (5, 4), (rng.randint(1, 12), rng.randint(1, 12))])
    if rng.random() < 0.06:
        # products just above, at or below a power of two, beyond what a float tells apart:
        # 2**60 + 1 = 17*241*61681*4562284561, 2**50 + 1 = 5**2*41*101*8101*1321*..., 2**55 - 1 = 23*31*89*881*3191*201961
        nt, (nx, ny) = rng.choice([(17*241*61681, (4562284561, 1)), (17*241, (61681, 4562284561)), (23*31*89*881, (3191, 201961)),
                                   (2**30, (2**15, 2**10)), (2**30 + 1, (2**30 - 1, 1)), (2**53 + 1, (1, 1)), (2**49 + 1, (1, 1)),
                                   (2**33 + 1, (2**16, 1)), (2**53 - 1, (2, 4))])
    c = {"name": rng.choice(["m", "hsc rings v1", "a/b", "ünï"]), "n_tracts": nt, "nx": nx, "ny": ny,
         "how": rng.choice(["record", "config", "config-record", "field", "dimensions", "explicit"])}
    k = rng.random()
    if k < 0.3:
        c["bands"], c["n_bands"] = None, 0
    elif k < 0.5:
        c["bands"], c["n_bands"] = None, rng.choice([None, len(DEFAULT_BANDS), 40])
    else:
        n = rng.choice([1, 2, 3, 6, 9])
        names = rng.sample(list("ugrizyUBGVRIZYJHK") + ["N387", "white", "band two", "é", "", " r", "None", "r'"]
                           + list(string.digits), n)
        style = rng.choice(["dense", "shuffled", "sparse", "offset"])
        if style == "dense":
            idx = list(range(n))
        elif style == "shuffled":
            idx = rng.sample(range(n), n)
        elif style == "sparse":
            idx = rng.sample(range(2*n + 3), n)
        else:
            idx = list(range(2, n + 2))
        c["bands"] = dict(zip(names, idx))
        # n_bands None means as many as there are; otherwise room for all
        c["n_bands"] = None if style in ("dense", "shuffled") and rng.random() < 0.5 else max(idx) + 1 + rng.choice([0, 0, 3])
    return c


HOWS = ("record", "config", "config-record", "field", "dimensions", "explicit")
VIAS = ("ctor", "dims", "config", "field", "text", "copy", "pickle")
SOURCES = ("record", "given", "override")


def make(c):
    """A packer for the case, by its route ``how``: a name, or (via, source of tracts, source of patches).

    A count comes from the record, is given (and absent from the record, unless the other needs one), or is given and
    overrides a different count in the record.
    """
    how = c["how"]
    if not isinstance(how, str):
        return make_by(c, *how)
    return make_by(c, *{
        "record": ("ctor", "record", "record"), "config": ("config-tract-id", "given", "given"),
        "config-record": ("config", "record", "record"), "field": ("field", "record", "record"),
        "dimensions": ("dims", "record", "record"), "explicit": ("ctor", "given", "given")}[how])


def make_by(c, via, st, sp):
    from lsst.skymap.packers import SkyMapDimensionPacker as P
    n_patches = c["nx"]*c["ny"]
    counts = [c["n_tracts"], c["nx"], c["ny"]]
    kw = {}
    if st != "record":
        kw["n_tracts"] = c["n_tracts"]
        counts[0] = c["n_tracts"] + 3 if len(c["name"]) % 2 else max(c["n_tracts"]//2, 1)
    if sp != "record":
        kw["n_patches"] = n_patches
        counts[1], counts[2] = (c["nx"] + 1, c["ny"]) if len(c["name"]) % 2 else (1, max(c["ny"]//2, 1))
    bare = st == sp == "given"
    f = fixed(c["name"], None if bare else counts)
    if via == "config-tract-id":
        f = data_id(c["name"], 0, 0)
    if via in ("ctor", "dims", "copy", "pickle"):
        args = ()
        if via == "dims":
            args = (universe().conform(["tract", "patch"] + (["band"] if c["n_bands"] != 0 else [])),)
        p = P(f, *args, bands=c["bands"], n_bands=c["n_bands"], **kw)
        if via == "copy":
            p = copy.copy(p)
        elif via == "pickle":
            p = pickle.loads(pickle.dumps(p))
        return p

    def fill(cfg):
        if "keep" in c:
            c["keep"].append(cfg)
        cfg.bands = c["bands"]
        cfg.n_bands = c["n_bands"]
        for k, v in kw.items():
            setattr(cfg, k, v)
    if via == "field":
        from lsst.pex.config import Config

        class Some(Config):
            packer = P.make_config_field()
        cfg = Some()
        c["hold"] = cfg if "keep" in c else None
        fill(cfg.packer)
        return cfg.packer.apply(f)
    cfg = P.ConfigClass()
    fill(cfg)
    if via == "text":
        s = io.StringIO()
        cfg.saveToStream(s)
        cfg = P.ConfigClass()
        cfg.loadFromString(s.getvalue())
        cfg.freeze()
    return P.from_config(f, cfg)


def table(c):
    """Band to index, as configured."""
    return c["bands"] if c["bands"] is not None else {b: i for i, b in enumerate(DEFAULT_BANDS)}


def n_bands(c):
    return c["n_bands"] if c["n_bands"] is not None else len(table(c))


def bits(c):
    n = c["n_tracts"]*c["nx"]*c["ny"]*(n_bands(c) or 1)
    return (n - 1).bit_length()


def number(c, tract, patch, band=None):
    n = c["nx"]*c["ny"]
    v = patch + n*tract
    if n_bands(c):
        v += table(c)[band]*n*c["n_tracts"]
    return v
