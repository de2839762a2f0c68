"""Butler repositories for the monitors: a template made once, copied for every case."""
import atexit
import os
import shutil
import tempfile

_TEMPLATE = None


def template():
    """An empty repository (sqlite, coarse common sky pixelization so that whole-sky tracts stay cheap)."""
    global _TEMPLATE
    if _TEMPLATE is None:
        from lsst.daf.butler import Butler, DimensionConfig
        d = tempfile.mkdtemp(prefix="verif-repo-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        c = DimensionConfig()
        c["skypix", "common"] = "htm1"
        Butler.makeRepo(os.path.join(d, "r"), dimensionConfig=c)
        _TEMPLATE = os.path.join(d, "r")
    return _TEMPLATE


class Repo:
    """A scratch copy of the template, removed on exit."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-case-")
        self.root = os.path.join(self.dir, "r")
        shutil.copytree(template(), self.root)
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def butler(self):
        from lsst.daf.butler import Butler
        return Butler.from_config(self.root, writeable=True)

    def reader(self):
        from lsst.daf.butler import Butler
        return Butler.from_config(self.root, writeable=False)


def plain(v):
    if hasattr(v, "encode") and not isinstance(v, str):      # a region
        return v.encode().hex()
    if isinstance(v, bytes):
        return v.hex()
    return v


def state(root):
    """Everything the repository says about sky maps, as plain values."""
    from lsst.daf.butler import Butler
    b = Butler.from_config(root, writeable=False)
    out = {}
    for e in ("skymap", "tract", "patch"):
        recs = [{k: plain(v) for k, v in r.toDict().items()} for r in b.registry.queryDimensionRecords(e)]
        out[e] = sorted(recs, key=repr)
    try:
        refs = list(b.registry.queryDatasets("skyMap", collections=...))
    except Exception as e:
        if "Missing" not in type(e).__name__ and "NoDefault" not in type(e).__name__:
            raise
        refs = []
    out["datasets"] = sorted((str(r.dataId["skymap"]), r.run, bool(b.stored(r))) for r in refs)
    return out
