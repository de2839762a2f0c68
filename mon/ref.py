"""Reference model of what a configuration denotes.

Written from the documentation and the FITS WCS papers, not from the code
under test: plain numpy vectors, wcslib (through astropy) for projections, and
integer arithmetic for the patch and cell grids.  A *spec* is a JSON-able dict
describing one sky map (see mon/gen.py); nothing here imports lsst.skymap.
"""
import hashlib
import math
import struct

import numpy as np

DEG = math.pi/180.0
ZENITHAL = ("TAN", "STG", "SIN", "ARC", "ZEA")
CLASSNAME = {"rings": "RingsSkyMap", "dodeca": "DodecaSkyMap", "equat": "EquatSkyMap",
             "discrete": "DiscreteSkyMap", "healpix": "HealpixSkyMap"}


# ---------------------------------------------------------------- the sphere
def vec(ra, dec):
    """Unit vector(s) from RA, Dec in degrees."""
    ra, dec = np.asarray(ra, float)*DEG, np.asarray(dec, float)*DEG
    c = np.cos(dec)
    return np.stack([c*np.cos(ra), c*np.sin(ra), np.sin(dec)], axis=-1)


def lonlat(v):
    v = np.asarray(v, float)
    ra = np.arctan2(v[..., 1], v[..., 0])/DEG % 360.0
    dec = np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1]))/DEG
    return ra, dec


def sep(a, b):
    """Angle in degrees between unit vectors."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return 2.0*np.arcsin(np.minimum(1.0, 0.5*np.linalg.norm(a - b, axis=-1)))/DEG


def offset(ra, dec, bearing, amount):
    """Vectors at the given bearings (deg, 0 = east, 90 = north) and distance (deg)."""
    a, d = ra*DEG, dec*DEG
    p = vec(ra, dec)
    e = np.array([-math.sin(a), math.cos(a), 0.0])
    n = np.array([-math.sin(d)*math.cos(a), -math.sin(d)*math.sin(a), math.cos(d)])
    b = np.asarray(bearing, float)*DEG
    t = np.cos(b)[..., None]*e + np.sin(b)[..., None]*n
    r = np.asarray(amount, float)[..., None]*DEG
    return np.cos(r)*p + np.sin(r)*t


# ---------------------------------------------------------------- projections
class RefWcs:
    """FITS WCS evaluated by wcslib.  Pixel (0, 0) is the centre of the first pixel."""

    def __init__(self, crval, scale, rotation, projection, crpix=(0.0, 0.0)):
        from astropy.wcs import WCS
        s, r = scale/3600.0, rotation*DEG
        self.cd = np.array([[-s*math.cos(r), s*math.sin(r)], [s*math.sin(r), s*math.cos(r)]])
        w = WCS(naxis=2)
        w.wcs.ctype = ["RA---" + projection, "DEC--" + projection]
        w.wcs.crval = list(crval)
        w.wcs.crpix = [crpix[0] + 1.0, crpix[1] + 1.0]
        w.wcs.cd = self.cd
        w.wcs.set()
        self.w = w
        self.crpix, self.crval, self.projection = tuple(crpix), tuple(crval), projection

    def s2p(self, ra, dec):
        ra, dec = np.atleast_1d(ra).astype(float), np.atleast_1d(dec).astype(float)
        out = np.full((len(ra), 2), np.nan)
        try:
            out[:] = self.w.wcs.s2p(np.stack([ra, dec], 1), 0)["pixcrd"]
            return out
        except Exception:
            for i in range(len(ra)):
                try:
                    out[i] = self.w.wcs.s2p([[ra[i], dec[i]]], 0)["pixcrd"][0]
                except Exception:
                    pass
        return out

    def p2s(self, x, y):
        x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
        out = np.full((len(x), 2), np.nan)
        try:
            out[:] = self.w.wcs.p2s(np.stack([x, y], 1), 0)["world"]
            return out
        except Exception:
            for i in range(len(x)):
                try:
                    out[i] = self.w.wcs.p2s([[x[i], y[i]]], 0)["world"][0]
                except Exception:
                    pass
        return out

    def v2p(self, v):
        return self.s2p(*lonlat(v))

    def p2v(self, x, y):
        w = self.p2s(x, y)
        return vec(w[:, 0], w[:, 1])


# ---------------------------------------------------------------- patch grids
def patch_inner(spec):
    if spec["builder"] == "legacy":
        return tuple(spec["dims"])
    return tuple(c*spec["perPatch"] for c in spec["cell"])


def patch_border(spec):
    if spec["builder"] == "legacy":
        return spec["border"]
    return spec["inBorder"]*spec["cell"][0] + spec["cellBorder"]


def inner_box(spec, x, y):
    """(minx, miny, maxx, maxy), inclusive."""
    w, h = patch_inner(spec)
    return (x*w, y*h, x*w + w - 1, y*h + h - 1)


def outer_box(spec, x, y, dims):
    b = patch_border(spec)
    x0, y0, x1, y1 = inner_box(spec, x, y)
    x0, y0, x1, y1 = x0 - b, y0 - b, x1 + b, y1 + b
    if spec["builder"] == "legacy":
        x0, y0, x1, y1 = max(x0, 0), max(y0, 0), min(x1, dims[0] - 1), min(y1, dims[1] - 1)
    return (x0, y0, x1, y1)


def cell_boxes(spec, px, py, cx, cy):
    """Inner and outer box of a cell of patch (px, py)."""
    x0, y0, _, _ = inner_box(spec, px, py)
    w, h = spec["cell"]
    x0 += (cx - spec["inBorder"])*w
    y0 += (cy - spec["inBorder"])*h
    b = spec["cellBorder"]
    return (x0, y0, x0 + w - 1, y0 + h - 1), (x0 - b, y0 - b, x0 + w - 1 + b, y0 + h - 1 + b)


def num_cells(spec):
    n = spec["perPatch"] + 2*spec["inBorder"]
    return (n, n)


# ---------------------------------------------------------------- layouts
class RefMap:
    """Tract centres and inner regions, from the spec alone."""

    def __init__(self, spec):
        self.spec = spec
        getattr(self, "_" + spec["cls"])()

    # Each layout fills: centers (deg), crvals (deg), radius (deg, explicit tracts) or
    # vertices (list of vectors).
    def _rings(self):
        n = self.spec["numRings"]
        self.ringSize = math.pi/(n + 1)
        self.ringNums = []
        for i in range(n):
            lo = self.ringSize*(i + 0.5) - 0.5*math.pi
            d = min(math.fabs(lo), math.fabs(lo + self.ringSize))
            self.ringNums.append(int(2*math.pi*math.cos(d)/self.ringSize) + 1)
        slots = [(-1, 0)]
        if self.spec.get("version", 1) == 0:
            slots = self._v0_slots()
        else:
            for r in range(n):
                slots += [(r, t) for t in range(self.ringNums[r])]
            slots.append((n, 0))
        self.slots = slots
        self.centers, self.ranges = [], []
        half = self.ringSize/2/DEG
        for r, t in slots:
            if r == -1:
                self.centers.append((0.0, -90.0))
                self.ranges.append((0.0, 360.0, -90.0, -90.0 + half))
            elif r == n:
                self.centers.append((0.0, 90.0))
                self.ranges.append((0.0, 360.0, 90.0 - half, 90.0))
            else:
                w = 360.0/self.ringNums[r]
                ra = (self.spec["raStart"] + w*t) % 360.0
                dec = self.ringSize*(r + 1)/DEG - 90.0
                self.centers.append((ra, dec))
                self.ranges.append((ra - w/2, ra + w/2, dec - half, dec + half))
        self.crvals = self.centers
        self.radius = [self.ringSize/2/DEG]*len(slots)

    def _v0_slots(self):
        """Documented version-0 numbering: first ring's tract 0 appears at both ends of the first
        ring, every later ring starts at tract 1 and ends with its tract 0 ... except that the last
        ring's tract 0 has no number."""
        n = self.spec["numRings"]
        slots = [(-1, 0), (0, 0)]
        for r in range(n):
            slots += [(r, t) for t in range(1, self.ringNums[r])] + [(r, 0)]
        slots.pop()   # the last ring's tract 0 (for numRings == 1 that is the duplicate)
        slots.append((n, 0))
        return slots

    def _dodeca(self):
        g = (1 + math.sqrt(5))/2
        f = []
        for a in (1, -1):
            for b in (g, -g):
                f += [(0, a, b), (a, b, 0), (b, 0, a)]
        f = np.array(f, float)
        f /= np.linalg.norm(f[0])
        v = []
        for a in (1, -1):
            for b in (1, -1):
                v += [(a, b, c) for c in (1, -1)]
                v += [(0, a*g, b/g), (a*g, b/g, 0), (a/g, 0, b*g)]
        v = np.array(v, float)
        v /= np.linalg.norm(v, axis=1)[:, None]
        # which of the two cyclic families is dual: faces are where 5 vertices are equally close
        if sum(abs((v @ f[0]) - (v @ f[0]).max()) < 1e-6) != 5:
            v = v[:, [1, 0, 2]]
        self.faces, self.verts = f, v
        self.centers = None     # orientation is judged through invariants (props/c18)

    def _equat(self):
        n = self.spec["numTracts"]
        lo, hi = self.spec["decRange"]
        w = 360.0/n
        self.centers = [((i + 0.5)*w, 0.5*(lo + hi)) for i in range(n)]
        self.crvals = [((i + 0.5)*w, 0.0) for i in range(n)]
        self.ranges = [(i*w, (i + 1)*w, lo, hi) for i in range(n)]
        self.vertices = [[vec(i*w, lo), vec((i + 1)*w, lo), vec((i + 1)*w, hi), vec(i*w, hi)]
                         for i in range(n)]

    def _discrete(self):
        self.centers = [(ra % 360.0, dec) for ra, dec in zip(self.spec["raList"], self.spec["decList"])]
        self.crvals = self.centers
        self.radius = list(self.spec["radiusList"])

    def _healpix(self):
        import hpgeom
        ns = 1 << self.spec["log2NSide"]
        self.nside = ns
        self.centers, self.vertices = [], []
        for i in range(12*ns*ns):
            th, ph = hpgeom.pixel_to_angle(ns, i, nest=self.spec["nest"], lonlat=False)
            # this map's convention: latitude = theta - 90 deg
            self.centers.append((float(ph)/DEG, float(th)/DEG - 90.0))
            bt, bp = hpgeom.boundaries(ns, i, nest=self.spec["nest"], lonlat=False)
            self.vertices.append([vec(p/DEG, t/DEG - 90.0) for t, p in zip(bt, bp)])
        self.crvals = self.centers

    def __len__(self):
        return 12 if self.centers is None else len(self.centers)


def required_pixels(spec, wcs, center, radius=None, vertices=None):
    """Pixel positions (in the unshifted frame) every tract must reach."""
    ov = spec["tractOverlap"]
    if radius is not None:
        v = offset(center[0], center[1], np.array([0., 90., 180., 270.]), np.full(4, radius + ov))
    elif ov == 0:
        v = np.array(vertices)
    else:
        b = np.arange(24)*15.0
        v = np.concatenate([offset(*[float(q) for q in lonlat(p)], b, np.full(24, ov/2))
                            for p in vertices])
    return wcs.v2p(v)


class RefTract:
    """Exact tract geometry: what the configuration denotes, pixel for pixel.

    ``slack`` is the set of values each quantity could take when a position
    falls within ``tie`` of a pixel boundary (so that a differently rounded but
    equivalent computation is never called wrong).
    """

    def __init__(self, spec, center, crval, radius=None, vertices=None, tie=1e-5):
        self.spec = spec
        w0 = RefWcs(crval, spec["pixelScale"], spec["rotation"], spec["projection"])
        pix = required_pixels(spec, w0, center, radius, vertices)
        self.need = pix
        inner = patch_inner(spec)
        self.lo, self.hi = np.min(pix, 0), np.max(pix, 0)
        self.options = [[], []]
        for k in range(2):
            for a in (-tie, 0.0, tie):
                for b in (-tie, 0.0, tie):
                    pmin = math.floor(self.lo[k] + a + 0.5)
                    pmax = max(pmin, math.ceil(self.hi[k] + b - 0.5))
                    dim = pmax - pmin + 1
                    num = -(-dim//inner[k])
                    begin = pmin - (num*inner[k] - dim)//2
                    o = (num, begin)
                    if o not in self.options[k]:
                        self.options[k].append(o)

    def accept(self, num, dims, crpix):
        """Is this (patch counts, dimensions, reference pixel) what the spec denotes?"""
        inner = patch_inner(self.spec)
        for k in range(2):
            if not any(num[k] == n and dims[k] == n*inner[k] and abs(crpix[k] + b) < 1e-6
                       for n, b in self.options[k]):
                return False
        return True


# ---------------------------------------------------------------- identity
def sha1(spec):
    """The identity hash, from its published byte layout."""
    h = hashlib.sha1()
    h.update(CLASSNAME[spec["cls"]].encode())
    if spec["builder"] == "legacy":
        h.update(struct.pack("<3i", spec["dims"][0], spec["dims"][1], spec["border"]))
    else:
        h.update(struct.pack("<5i", spec["cell"][0], spec["cell"][1], spec["cellBorder"],
                             spec["perPatch"], spec["inBorder"]))
    h.update(struct.pack("<2d", spec["tractOverlap"], spec["pixelScale"]))
    h.update(spec["projection"].encode())
    h.update(struct.pack("<d", spec["rotation"]))
    c = spec["cls"]
    if c == "rings":
        h.update(struct.pack("<id", spec["numRings"], spec["raStart"]))
    elif c == "dodeca":
        h.update(b"\x01" if spec["withTractsOnPoles"] else b"\x00")
    elif c == "equat":
        h.update(struct.pack("<i2d", spec["numTracts"], *spec["decRange"]))
    elif c == "healpix":
        h.update(struct.pack("<i?", spec["log2NSide"], spec["nest"]))
    else:
        for k in ("raList", "decList", "radiusList"):
            h.update(struct.pack("<%dd" % len(spec[k]), *spec[k]))
    return h.digest()
