import math

import numpy as np

import lsst.geom as geom
import lsst.pex.exceptions as pexExcept

__all__ = ["SkyWcs", "makeSkyWcs", "makeCdMatrix", "WcsFaults"]

_R2D = 180.0/math.pi
_NAN = math.nan


class WcsFaults:
    """How positions that cannot be projected are reported.

    AST may return a non-finite position or, through wcslib-style errors,
    raise; skymap must cope with either.  ``mode`` selects: ``"nan"``,
    ``"runtime"`` or ``"domain"``.  ``raised`` counts such events.
    """
    mode = "nan"
    raised = 0


# --- projections: native unit vector <-> intermediate world coords (deg) ----
# Native vector: x = cos(theta)cos(phi), y = cos(theta)sin(phi), z = sin(theta)

def _zen(rfun, rinv):
    def fwd(v):
        x, y, z = v
        r = rfun(z, math.hypot(x, y))
        if r is None or r != r:
            return (_NAN, _NAN)
        h = math.hypot(x, y)
        if h == 0.0:
            return (0.0, 0.0) if z > 0 else (0.0, -r)
        # x = R sin(phi), y = -R cos(phi)
        return (r*y/h, -r*x/h)

    def inv(p):
        r = math.hypot(p[0], p[1])
        th = rinv(r)
        if th is None or th != th:
            return (_NAN, _NAN, _NAN)
        ct, st = math.cos(th), math.sin(th)
        if r == 0.0:
            return (ct, 0.0, st)
        return (-ct*p[1]/r, ct*p[0]/r, st)
    return fwd, inv


def _tan_r(z, h):
    return None if z <= 0.0 else _R2D*h/z


def _stg_r(z, h):
    return None if z <= -1.0 + 1e-15 else 2.0*_R2D*h/(1.0 + z)


def _sin_r(z, h):
    return None if z < 0.0 else _R2D*h


def _arc_r(z, h):
    return _R2D*math.atan2(h, z)


def _zea_r(z, h):
    return _R2D*math.sqrt(max(0.0, 2.0*(1.0 - z))) if z < 0.5 else _R2D*2.0*math.sin(0.5*math.atan2(h, z))


def _tp(v):
    return math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1]))


def _vec(phi, th):
    ct = math.cos(th)
    return (ct*math.cos(phi), ct*math.sin(phi), math.sin(th))


def _cea_f(v):
    return (_R2D*math.atan2(v[1], v[0]), _R2D*v[2])


def _cea_i(p):
    z = p[1]/_R2D
    if abs(z) > 1.0:
        if abs(z) > 1.0 + 1e-13:
            return (_NAN,)*3
        z = math.copysign(1.0, z)
    ct = math.sqrt(max(0.0, 1.0 - z*z))
    phi = p[0]/_R2D
    return (ct*math.cos(phi), ct*math.sin(phi), z)


def _car_f(v):
    phi, th = _tp(v)
    return (phi*_R2D, th*_R2D)


def _car_i(p):
    if abs(p[1]) > 90.0 + 1e-12:
        return (_NAN,)*3
    return _vec(p[0]/_R2D, p[1]/_R2D)


def _mer_f(v):
    phi, th = _tp(v)
    if abs(th) >= math.pi/2:
        return (_NAN, _NAN)
    return (phi*_R2D, _R2D*math.log(math.tan(math.pi/4 + th/2)))


def _mer_i(p):
    return _vec(p[0]/_R2D, 2*math.atan(math.exp(p[1]/_R2D)) - math.pi/2)


def _sfl_f(v):
    phi, th = _tp(v)
    return (phi*math.cos(th)*_R2D, th*_R2D)


def _sfl_i(p):
    th = p[1]/_R2D
    if abs(th) > math.pi/2:
        return (_NAN,)*3
    c = math.cos(th)
    if c < 1e-15:
        return _vec(0.0, th)
    phi = p[0]/_R2D/c
    if abs(phi) > math.pi*(1 + 1e-12):
        return (_NAN,)*3
    return _vec(phi, th)


def _mol_f(v):
    phi, th = _tp(v)
    if abs(v[2]) >= 1.0:
        g = math.copysign(math.pi/2, v[2])
    else:
        # solve 2g + sin 2g = pi sin(theta)
        t = math.pi*v[2]
        lo, hi = -math.pi/2, math.pi/2
        g = math.asin(v[2])*0.8
        for _ in range(100):
            f = 2*g + math.sin(2*g) - t
            if f > 0:
                hi = g
            else:
                lo = g
            d = 2 + 2*math.cos(2*g)
            n = g - f/d if d > 1e-12 else 0.5*(lo + hi)
            if not lo < n < hi:
                n = 0.5*(lo + hi)
            if abs(n - g) < 1e-16:
                break
            g = n
    return (2*math.sqrt(2)/math.pi*phi*_R2D*math.cos(g), math.sqrt(2)*_R2D*math.sin(g))


def _mol_i(p):
    s = p[1]/(math.sqrt(2)*_R2D)
    if abs(s) > 1:
        return (_NAN,)*3
    g = math.asin(s)
    c = math.cos(g)
    z = (2*g + math.sin(2*g))/math.pi
    phi = 0.0 if c < 1e-15 else math.pi*p[0]/(2*math.sqrt(2)*_R2D*c)
    if abs(phi) > math.pi*(1 + 1e-12):
        return (_NAN,)*3
    return _vec(phi, math.asin(max(-1.0, min(1.0, z))))


def _ait_f(v):
    phi, th = _tp(v)
    w = 1 + math.cos(th)*math.cos(phi/2)
    g = _R2D*math.sqrt(2/w)
    return (2*g*math.cos(th)*math.sin(phi/2), g*math.sin(th))


def _ait_i(p):
    x, y = p[0]/_R2D, p[1]/_R2D
    q = 1 - (x/4)**2 - (y/2)**2
    if q < 0.5 - 1e-13:
        return (_NAN,)*3
    z = math.sqrt(q)
    phi = 2*math.atan2(z*x/2, 2*z*z - 1)
    return _vec(phi, math.asin(max(-1.0, min(1.0, y*z))))


_PROJ = {
    "TAN": (True,) + _zen(_tan_r, lambda r: math.atan2(_R2D, r)),
    "STG": (True,) + _zen(_stg_r, lambda r: math.pi/2 - 2*math.atan(r/(2*_R2D))),
    "SIN": (True,) + _zen(_sin_r, lambda r: math.acos(r/_R2D) if r <= _R2D else None),
    "ARC": (True,) + _zen(_arc_r, lambda r: math.pi/2 - r/_R2D if r <= 180.0 else None),
    "ZEA": (True,) + _zen(_zea_r, lambda r: math.pi/2 - 2*math.asin(r/(2*_R2D)) if r <= 2*_R2D else None),
    "CEA": (False, _cea_f, _cea_i),
    "CAR": (False, _car_f, _car_i),
    "MER": (False, _mer_f, _mer_i),
    "SFL": (False, _sfl_f, _sfl_i),
    "MOL": (False, _mol_f, _mol_i),
    "AIT": (False, _ait_f, _ait_i),
}


def makeCdMatrix(scale, orientation=0*geom.degrees, flipX=False):
    o = orientation.asRadians()
    s = scale.asDegrees()
    xmult = 1.0 if flipX else -1.0
    return np.array([[math.cos(o)*s*xmult, math.sin(o)*s],
                     [-math.sin(o)*s*xmult, math.cos(o)*s]])


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    return SkyWcs(crpix, crval, cdMatrix, projection)


class SkyWcs:
    """A celestial WCS; immutable."""

    def __init__(self, crpix, crval, cdMatrix, projection="TAN"):
        if not isinstance(crpix, geom.Point2D) or not isinstance(crval, geom.SpherePoint):
            raise TypeError("makeSkyWcs(): incompatible function arguments")
        if projection not in _PROJ:
            raise pexExcept.RuntimeError("unsupported projection %r" % (projection,))
        self._crpix = (crpix[0], crpix[1])
        self._crval = crval
        cd = np.array(cdMatrix, dtype=float)
        if cd.shape != (2, 2):
            raise TypeError("makeSkyWcs(): cdMatrix must be 2x2")
        self._cd = ((float(cd[0, 0]), float(cd[0, 1])), (float(cd[1, 0]), float(cd[1, 1])))
        det = self._cd[0][0]*self._cd[1][1] - self._cd[0][1]*self._cd[1][0]
        if det == 0 or not math.isfinite(det):
            raise pexExcept.RuntimeError("singular CD matrix")
        self._icd = ((self._cd[1][1]/det, -self._cd[0][1]/det), (-self._cd[1][0]/det, self._cd[0][0]/det))
        self._projection = projection
        self._zenithal, self._fwd, self._inv = _PROJ[projection]
        self._rot = self._rotation()

    def _rotation(self):
        """Rows: native -> celestial rotation matrix."""
        a0, d0 = self._crval.getRa().asRadians(), self._crval.getDec().asRadians()
        if self._zenithal:
            phip = 0.0 if d0 >= math.pi/2 else math.pi
            ap, dp = a0, d0
        elif d0 >= 0:
            phip, dp, ap = 0.0, math.pi/2 - d0, a0 - math.pi
            if math.cos(d0) < 1e-10:
                ap = a0
        else:
            phip, dp, ap = math.pi, math.pi/2 + d0, a0
        cp, sp = math.cos(phip), math.sin(phip)
        if phip == 0.0:
            cp, sp = 1.0, 0.0
        else:
            cp, sp = -1.0, 0.0
        cd, sd = math.cos(dp), math.sin(dp)
        # cos(phi - phip)cos(theta) = x*cp + y*sp ; sin(phi-phip)cos(theta) = y*cp - x*sp
        m = np.array([[-sd*cp, -sd*sp, cd],
                      [sp, -cp, 0.0],
                      [cd*cp, cd*sp, sd]])
        ca, sa = math.cos(ap), math.sin(ap)
        r = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1.0]]) @ m
        return tuple(tuple(float(x) for x in row) for row in r)

    # --- scalar transforms
    def _s2p(self, coord):
        v = coord._xyz()
        if v[0] != v[0] or v[2] != v[2]:
            return (_NAN, _NAN)
        r = self._rot
        n = (r[0][0]*v[0] + r[1][0]*v[1] + r[2][0]*v[2],
             r[0][1]*v[0] + r[1][1]*v[1] + r[2][1]*v[2],
             r[0][2]*v[0] + r[1][2]*v[1] + r[2][2]*v[2])
        x, y = self._fwd(n)
        i = self._icd
        return (self._crpix[0] + i[0][0]*x + i[0][1]*y, self._crpix[1] + i[1][0]*x + i[1][1]*y)

    def _p2s(self, px, py):
        dx, dy = px - self._crpix[0], py - self._crpix[1]
        if not (math.isfinite(dx) and math.isfinite(dy)):
            return (_NAN, _NAN)
        c = self._cd
        n = self._inv((c[0][0]*dx + c[0][1]*dy, c[1][0]*dx + c[1][1]*dy))
        r = self._rot
        v = (r[0][0]*n[0] + r[0][1]*n[1] + r[0][2]*n[2],
             r[1][0]*n[0] + r[1][1]*n[1] + r[1][2]*n[2],
             r[2][0]*n[0] + r[2][1]*n[1] + r[2][2]*n[2])
        return (math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1])))

    def skyToPixel(self, sky):
        if isinstance(sky, geom.SpherePoint):
            x, y = self._s2p(sky)
            if x != x or y != y:
                WcsFaults.raised += 1
                if WcsFaults.mode == "runtime":
                    raise pexExcept.RuntimeError("wcslib returned a status code of 9 at sky %s" % (sky,))
                if WcsFaults.mode == "domain":
                    raise pexExcept.DomainError("sky position %s cannot be projected" % (sky,))
            return geom.Point2D._make((x, y))
        return [geom.Point2D._make(self._s2p(s)) for s in sky]

    def pixelToSky(self, *args):
        if len(args) == 2:
            return self._sp(*self._p2s(float(args[0]), float(args[1])))
        p = args[0]
        if isinstance(p, (geom.Point2D, geom.Point2I)):
            return self._sp(*self._p2s(float(p[0]), float(p[1])))
        if isinstance(p, (geom.Extent2D, geom.Extent2I)):
            raise TypeError("pixelToSky(): incompatible function arguments")
        out = []
        for q in p:
            if not isinstance(q, (geom.Point2D, geom.Point2I)):
                raise TypeError("pixelToSky(): incompatible function arguments")
            out.append(self._sp(*self._p2s(float(q[0]), float(q[1]))))
        return out

    @staticmethod
    def _sp(lon, lat):
        return geom.SpherePoint(lon*geom.radians, lat*geom.radians)

    def pixelToSkyArray(self, x, y, degrees=False):
        x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
        ra, dec = np.empty(x.shape), np.empty(x.shape)
        for i, (px, py) in enumerate(zip(x.ravel(), y.ravel())):
            lon, lat = self._p2s(float(px), float(py))
            ra.flat[i] = lon % (2*math.pi)
            dec.flat[i] = lat
        return (np.rad2deg(ra), np.rad2deg(dec)) if degrees else (ra, dec)

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra, dec = np.atleast_1d(ra).astype(float), np.atleast_1d(dec).astype(float)
        u = geom.degrees if degrees else geom.radians
        x, y = np.empty(ra.shape), np.empty(ra.shape)
        for i, (a, d) in enumerate(zip(ra.ravel(), dec.ravel())):
            x.flat[i], y.flat[i] = self._s2p(geom.SpherePoint(float(a)*u, float(d)*u))
        return x, y

    # --- properties
    def getPixelOrigin(self):
        return geom.Point2D(*self._crpix)

    def getSkyOrigin(self):
        return self._crval

    def getCdMatrix(self, pixel=None):
        return np.array(self._cd)

    def getPixelScale(self, pixel=None):
        if pixel is None:
            pixel = self.getPixelOrigin()
        c = self._sp(*self._p2s(pixel[0], pixel[1]))
        n = []
        for dx, dy in ((1.0, 0.0), (0.0, 1.0)):
            q = self._sp(*self._p2s(pixel[0] + dx, pixel[1] + dy))._xyz()
            n.append([a - b for a, b in zip(q, c._xyz())])
        cr = np.cross(n[0], n[1])
        return geom.Angle(math.sqrt(math.sqrt(float(np.dot(cr, cr)))))

    pixelScale = property(getPixelScale)

    @property
    def isFits(self):
        return True

    @property
    def isFlipped(self):
        c = self._cd
        return c[0][0]*c[1][1] - c[0][1]*c[1][0] > 0

    def copyAtShiftedPixelOrigin(self, shift):
        if isinstance(shift, geom.Extent2I):
            shift = geom.Extent2D(shift)
        if not isinstance(shift, geom.Extent2D):
            raise TypeError("copyAtShiftedPixelOrigin(): incompatible function arguments")
        return SkyWcs(geom.Point2D(self._crpix[0] + shift[0], self._crpix[1] + shift[1]),
                      self._crval, np.array(self._cd), self._projection)

    def _key(self):
        return (self._crpix, self._crval, self._cd, self._projection)

    def __eq__(self, other):
        if not isinstance(other, SkyWcs):
            return NotImplemented
        return self._key() == other._key()

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __reduce__(self):
        return (SkyWcs, (geom.Point2D(*self._crpix), self._crval, np.array(self._cd), self._projection))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "FITS standard SkyWcs:\nSky Origin: %s\nPixel Origin: %s\nProjection: %s" % (
            self._crval, self._crpix, self._projection)

    __repr__ = __str__
