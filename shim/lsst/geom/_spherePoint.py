import math
import numbers

import lsst.pex.exceptions as pexExcept
import lsst.sphgeom as sphgeom

from ._angle import Angle, AngleUnit, radians, degrees, HALFPI

__all__ = ["SpherePoint", "averageSpherePoint"]


def _fnum(x):
    if isinstance(x, (Angle, AngleUnit)):
        return None
    if isinstance(x, numbers.Real):
        return float(x)
    if hasattr(x, "__float__") and getattr(x, "ndim", 0) == 0:
        return float(x)
    return None


class SpherePoint:
    """A point on the unit sphere."""
    __slots__ = ("_lon", "_lat")

    def __init__(self, *args, **kwargs):
        if kwargs:
            names = ("longitude", "latitude", "units")
            if set(kwargs) <= {"vector", "lonLat", "unitVector"} and not args:
                args = (next(iter(kwargs.values())),)
            else:
                args = list(args)
                for n in names[len(args):]:
                    if n in kwargs:
                        args.append(kwargs.pop(n))
                if kwargs:
                    raise TypeError("SpherePoint(): unexpected arguments %r" % (kwargs,))
        if len(args) == 0:
            lon = lat = math.nan
        elif len(args) == 1:
            arg = args[0]
            if isinstance(arg, SpherePoint):
                lon, lat = arg._lon, arg._lat
            elif isinstance(arg, (sphgeom.Vector3d, sphgeom.UnitVector3d)):
                x, y, z = arg.x(), arg.y(), arg.z()
                if not x*x + y*y + z*z > 0 and not math.isnan(x*x + y*y + z*z):
                    raise pexExcept.InvalidParameterError("SpherePoint: vector has zero norm")
                lon, lat = math.atan2(y, x), math.atan2(z, math.hypot(x, y))
            elif isinstance(arg, sphgeom.LonLat):
                lon, lat = arg.getLon().asRadians(), arg.getLat().asRadians()
            else:
                raise TypeError("SpherePoint(): incompatible constructor arguments: %r" % (args,))
        elif len(args) == 2:
            if not (isinstance(args[0], Angle) and isinstance(args[1], Angle)):
                raise TypeError("SpherePoint(): incompatible constructor arguments: %r" % (args,))
            lon, lat = args[0]._val, args[1]._val
        elif len(args) == 3:
            lon, lat = _fnum(args[0]), _fnum(args[1])
            if lon is None or lat is None or not isinstance(args[2], AngleUnit):
                raise TypeError("SpherePoint(): incompatible constructor arguments: %r" % (args,))
            lon *= args[2]._val
            lat *= args[2]._val
        else:
            raise TypeError("SpherePoint(): incompatible constructor arguments: %r" % (args,))
        if math.fabs(lat) > HALFPI:
            raise pexExcept.InvalidParameterError("Angle %g is not a valid latitude." % (lat,))
        self._lon = Angle(lon).wrap()._val
        self._lat = lat

    def getLongitude(self):
        return Angle(self._lon)

    def getLatitude(self):
        return Angle(self._lat)

    getRa = getLongitude
    getDec = getLatitude

    def getVector(self):
        cl = math.cos(self._lat)
        try:
            return sphgeom.UnitVector3d.fromNormalized(
                cl*math.cos(self._lon), cl*math.sin(self._lon), math.sin(self._lat))
        except Exception:
            return sphgeom.UnitVector3d(sphgeom.LonLat.fromRadians(self._lon, self._lat))

    def _xyz(self):
        cl = math.cos(self._lat)
        return (cl*math.cos(self._lon), cl*math.sin(self._lon), math.sin(self._lat))

    def getPosition(self, units):
        from ._coords import Point2D
        return Point2D(Angle(self._lon).asAngularUnits(units), Angle(self._lat).asAngularUnits(units))

    def __getitem__(self, index):
        if index in (0, -2):
            return Angle(self._lon)
        if index in (1, -1):
            return Angle(self._lat)
        raise IndexError("Index %s must be 0 or 1." % (index,))

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((Angle(self._lon), Angle(self._lat)))

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def atPole(self):
        return math.fabs(self._lat) >= HALFPI

    def bearingTo(self, other):
        dlon = other._lon - self._lon
        s1, c1 = math.sin(self._lat), math.cos(self._lat)
        s2, c2 = math.sin(other._lat), math.cos(other._lat)
        y = math.sin(dlon)*c2
        x = c1*s2 - s1*c2*math.cos(dlon)
        return (Angle(HALFPI) - Angle(math.atan2(y, x))).wrap()

    def separation(self, other):
        ds = math.sin(0.5*(other._lat - self._lat))
        dl = math.sin(0.5*(other._lon - self._lon))
        a = ds*ds + math.cos(self._lat)*math.cos(other._lat)*dl*dl
        if math.isnan(a):
            return Angle(math.nan)
        return Angle(2.0*math.asin(min(1.0, math.sqrt(max(a, 0.0)))))

    def rotated(self, axis, amount):
        k, v, t = axis._xyz(), self._xyz(), amount._val
        return _fromXyz(_rotate(v, k, t))

    def offset(self, bearing, amount):
        if not isinstance(bearing, Angle) or not isinstance(amount, Angle):
            raise TypeError("offset(): incompatible function arguments")
        phi, d = bearing._val, amount._val
        sl, cl = math.sin(self._lon), math.cos(self._lon)
        sb, cb = math.sin(self._lat), math.cos(self._lat)
        east = (-sl, cl, 0.0)
        north = (-sb*cl, -sb*sl, cb)
        r = (cb*cl, cb*sl, sb)
        cp, sp = math.cos(phi), math.sin(phi)
        cd, sd = math.cos(d), math.sin(d)
        return _fromXyz(tuple(r[i]*cd + (east[i]*cp + north[i]*sp)*sd for i in range(3)))

    def getTangentPlaneOffset(self, other):
        bearing = self.bearingTo(other)._val
        sep = self.separation(other)._val
        tl = math.tan(sep)
        return (Angle(tl*math.cos(bearing)), Angle(tl*math.sin(bearing)))

    def __eq__(self, other):
        if not isinstance(other, SpherePoint):
            return NotImplemented
        return self._lon == other._lon and self._lat == other._lat

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __reduce__(self):
        return (SpherePoint, (Angle(self._lon), Angle(self._lat)))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "(%.10f, %+.10f)" % (math.degrees(self._lon), math.degrees(self._lat))

    def __repr__(self):
        return "SpherePoint(%r*degrees, %r*degrees)" % (math.degrees(self._lon), math.degrees(self._lat))


def _rotate(v, k, t):
    c, s = math.cos(t), math.sin(t)
    dot = sum(a*b for a, b in zip(k, v))
    cross = (k[1]*v[2] - k[2]*v[1], k[2]*v[0] - k[0]*v[2], k[0]*v[1] - k[1]*v[0])
    return tuple(v[i]*c + cross[i]*s + k[i]*dot*(1 - c) for i in range(3))


def _fromXyz(v):
    p = SpherePoint.__new__(SpherePoint)
    lon = math.atan2(v[1], v[0])
    p._lon = Angle(lon).wrap()._val
    p._lat = math.atan2(v[2], math.hypot(v[0], v[1]))
    return p


def averageSpherePoint(coords):
    if len(coords) == 0:
        raise pexExcept.LengthError("No coords provided")
    s = [0.0, 0.0, 0.0]
    for c in coords:
        for i, x in enumerate(c._xyz()):
            s[i] += x
    return _fromXyz(tuple(s))
