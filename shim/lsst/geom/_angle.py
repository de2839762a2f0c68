import math
import numbers

__all__ = ["Angle", "AngleUnit", "radians", "degrees", "hours", "arcminutes",
           "arcseconds", "milliarcseconds", "PI", "TWOPI", "HALFPI",
           "ONE_OVER_PI", "SQRTPI", "INVSQRTPI", "ROOT2",
           "degToRad", "radToDeg", "radToArcsec", "radToMas", "arcsecToRad",
           "masToRad", "isAngle"]

PI = math.pi
TWOPI = 2.0*math.pi
HALFPI = 0.5*math.pi
ONE_OVER_PI = 1.0/math.pi
SQRTPI = math.sqrt(math.pi)
INVSQRTPI = 1.0/math.sqrt(math.pi)
ROOT2 = math.sqrt(2.0)


def degToRad(x):
    return x*PI/180.


def radToDeg(x):
    return x*180./PI


def radToArcsec(x):
    return x*3600.*180./PI


def radToMas(x):
    return x*1000.*3600.*180./PI


def arcsecToRad(x):
    return (x/3600.)*PI/180.


def masToRad(x):
    return (x/(1000.*3600.))*PI/180.


def _num(x):
    """Convert as the pybind11 ``double`` caster does."""
    if isinstance(x, (Angle, AngleUnit)):
        return None
    if isinstance(x, numbers.Real):
        return float(x)
    if hasattr(x, "__float__") and not isinstance(x, (str, bytes)) and getattr(x, "ndim", 0) == 0:
        return float(x)
    return None


class AngleUnit:
    __array_ufunc__ = None
    __slots__ = ("_val",)

    def __init__(self, val):
        self._val = float(val)

    def __eq__(self, other):
        if not isinstance(other, AngleUnit):
            return NotImplemented
        return self._val == other._val

    def __hash__(self):
        return hash(("AngleUnit", self._val))

    def __mul__(self, other):
        v = _num(other)
        if v is None:
            return NotImplemented
        return Angle(v, self)

    __rmul__ = __mul__

    def __reduce__(self):
        return (AngleUnit, (self._val,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


radians = AngleUnit(1.0)
degrees = AngleUnit(PI/180.0)
hours = AngleUnit(PI*15.0/180.0)
arcminutes = AngleUnit(PI/60/180.0)
arcseconds = AngleUnit(PI/180.0/3600)
milliarcseconds = AngleUnit(PI/(180.0*3600*1000))


class Angle:
    __array_ufunc__ = None
    __slots__ = ("_val",)

    def __init__(self, val=0.0, units=radians):
        if isinstance(val, Angle):
            self._val = val._val
            return
        if not isinstance(units, AngleUnit):
            raise TypeError("Angle(): units must be an AngleUnit, got %r" % (units,))
        v = _num(val)
        if v is None:
            raise TypeError("Angle(): incompatible constructor arguments: %r" % (val,))
        self._val = v*units._val

    # conversions
    def asAngularUnits(self, units):
        return self._val/units._val

    def asRadians(self):
        return self._val

    def asDegrees(self):
        return self._val/degrees._val

    def asHours(self):
        return self._val/hours._val

    def asArcminutes(self):
        return self._val/arcminutes._val

    def asArcseconds(self):
        return self._val/arcseconds._val

    def asMilliarcseconds(self):
        return self._val/milliarcseconds._val

    def __float__(self):
        return self._val

    # wrapping
    def wrap(self):
        wrapped = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if wrapped < 0.0:
            wrapped += TWOPI
        if wrapped >= TWOPI:
            wrapped = 0.0
        return Angle(wrapped)

    def wrapCtr(self):
        wrapped = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if wrapped < -PI:
            wrapped += TWOPI
            if wrapped >= PI:
                wrapped = -PI
        elif wrapped >= PI:
            wrapped -= TWOPI
            if wrapped < -PI:
                wrapped = -PI
        return Angle(wrapped)

    def wrapNear(self, refAng):
        ref = refAng._val
        wrapped = (self - refAng).wrapCtr()._val + ref
        if wrapped - ref >= PI:
            wrapped -= TWOPI
        if wrapped - ref < -PI:
            wrapped += TWOPI
        return Angle(wrapped)

    def separation(self, other):
        return (self - other).wrapCtr()

    # arithmetic
    def __add__(self, other):
        if not isinstance(other, Angle):
            return NotImplemented
        return Angle(self._val + other._val)

    def __sub__(self, other):
        if not isinstance(other, Angle):
            return NotImplemented
        return Angle(self._val - other._val)

    def __neg__(self):
        return Angle(-self._val)

    def __abs__(self):
        return Angle(abs(self._val))

    def __mul__(self, other):
        v = _num(other)
        if v is None:
            return NotImplemented
        return Angle(self._val*v)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if isinstance(other, Angle):
            raise TypeError("unsupported operand type(s) for /: 'Angle' and 'Angle'")
        v = _num(other)
        if v is None:
            return NotImplemented
        if v == 0.0:
            x = self._val
            return Angle(math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x))
        return Angle(self._val/v)

    # comparison: with Angle or with a bare number (radians)
    @staticmethod
    def _cmp(other):
        if isinstance(other, Angle):
            return other._val
        return _num(other)

    def __eq__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val == v

    def __ne__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val != v

    def __lt__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val < v

    def __le__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val <= v

    def __gt__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val > v

    def __ge__(self, other):
        v = self._cmp(other)
        return NotImplemented if v is None else self._val >= v

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (Angle, (self._val,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "%g rad" % (self._val,)

    def __repr__(self):
        return "Angle(%r, degrees)" % (self.asDegrees(),)


def isAngle(x):
    return isinstance(x, Angle)
