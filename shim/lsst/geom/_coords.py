import math
import operator

from ._angle import Angle

__all__ = ["Extent2I", "Extent2D", "Extent3I", "Extent3D", "ExtentI", "ExtentD",
           "Point2I", "Point2D", "Point3I", "Point3D", "PointI", "PointD",
           "Extent", "Point", "CoordinateExpr2", "all", "any"]

_all, _any = all, any
INT_MIN = -2**31
INT_MAX = 2**31 - 1


def _cast_int(x):
    if isinstance(x, float) or isinstance(x, Angle):
        raise TypeError("incompatible arguments: expected int, got %r" % (x,))
    try:
        v = operator.index(x)
    except TypeError:
        raise TypeError("incompatible arguments: expected int, got %r" % (x,)) from None
    if not INT_MIN <= v <= INT_MAX:
        raise TypeError("incompatible arguments: int out of range: %r" % (x,))
    return v


def _cast_float(x):
    if isinstance(x, (str, bytes)):
        raise TypeError("incompatible arguments: expected float, got %r" % (x,))
    try:
        return float(x)
    except (TypeError, ValueError):
        raise TypeError("incompatible arguments: expected float, got %r" % (x,)) from None


def _isnum(x):
    return hasattr(x, "__float__") and not isinstance(x, (Angle, _Base)) and getattr(x, "ndim", 0) == 0


def _is_int(x):
    if isinstance(x, float):
        return False
    try:
        operator.index(x)
    except TypeError:
        return False
    return True


class CoordinateExpr2(tuple):
    pass


def all(e):
    return _all(e)


def any(e):
    return _any(e)


class _Base:
    __array_ufunc__ = None
    __slots__ = ("_v",)
    _n = 2
    _int = False
    _kind = ""

    dimensions = property(lambda self: self._n)

    def __init__(self, *args):
        n = self._n
        if len(args) == 0:
            # Points and extents default to 0 (integers) or NaN (float points).
            if self._int or self._kind == "Extent":
                self._v = [0 if self._int else 0.0]*n
            else:
                self._v = [math.nan]*n
            return
        if len(args) == 1:
            a = args[0]
            if isinstance(a, _Base):
                if a._n != n:
                    raise TypeError("dimension mismatch")
                if self._int and not a._int:
                    if self._kind == "Extent":
                        raise TypeError("Extent%dI(): cannot construct from floating point" % n)
                    # Point<int>(Point<double>) rounds half up; non-finite
                    # values become INT_MIN, as x86 truncation does.
                    self._v = [int(max(INT_MIN, min(INT_MAX, math.floor(x + 0.5))))
                               if math.isfinite(x) else INT_MIN for x in a._v]
                else:
                    self._v = [x if self._int else float(x) for x in a._v]
                return
            if _isnum(a):
                args = (a,)*n
            elif hasattr(a, "__len__") and len(a) == n:
                args = tuple(a)
            else:
                raise TypeError("incompatible constructor arguments: %r" % (args,))
        if len(args) != n:
            raise TypeError("incompatible constructor arguments: %r" % (args,))
        cast = _cast_int if self._int else _cast_float
        self._v = [cast(x) for x in args]

    @classmethod
    def _make(cls, vals):
        r = cls.__new__(cls)
        r._v = list(vals)
        return r

    def _ix(self, i):
        i = operator.index(i)
        if not -self._n <= i < self._n:
            raise IndexError("Index %s not in range" % (i,))
        return i

    def __getitem__(self, i):
        return self._v[self._ix(i)]

    def __setitem__(self, i, val):
        self._v[self._ix(i)] = _cast_int(val) if self._int else _cast_float(val)

    def __len__(self):
        return self._n

    def __iter__(self):
        return iter(tuple(self._v))

    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    def setX(self, v):
        self[0] = v

    def setY(self, v):
        self[1] = v

    x = property(getX, setX)
    y = property(getY, setY)

    def clone(self):
        return self._make(self._v)

    def __copy__(self):
        return self._make(self._v)

    def __deepcopy__(self, memo):
        return self._make(self._v)

    def __reduce__(self):
        return (type(self), tuple(self._v))

    def __eq__(self, other):
        if not isinstance(other, _Base) or other._kind != self._kind or other._n != self._n:
            return NotImplemented
        return self._v == other._v

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._kind, tuple(self._v)))

    def _cmp(self, other, op):
        o = other._v if isinstance(other, _Base) else [other]*self._n
        return CoordinateExpr2(op(a, b) for a, b in zip(self._v, o))

    def eq(self, other):
        return self._cmp(other, operator.eq)

    def ne(self, other):
        return self._cmp(other, operator.ne)

    def lt(self, other):
        return self._cmp(other, operator.lt)

    def le(self, other):
        return self._cmp(other, operator.le)

    def gt(self, other):
        return self._cmp(other, operator.gt)

    def ge(self, other):
        return self._cmp(other, operator.ge)

    def __str__(self):
        return "(%s)" % ", ".join("%g" % v if isinstance(v, float) else str(v) for v in self._v)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(repr(v) for v in self._v))


def _res(kind, n, isint):
    return _TABLE[kind, n, isint]


class _ExtentBase(_Base):
    __slots__ = ()
    _kind = "Extent"

    def _other(self, other):
        return isinstance(other, _Base) and other._n == self._n

    def __add__(self, other):
        if not self._other(other):
            return NotImplemented
        return _res(other._kind, self._n, self._int and other._int)._make(
            a + b for a, b in zip(self._v, other._v))

    def __sub__(self, other):
        if not self._other(other) or other._kind != "Extent":
            return NotImplemented
        return _res("Extent", self._n, self._int and other._int)._make(
            a - b for a, b in zip(self._v, other._v))

    def __iadd__(self, other):
        if not self._other(other) or other._kind != "Extent" or (self._int and not other._int):
            return NotImplemented
        self._v = [a + b for a, b in zip(self._v, other._v)]
        return self

    def __isub__(self, other):
        if not self._other(other) or other._kind != "Extent" or (self._int and not other._int):
            return NotImplemented
        self._v = [a - b for a, b in zip(self._v, other._v)]
        return self

    def __neg__(self):
        return self._make(-a for a in self._v)

    def __pos__(self):
        return self._make(self._v)

    def __mul__(self, other):
        if not _isnum(other):
            return NotImplemented
        isint = self._int and _is_int(other)
        return _res("Extent", self._n, isint)._make(
            (a*operator.index(other) if isint else float(a*other)) for a in self._v)

    __rmul__ = __mul__

    def __imul__(self, other):
        if not _isnum(other) or (self._int and not _is_int(other)):
            raise TypeError("In-place multiplication of an integer Extent by a float is not supported.")
        self._v = [a*(operator.index(other) if self._int else float(other)) for a in self._v]
        return self

    def __truediv__(self, other):
        if not _isnum(other):
            return NotImplemented
        return _res("Extent", self._n, False)._make(a/float(other) for a in self._v)

    def __floordiv__(self, other):
        if not self._int or not _isnum(other) or not _is_int(other):
            return NotImplemented
        o = operator.index(other)
        return self._make(a//o for a in self._v)

    def computeSquaredNorm(self):
        return sum(a*a for a in self._v)

    def computeNorm(self):
        return math.sqrt(sum(a*a for a in self._v))

    def truncate(self):
        return _res("Extent", self._n, True)._make(int(a) for a in self._v)

    def floor(self):
        return _res("Extent", self._n, True)._make(math.floor(a) for a in self._v)

    def ceil(self):
        return _res("Extent", self._n, True)._make(math.ceil(a) for a in self._v)


class _PointBase(_Base):
    __slots__ = ()
    _kind = "Point"

    def _ext(self, other):
        return isinstance(other, _Base) and other._kind == "Extent" and other._n == self._n

    def __add__(self, other):
        if not self._ext(other):
            return NotImplemented
        return _res("Point", self._n, self._int and other._int)._make(
            a + b for a, b in zip(self._v, other._v))

    def __sub__(self, other):
        if not isinstance(other, _Base) or other._n != self._n:
            return NotImplemented
        kind = "Point" if other._kind == "Extent" else "Extent"
        return _res(kind, self._n, self._int and other._int)._make(
            a - b for a, b in zip(self._v, other._v))

    def __iadd__(self, other):
        if not self._ext(other) or (self._int and not other._int):
            return NotImplemented
        self._v = [a + b for a, b in zip(self._v, other._v)]
        return self

    def __isub__(self, other):
        if not self._ext(other) or (self._int and not other._int):
            return NotImplemented
        self._v = [a - b for a, b in zip(self._v, other._v)]
        return self

    def shift(self, ext):
        self._v = [a + b for a, b in zip(self._v, ext._v)]

    def scale(self, f):
        self._v = [a*f for a in self._v]

    def distanceSquared(self, other):
        return float(sum((a - b)**2 for a, b in zip(self._v, other._v)))


def _cls(base, name, n, isint):
    ns = {"__slots__": (), "_n": n, "_int": isint, "__module__": "lsst.geom"}
    if n == 3:
        ns["getZ"] = lambda self: self._v[2]
        ns["z"] = property(ns["getZ"])
    return type(name, (base,), ns)


Extent2I = _cls(_ExtentBase, "Extent2I", 2, True)
Extent2D = _cls(_ExtentBase, "Extent2D", 2, False)
Extent3I = _cls(_ExtentBase, "Extent3I", 3, True)
Extent3D = _cls(_ExtentBase, "Extent3D", 3, False)
Point2I = _cls(_PointBase, "Point2I", 2, True)
Point2D = _cls(_PointBase, "Point2D", 2, False)
Point3I = _cls(_PointBase, "Point3I", 3, True)
Point3D = _cls(_PointBase, "Point3D", 3, False)
ExtentI, ExtentD, PointI, PointD = Extent2I, Extent2D, Point2I, Point2D
Extent = {(int, 2): Extent2I, (float, 2): Extent2D, (int, 3): Extent3I, (float, 3): Extent3D}
Point = {(int, 2): Point2I, (float, 2): Point2D, (int, 3): Point3I, (float, 3): Point3D}
_TABLE = {(c._kind, c._n, c._int): c for c in
          (Extent2I, Extent2D, Extent3I, Extent3D, Point2I, Point2D, Point3I, Point3D)}
