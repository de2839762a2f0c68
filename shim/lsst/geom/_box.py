import enum
import math

import lsst.pex.exceptions as pexExcept

from ._interval import IntervalI, IntervalD
from ._coords import Point2I, Point2D, Extent2I, Extent2D, INT_MIN, INT_MAX, _cast_int, _cast_float, _isnum

__all__ = ["Box2I", "Box2D", "BoxI", "BoxD"]

_EPS = 2.0**-52*2  # as Box2D::EPSILON (twice machine epsilon)


class _Edge(enum.Enum):
    EXPAND = 0
    SHRINK = 1


def _xy(args, what):
    """Accept either one pair-like argument or two scalars."""
    if len(args) == 1:
        a = args[0]
        if isinstance(a, (Point2I, Point2D, Extent2I, Extent2D)):
            return a[0], a[1]
        if hasattr(a, "__len__") and len(a) == 2:
            return a[0], a[1]
        raise TypeError("%s: incompatible arguments %r" % (what, args))
    if len(args) == 2:
        return args
    raise TypeError("%s: incompatible arguments %r" % (what, args))


class Box2I:
    """Integer box; pixels are included at both min and max."""
    EdgeHandlingEnum = _Edge
    EXPAND = _Edge.EXPAND
    SHRINK = _Edge.SHRINK
    __slots__ = ("_x0", "_y0", "_w", "_h")

    def __init__(self, *args, **kwargs):
        for a, b in (("minimum", 0), ("corner", 0), ("box", 0), ("other", 0),
                     ("maximum", 1), ("dimensions", 1)):
            if a in kwargs:
                args = args[:b] + (kwargs.pop(a),) + args[b:]
        edge = kwargs.pop("edgeHandling", _Edge.EXPAND)
        invert = kwargs.pop("invert", True)
        if kwargs:
            raise TypeError("Box2I(): unexpected arguments %r" % (kwargs,))
        if len(args) == 3:
            invert = args[2]
            args = args[:2]
        if len(args) == 0:
            self._set(0, 0, 0, 0)
            return
        if len(args) == 1 or (len(args) == 2 and isinstance(args[0], Box2D)):
            o = args[0]
            if isinstance(o, Box2I):
                self._set(o._x0, o._y0, o._w, o._h)
                return
            if isinstance(o, Box2D):
                if len(args) == 2:
                    edge = args[1]
                self._fromD(o, edge)
                return
            raise TypeError("Box2I(): incompatible constructor arguments: %r" % (args,))
        if len(args) != 2 or not isinstance(args[0], Point2I):
            raise TypeError("Box2I(): incompatible constructor arguments: %r" % (args,))
        p, q = args
        if isinstance(q, Point2I):
            vals = []
            for lo, hi in zip(p, q):
                if invert and hi < lo:
                    lo, hi = hi, lo
                vals.append((lo, hi - lo + 1))
        elif isinstance(q, Extent2I):
            vals = []
            for lo, d in zip(p, q):
                if invert and d < 0:
                    lo, d = lo + d + 1, -d
                vals.append((lo, d))
        else:
            raise TypeError("Box2I(): incompatible constructor arguments: %r" % (args,))
        (x0, w), (y0, h) = vals
        if w <= 0 or h <= 0:
            self._set(0, 0, 0, 0)
        else:
            self._check(x0, y0, w, h)
            self._set(x0, y0, w, h)

    def _fromD(self, o, edge):
        if o.isEmpty():
            self._set(0, 0, 0, 0)
            return
        vals = (o._minx, o._miny, o._maxx, o._maxy)
        if not all(math.isfinite(v) for v in vals):
            raise pexExcept.InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
        if edge == _Edge.EXPAND:
            x0, y0 = math.floor(o._minx + 0.5), math.floor(o._miny + 0.5)
            x1, y1 = math.ceil(o._maxx - 0.5), math.ceil(o._maxy - 0.5)
        else:
            x0, y0 = math.ceil(o._minx + 0.5), math.ceil(o._miny + 0.5)
            x1, y1 = math.floor(o._maxx - 0.5), math.floor(o._maxy - 0.5)
        w, h = x1 - x0 + 1, y1 - y0 + 1
        if w <= 0 or h <= 0:
            self._set(0, 0, 0, 0)
        else:
            self._check(x0, y0, w, h)
            self._set(x0, y0, w, h)

    def _set(self, x0, y0, w, h):
        self._x0, self._y0, self._w, self._h = x0, y0, w, h

    @staticmethod
    def _check(x0, y0, w, h):
        for lo, d in ((x0, w), (y0, h)):
            if lo < INT_MIN or lo + d - 1 > INT_MAX or d > INT_MAX:
                raise pexExcept.OverflowError("Box coordinates overflow: min=%d size=%d" % (lo, d))

    @classmethod
    def _make(cls, x0, y0, w, h):
        r = cls.__new__(cls)
        if w <= 0 or h <= 0:
            r._set(0, 0, 0, 0)
        else:
            cls._check(x0, y0, w, h)
            r._set(x0, y0, w, h)
        return r

    @classmethod
    def makeCenteredBox(cls, center, size):
        x0 = math.floor(center[0] - 0.5*size[0] + 1.0)
        y0 = math.floor(center[1] - 0.5*size[1] + 1.0)
        return cls._make(x0, y0, size[0], size[1])

    def getMin(self):
        return Point2I._make((self._x0, self._y0))

    getBegin = getMin

    def getMax(self):
        return Point2I._make((self._x0 + self._w - 1, self._y0 + self._h - 1))

    def getEnd(self):
        return Point2I._make((self._x0 + self._w, self._y0 + self._h))

    def getMinX(self):
        return self._x0

    getBeginX = getMinX

    def getMinY(self):
        return self._y0

    getBeginY = getMinY

    def getMaxX(self):
        return self._x0 + self._w - 1

    def getMaxY(self):
        return self._y0 + self._h - 1

    def getEndX(self):
        return self._x0 + self._w

    def getEndY(self):
        return self._y0 + self._h

    def getDimensions(self):
        return Extent2I._make((self._w, self._h))

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getArea(self):
        return self._w*self._h

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCenterX(self):
        return self.getCenter()[0]

    def getCenterY(self):
        return self.getCenter()[1]

    minX = beginX = property(getMinX)
    minY = beginY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    endX = property(getEndX)
    endY = property(getEndY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    center = property(getCenter)
    min = property(getMin)
    max = property(getMax)
    begin = property(getBegin)
    end = property(getEnd)

    x = property(lambda self: IntervalI.fromMinSize(self._x0, self._w) if self._w else IntervalI())
    y = property(lambda self: IntervalI.fromMinSize(self._y0, self._h) if self._h else IntervalI())

    def isEmpty(self):
        return self._w == 0 and self._h == 0

    def getSlices(self):
        return (slice(self._y0, self._y0 + self._h), slice(self._x0, self._x0 + self._w))

    slices = property(getSlices)

    def contains(self, *args):
        if len(args) == 1 and isinstance(args[0], Box2I):
            o = args[0]
            return o.isEmpty() or (
                o._x0 >= self._x0 and o._y0 >= self._y0
                and o._x0 + o._w <= self._x0 + self._w and o._y0 + o._h <= self._y0 + self._h)
        if len(args) == 1 and isinstance(args[0], (Point2D, Extent2I, Extent2D)):
            raise TypeError("contains(): incompatible function arguments: %r" % (args,))
        x, y = _xy(args, "contains()")
        if hasattr(x, "ndim") and getattr(x, "ndim", 0) > 0:
            return ((x >= self._x0) & (x < self._x0 + self._w)
                    & (y >= self._y0) & (y < self._y0 + self._h))
        x, y = _cast_int(x), _cast_int(y)
        return self._x0 <= x < self._x0 + self._w and self._y0 <= y < self._y0 + self._h

    def __contains__(self, other):
        return self.contains(other)

    def overlaps(self, o):
        return not (self.isEmpty() or o.isEmpty()
                    or self.getMaxX() < o._x0 or o.getMaxX() < self._x0
                    or self.getMaxY() < o._y0 or o.getMaxY() < self._y0)

    intersects = overlaps

    def isDisjointFrom(self, o):
        return not self.overlaps(o)

    def grow(self, *args):
        if self.isEmpty():
            return
        if len(args) == 1 and isinstance(args[0], Extent2I):
            bx, by = args[0]
        elif len(args) == 1:
            bx = by = _cast_int(args[0])
        else:
            bx, by = _cast_int(args[0]), _cast_int(args[1])
        n = self._make(self._x0 - bx, self._y0 - by, self._w + 2*bx, self._h + 2*by)
        self._set(n._x0, n._y0, n._w, n._h)

    def shift(self, *args):
        dx, dy = _xy(args, "shift()")
        if self.isEmpty():
            return
        n = self._make(self._x0 + _cast_int(dx), self._y0 + _cast_int(dy), self._w, self._h)
        self._set(n._x0, n._y0, n._w, n._h)

    def include(self, other):
        if isinstance(other, Box2I):
            if other.isEmpty():
                return
            x0, y0, x1, y1 = other._x0, other._y0, other.getMaxX(), other.getMaxY()
        elif isinstance(other, Point2I):
            x0, y0 = other
            x1, y1 = other
        else:
            raise TypeError("include(): incompatible function arguments: %r" % (other,))
        if not self.isEmpty():
            x0, y0 = min(x0, self._x0), min(y0, self._y0)
            x1, y1 = max(x1, self.getMaxX()), max(y1, self.getMaxY())
        n = self._make(x0, y0, x1 - x0 + 1, y1 - y0 + 1)
        self._set(n._x0, n._y0, n._w, n._h)

    def clip(self, o):
        if not isinstance(o, Box2I):
            raise TypeError("clip(): incompatible function arguments: %r" % (o,))
        if self.isEmpty():
            return
        if o.isEmpty():
            self._set(0, 0, 0, 0)
            return
        x0, y0 = max(self._x0, o._x0), max(self._y0, o._y0)
        x1, y1 = min(self.getMaxX(), o.getMaxX()), min(self.getMaxY(), o.getMaxY())
        n = self._make(x0, y0, x1 - x0 + 1, y1 - y0 + 1)
        self._set(n._x0, n._y0, n._w, n._h)

    def clone(self):
        r = Box2I.__new__(Box2I)
        r._set(self._x0, self._y0, self._w, self._h)
        return r

    __copy__ = clone

    def __deepcopy__(self, memo):
        return self.clone()

    def dilatedBy(self, *args):
        r = self.clone()
        r.grow(*args)
        return r

    def erodedBy(self, *args):
        r = self.clone()
        if len(args) == 1 and isinstance(args[0], Extent2I):
            r.grow(-args[0])
        else:
            r.grow(*[-a for a in args])
        return r

    def shiftedBy(self, *args):
        r = self.clone()
        r.shift(*args)
        return r

    def expandedTo(self, o):
        r = self.clone()
        r.include(o)
        return r

    def clippedTo(self, o):
        r = self.clone()
        r.clip(o)
        return r

    def getCorners(self):
        x1, y1 = self.getMaxX(), self.getMaxY()
        return [Point2I(self._x0, self._y0), Point2I(x1, self._y0), Point2I(x1, y1), Point2I(self._x0, y1)]

    def __eq__(self, o):
        if not isinstance(o, Box2I):
            return NotImplemented
        return (self._x0, self._y0, self._w, self._h) == (o._x0, o._y0, o._w, o._h)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._x0, self._y0, self._w, self._h))

    def __reduce__(self):
        return (Box2I, (self.getMin(), self.getDimensions()))

    def toString(self):
        return str(self)

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        return "Box2I(minimum=%r, dimensions=%r)" % (self.getMin(), self.getDimensions())


class Box2D:
    """Floating point box; includes its minimum but not its maximum."""
    EPSILON = _EPS
    INVALID = math.nan
    __slots__ = ("_minx", "_miny", "_maxx", "_maxy")

    def __init__(self, *args, **kwargs):
        for a, b in (("minimum", 0), ("corner", 0), ("other", 0), ("maximum", 1), ("dimensions", 1)):
            if a in kwargs:
                args = args[:b] + (kwargs.pop(a),) + args[b:]
        invert = kwargs.pop("invert", True)
        if kwargs:
            raise TypeError("Box2D(): unexpected arguments %r" % (kwargs,))
        if len(args) == 3:
            invert = args[2]
            args = args[:2]
        if len(args) == 0:
            self._clear()
            return
        if len(args) == 1:
            o = args[0]
            if isinstance(o, Box2D):
                self._minx, self._miny, self._maxx, self._maxy = o._minx, o._miny, o._maxx, o._maxy
            elif isinstance(o, Box2I):
                if o.isEmpty():
                    self._clear()
                else:
                    self._minx, self._miny = o._x0 - 0.5, o._y0 - 0.5
                    self._maxx, self._maxy = o.getMaxX() + 0.5, o.getMaxY() + 0.5
            else:
                raise TypeError("Box2D(): incompatible constructor arguments: %r" % (args,))
            return
        if len(args) != 2 or not isinstance(args[0], (Point2D, Point2I)):
            raise TypeError("Box2D(): incompatible constructor arguments: %r" % (args,))
        p, q = args
        if isinstance(q, (Point2D, Point2I)):
            pairs = [(float(a), float(b)) for a, b in zip(p, q)]
        elif isinstance(q, (Extent2D, Extent2I)):
            pairs = [(float(a), float(a + b)) for a, b in zip(p, q)]
        else:
            raise TypeError("Box2D(): incompatible constructor arguments: %r" % (args,))
        if invert:
            pairs = [(b, a) if b < a else (a, b) for a, b in pairs]
        (self._minx, self._maxx), (self._miny, self._maxy) = pairs
        if not (self._minx < self._maxx and self._miny < self._maxy):
            self._clear()

    def _clear(self):
        self._minx = self._miny = self._maxx = self._maxy = math.nan

    @classmethod
    def makeCenteredBox(cls, center, size):
        return cls(Point2D(center[0] - 0.5*size[0], center[1] - 0.5*size[1]), Extent2D(size[0], size[1]))

    def isEmpty(self):
        return self._minx != self._minx

    def getMin(self):
        return Point2D._make((self._minx, self._miny))

    def getMax(self):
        return Point2D._make((self._maxx, self._maxy))

    def getMinX(self):
        return self._minx

    def getMinY(self):
        return self._miny

    def getMaxX(self):
        return self._maxx

    def getMaxY(self):
        return self._maxy

    def getWidth(self):
        return 0.0 if self.isEmpty() else self._maxx - self._minx

    def getHeight(self):
        return 0.0 if self.isEmpty() else self._maxy - self._miny

    def getDimensions(self):
        return Extent2D._make((self.getWidth(), self.getHeight()))

    def getArea(self):
        return self.getWidth()*self.getHeight()

    def getCenter(self):
        return Point2D._make((0.5*(self._minx + self._maxx), 0.5*(self._miny + self._maxy)))

    def getCenterX(self):
        return 0.5*(self._minx + self._maxx)

    def getCenterY(self):
        return 0.5*(self._miny + self._maxy)

    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    min = property(getMin)
    max = property(getMax)

    x = property(lambda self: IntervalD() if self.isEmpty() else IntervalD(self._minx, self._maxx))
    y = property(lambda self: IntervalD() if self.isEmpty() else IntervalD(self._miny, self._maxy))

    @staticmethod
    def _tweak(v):
        if v < 0.0:
            return v*(1.0 - _EPS)
        if v > 0.0:
            return v*(1.0 + _EPS)
        return _EPS

    def contains(self, *args):
        if len(args) == 1 and isinstance(args[0], Box2D):
            o = args[0]
            return o.isEmpty() or (not self.isEmpty() and o._minx >= self._minx and o._miny >= self._miny
                                   and o._maxx <= self._maxx and o._maxy <= self._maxy)
        x, y = _xy(args, "contains()")
        return (not self.isEmpty()) and self._minx <= x < self._maxx and self._miny <= y < self._maxy

    def __contains__(self, other):
        return self.contains(other)

    def overlaps(self, o):
        return not (self.isEmpty() or o.isEmpty() or self._maxx <= o._minx or o._maxx <= self._minx
                    or self._maxy <= o._miny or o._maxy <= self._miny)

    intersects = overlaps

    def isDisjointFrom(self, o):
        return not self.overlaps(o)

    def grow(self, *args):
        if self.isEmpty():
            return
        if len(args) == 1 and isinstance(args[0], (Extent2D, Extent2I)):
            bx, by = args[0]
        elif len(args) == 1:
            bx = by = _cast_float(args[0])
        else:
            bx, by = args
        self._minx -= bx
        self._miny -= by
        self._maxx += bx
        self._maxy += by
        if self._minx >= self._maxx or self._miny >= self._maxy:
            self._clear()

    def shift(self, *args):
        dx, dy = _xy(args, "shift()")
        if self.isEmpty():
            return
        self._minx += dx
        self._maxx += dx
        self._miny += dy
        self._maxy += dy

    def include(self, other):
        if isinstance(other, Box2D):
            if other.isEmpty():
                return
            if self.isEmpty():
                self.__init__(other)
                return
            self._minx, self._miny = min(self._minx, other._minx), min(self._miny, other._miny)
            self._maxx, self._maxy = max(self._maxx, other._maxx), max(self._maxy, other._maxy)
            return
        if not isinstance(other, (Point2D, Point2I)):
            raise TypeError("include(): incompatible function arguments: %r" % (other,))
        x, y = float(other[0]), float(other[1])
        if self.isEmpty():
            self._minx = self._maxx = x
            self._miny = self._maxy = y
            self._maxx = self._tweak(self._maxx)
            self._maxy = self._tweak(self._maxy)
        else:
            if x < self._minx:
                self._minx = x
            elif x >= self._maxx:
                self._maxx = self._tweak(x)
            if y < self._miny:
                self._miny = y
            elif y >= self._maxy:
                self._maxy = self._tweak(y)

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._clear()
            return
        self._minx, self._miny = max(self._minx, o._minx), max(self._miny, o._miny)
        self._maxx, self._maxy = min(self._maxx, o._maxx), min(self._maxy, o._maxy)
        if self._minx >= self._maxx or self._miny >= self._maxy:
            self._clear()

    def clone(self):
        return Box2D(self)

    __copy__ = clone

    def __deepcopy__(self, memo):
        return self.clone()

    def dilatedBy(self, *args):
        r = self.clone()
        r.grow(*args)
        return r

    def erodedBy(self, *args):
        r = self.clone()
        if len(args) == 1 and isinstance(args[0], (Extent2D, Extent2I)):
            r.grow(-args[0])
        else:
            r.grow(*[-a for a in args])
        return r

    def shiftedBy(self, *args):
        r = self.clone()
        r.shift(*args)
        return r

    def expandedTo(self, o):
        r = self.clone()
        r.include(o)
        return r

    def clippedTo(self, o):
        r = self.clone()
        r.clip(o)
        return r

    def getCorners(self):
        return [Point2D(self._minx, self._miny), Point2D(self._maxx, self._miny),
                Point2D(self._maxx, self._maxy), Point2D(self._minx, self._maxy)]

    def __eq__(self, o):
        if not isinstance(o, Box2D):
            return NotImplemented
        return (self.isEmpty() and o.isEmpty()) or (
            (self._minx, self._miny, self._maxx, self._maxy) == (o._minx, o._miny, o._maxx, o._maxy))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(("Box2D", self._minx, self._miny, self._maxx, self._maxy))

    def __reduce__(self):
        if self.isEmpty():
            return (Box2D, ())
        return (Box2D, (self.getMin(), self.getMax()))

    def toString(self):
        return str(self)

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        return "Box2D(minimum=%r, maximum=%r)" % (self.getMin(), self.getMax())


BoxI, BoxD = Box2I, Box2D
