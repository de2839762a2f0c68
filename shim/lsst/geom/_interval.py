import math

from ._coords import _cast_float, _cast_int

__all__ = ["IntervalI", "IntervalD"]


class _Interval:
    """A range of one coordinate; immutable."""
    __slots__ = ("_lo", "_n")

    def __init__(self, min=None, max=None):
        if min is None and max is None:
            self._lo, self._n = self._none
            return
        lo, hi = self._cast(min), self._cast(max)
        n = hi - lo + self._one
        self._lo, self._n = (lo, n) if n > 0 else self._none

    @classmethod
    def fromMinMax(cls, min, max):
        return cls(min, max)

    @classmethod
    def fromMinSize(cls, min, size):
        return cls(min, min + size - cls._one)

    @classmethod
    def fromMaxSize(cls, max, size):
        return cls(max - size + cls._one, max)

    @classmethod
    def fromSpannedPoints(cls, points):
        points = list(points)
        return cls(min(points), max(points)) if points else cls()

    min = property(lambda self: self._lo)
    max = property(lambda self: self._lo + self._n - self._one)
    size = property(lambda self: self._n)
    getMin = lambda self: self.min        # noqa: E731
    getMax = lambda self: self.max        # noqa: E731
    getSize = lambda self: self.size      # noqa: E731

    def isEmpty(self):
        return not self._n > 0

    def contains(self, o):
        if isinstance(o, type(self)):
            return o.isEmpty() or (not self.isEmpty() and self.min <= o.min and o.max <= self.max)
        return not self.isEmpty() and self.min <= o <= self.max

    __contains__ = contains

    def overlaps(self, o):
        return not (self.isEmpty() or o.isEmpty()) and self.min <= o.max and o.min <= self.max

    intersects = overlaps

    def isDisjointFrom(self, o):
        return not self.overlaps(o)

    def dilatedBy(self, b):
        return self if self.isEmpty() else type(self)(self.min - b, self.max + b)

    def erodedBy(self, b):
        return self.dilatedBy(-b)

    def shiftedBy(self, d):
        return self if self.isEmpty() else type(self)(self.min + d, self.max + d)

    def expandedTo(self, o):
        if not isinstance(o, type(self)):
            o = type(self)(o, o)
        if self.isEmpty() or o.isEmpty():
            return o if self.isEmpty() else self
        return type(self)(min(self.min, o.min), max(self.max, o.max))

    def clippedTo(self, o):
        if not self.overlaps(o):
            return type(self)()
        return type(self)(max(self.min, o.min), min(self.max, o.max))

    def __eq__(self, o):
        if not isinstance(o, type(self)):
            return NotImplemented
        return (self.isEmpty() and o.isEmpty()) or (self.min, self.max) == (o.min, o.max)

    def __hash__(self):
        return hash((self._lo, self._n))

    def __reduce__(self):
        return (type(self), () if self.isEmpty() else (self.min, self.max))

    def __repr__(self):
        return "%s(min=%r, max=%r)" % (type(self).__name__, self.min, self.max)

    __str__ = toString = __repr__


class IntervalI(_Interval):
    _none, _one, _cast = (0, 0), 1, staticmethod(_cast_int)
    __slots__ = ()
    begin = property(lambda self: self._lo)
    end = property(lambda self: self._lo + self._n)
    getBegin = lambda self: self.begin    # noqa: E731
    getEnd = lambda self: self.end        # noqa: E731

    def range(self):
        return range(self.begin, self.end)

    def arange(self):
        import numpy as np
        return np.arange(self.begin, self.end, dtype=np.int32)

    def slice(self):
        return slice(self.begin, self.end)


class IntervalD(_Interval):
    _none, _one, _cast = (math.nan, math.nan), 0.0, staticmethod(_cast_float)
    __slots__ = ()

    def __init__(self, min=None, max=None):
        super().__init__(min, max)
        if min is not None and min == max:      # a single position
            self._lo, self._n = float(min), 0.0

    max = property(lambda self: self._lo + self._n)

    def isEmpty(self):
        return self._lo != self._lo

    center = property(lambda self: self._lo + 0.5*self._n)
    getCenter = lambda self: self.center  # noqa: E731
