import math

import numpy as np

from ._coords import Point2D, Extent2D

__all__ = ["LinearTransform", "AffineTransform"]


class LinearTransform:
    def __init__(self, matrix=None):
        self._m = np.eye(2) if matrix is None else np.array(matrix, dtype=float)

    @staticmethod
    def makeScaling(s, t=None):
        return LinearTransform([[s, 0], [0, s if t is None else t]])

    @staticmethod
    def makeRotation(t):
        t = t.asRadians()
        return LinearTransform([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])

    def getMatrix(self):
        return self._m.copy()

    def inverted(self):
        return LinearTransform(np.linalg.inv(self._m))

    def computeDeterminant(self):
        return float(np.linalg.det(self._m))

    def __mul__(self, o):
        return LinearTransform(self._m @ o._m)

    def __call__(self, p):
        return type(p)(*(self._m @ np.array(list(p), dtype=float)))

    def __getitem__(self, ij):
        return float(self._m[ij])


class AffineTransform:
    def __init__(self, *args):
        self._l = LinearTransform()
        self._t = Extent2D(0, 0)
        for a in args:
            if isinstance(a, LinearTransform):
                self._l = a
            elif isinstance(a, Extent2D):
                self._t = a
            else:
                self._l = LinearTransform(a)

    def getLinear(self):
        return self._l

    def getTranslation(self):
        return Extent2D(self._t)

    def inverted(self):
        li = self._l.inverted()
        t = li.getMatrix() @ np.array(list(self._t))
        return AffineTransform(li, Extent2D(-t[0], -t[1]))

    def __call__(self, p):
        q = self._l.getMatrix() @ np.array(list(p), dtype=float)
        if isinstance(p, Extent2D):
            return Extent2D(*q)
        return Point2D(q[0] + self._t[0], q[1] + self._t[1])
