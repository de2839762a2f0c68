From a8abd72418ea03055d6fc8ed5980c3e2f14773c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 01/20] fix: give each tract its own patch layout

The tract builder records the patch layout of the last tract it was set up
for, and all tracts of a map shared one builder.  Patch lookups therefore
used the layout of whichever tract was generated last, which is wrong for any
map whose tracts differ in size (e.g. DiscreteSkyMap with several radii).
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..3b5d9b3 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder holds the patch layout of a single tract, so each tract
+        # needs its own.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From 23cc517cc55115d131d6fd3b55bbf2d6dd43c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 02/20] fix: unpack bands by their configured index

SkyMapDimensionPacker.unpack used the position of the band in the mapping
rather than the integer it is mapped to.
---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..7e9de29 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -270,7 +270,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
             if self._bands_list is None:
-                self._bands_list = list(self._bands)
+                self._bands_list = {i: b for b, i in self._bands.items()}
             d["band"] = self._bands_list[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From f8c9c5b0eed95dbd49a4adeb20ec50a2d11979e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 03/20] fix: accept scalar degrees in
 RingsSkyMap.findTractIdArray

---
 python/lsst/skymap/ringsSkyMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..1da72e6 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -261,8 +261,8 @@ class RingsSkyMap(CachingSkyMap):
 
     def findTractIdArray(self, ra, dec, degrees=False):
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
+            _ra = np.atleast_1d(np.deg2rad(ra))
+            _dec = np.atleast_1d(np.deg2rad(dec))
         else:
             _ra = np.atleast_1d(ra)
             _dec = np.atleast_1d(dec)
-- 
2.43.0


From 92cf7ae95b8f912da379b5e581a7e9f53291f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 04/20] fix: raise the documented IndexError for out of range
 cell indices

---
 python/lsst/skymap/patchInfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..17d4c77 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -308,6 +308,8 @@ class PatchInfo:
         else:
             _index = Index2D(*index)
         nx, ny = self.getNumCells()
+        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
+            raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getCellIndexPair(self, sequentialIndex):
@@ -330,6 +332,8 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Sequential cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From f8b2f9ce492a71ccf0467e5788469878e6de05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 05/20] fix: reject negative tract, patch and band indices when
 packing

They were packed into an integer that belongs to another data ID.
---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 7e9de29..812e6d5 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 2b605acc8d12a923fb1ff3aeb8c0326e3c0fde5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 06/20] fix: find all tracts of a RingsSkyMap that include a
 position

Only the nearest tracts in the adjacent rings were considered, which misses
tracts when the overlap is not small compared to a ring, and near the poles,
where a tract spans many tracts of the next ring in RA.  With version=0 the
northern cap could also be listed twice.
---
 python/lsst/skymap/ringsSkyMap.py | 37 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 1da72e6..ebeb971 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -320,23 +320,31 @@ class RingsSkyMap(CachingSkyMap):
         tractList : `list` of `TractInfo`
             The tracts which include the specified coord.
         """
-        ringNum = self._decToRingNum(coord.getLatitude())
+        # All tracts have the same size on the sky, so no tract extends further
+        # from its center than this (with some margin for rounding to pixels).
+        reach = 1.01*max(self[0].getCtrCoord().separation(vertex).asRadians()
+                         for vertex in self[0].getVertexList())
+        if not reach < math.pi:  # includes corners that are off the sky
+            reach = math.pi
+        lat = coord.getLatitude().asRadians()
 
         tractList = list()
-        # ringNum denotes the closest ring to the specified coord
-        # I will check adjacent rings which may include the specified coord
-        for r in [ringNum - 1, ringNum, ringNum + 1]:
-            if r < 0 or r >= self.config.numRings:
-                # Poles will be checked explicitly outside this loop
+        for r, numInRing in enumerate(self._ringNums):
+            ringDec = self._ringSize*(r + 1) - 0.5*math.pi
+            if abs(lat - ringDec) > reach:
                 continue
+            # Range of RA (haversine formula) within reach of the coord.
+            sinHalfSqr = ((math.sin(0.5*reach)**2 - math.sin(0.5*(lat - ringDec))**2)
+                          / max(math.cos(lat)*math.cos(ringDec), 1e-12))
+            halfRange = 2.0*math.asin(math.sqrt(min(max(sinHalfSqr, 0.0), 1.0)))
+            extent = math.ceil(halfRange/(2*math.pi/numInRing)) + 1
             tractNum = self._raToTractNum(coord.getLongitude(), r)
-            # Adjacent tracts will also be checked.
-            for t in [tractNum - 1, tractNum, tractNum + 1]:
-                # Wrap over raStart
-                if t < 0:
-                    t = t + self._ringNums[r]
-                elif t > self._ringNums[r] - 1:
-                    t = t - self._ringNums[r]
+            if 2*extent + 1 >= numInRing:
+                tractNums = range(numInRing)
+            else:
+                tractNums = range(tractNum - extent, tractNum + extent + 1)
+            for t in tractNums:
+                t %= numInRing  # Wrap over raStart
 
                 extra = 0
                 if self._version == 0 and t == 0 and r != 0:
@@ -345,6 +353,9 @@ class RingsSkyMap(CachingSkyMap):
                     extra = 1
 
                 index = sum(self._ringNums[:r + extra], t + 1)  # Allow 1 for south pole
+                if index == len(self) - 1:
+                    # Missing from version=0; this is the northern cap.
+                    continue
                 tract = self[index]
                 if tract.contains(coord):
                     tractList.append(tract)
-- 
2.43.0


From 5c8cf4c7b8e01d4476d0849af05e2555f70773be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 07/20] fix: return a copy of the patch dimensions

Changing the returned extent changed the patch layout of every tract of the
sky map.
---
 python/lsst/skymap/tractBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..7d70ea9 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
-- 
2.43.0


From fe8cf9e0254b235b06857b0bcc4bc0b8a2a1c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 08/20] fix: list each tract once when threads share a sky map

A tract generated by two threads at once could be listed twice, because the
two instances compare unequal.
---
 python/lsst/skymap/baseSkyMap.py  | 4 +++-
 python/lsst/skymap/ringsSkyMap.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/baseSkyMap.py b/python/lsst/skymap/baseSkyMap.py
index b82c43d..7d3a094 100755
--- a/python/lsst/skymap/baseSkyMap.py
+++ b/python/lsst/skymap/baseSkyMap.py
@@ -289,10 +289,12 @@ class BaseSkyMap:
             The list will be empty if there is no overlap.
         """
         retList = []
+        tractIds = set()  # tracts may be regenerated by other threads
         for coord in coordList:
             tractInfo = self.findTract(coord)
             patchList = tractInfo.findPatchList(coordList)
-            if patchList and not (tractInfo, patchList) in retList:
+            if patchList and tractInfo.getId() not in tractIds:
+                tractIds.add(tractInfo.getId())
                 retList.append((tractInfo, patchList))
         return retList
 
diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index ebeb971..e2a6893 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -371,10 +371,12 @@ class RingsSkyMap(CachingSkyMap):
 
     def findTractPatchList(self, coordList):
         retList = []
+        tractIds = set()  # tracts may be regenerated by other threads
         for coord in coordList:
             for tractInfo in self.findAllTracts(coord):
                 patchList = tractInfo.findPatchList(coordList)
-                if patchList and not (tractInfo, patchList) in retList:
+                if patchList and tractInfo.getId() not in tractIds:
+                    tractIds.add(tractInfo.getId())
                     retList.append((tractInfo, patchList))
         return retList
 
-- 
2.43.0


From 3613bb6ac7791ad4474607c39c02854c96ceb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 09/20] fix: keep numpy integers out of tract IDs

---
 python/lsst/skymap/cachingSkyMap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/skymap/cachingSkyMap.py b/python/lsst/skymap/cachingSkyMap.py
index 1b0ea48..2cce813 100644
--- a/python/lsst/skymap/cachingSkyMap.py
+++ b/python/lsst/skymap/cachingSkyMap.py
@@ -22,6 +22,8 @@
 
 __all__ = ["CachingSkyMap"]
 
+import operator
+
 from .baseSkyMap import BaseSkyMap
 
 
@@ -83,6 +85,7 @@ class CachingSkyMap(BaseSkyMap):
         The tract is returned from a cache, if available, otherwise generated
         on the fly.
         """
+        index = operator.index(index)  # numpy integers must not become tract IDs
         if index < 0 or index > self._numTracts:
             raise IndexError("Index out of range: %d vs %d" % (index, self._numTracts))
         if self._tractCache[index] is not None:
-- 
2.43.0


From 8e23f104f0d7103f2d4097863e0f265f3bcca38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 10/20] fix: index patches and cells with any integer type

Numpy integers of few bits or without sign overflowed or wrapped in the
computation of bounding boxes and sequential indices.
---
 python/lsst/skymap/patchInfo.py    | 6 ++++++
 python/lsst/skymap/tractBuilder.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 17d4c77..450a2fe 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -23,6 +23,7 @@
 __all__ = ["PatchInfo"]
 
 import numbers
+import operator
 from collections.abc import Iterable
 
 from lsst.geom import Extent2I, Point2I, Box2I
@@ -234,6 +235,8 @@ class PatchInfo:
                 _index = self.getCellIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Numpy integers may be too narrow for pixel coordinates.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numCells.x) \
                 or (not 0 <= _index.y < self._numCells.y):
             raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" %
@@ -307,6 +310,8 @@ class PatchInfo:
             _index = index
         else:
             _index = Index2D(*index)
+        # Numpy integers may be too narrow for the sequential index.
+        _index = Index2D(*map(operator.index, _index))
         nx, ny = self.getNumCells()
         if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
             raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
@@ -331,6 +336,7 @@ class PatchInfo:
         if self._numCells.x == 0 or self._numCells.y == 0:
             raise IndexError("Patch does not contain cells.")
 
+        sequentialIndex = operator.index(sequentialIndex)
         nx, ny = self.getNumCells()
         if not 0 <= sequentialIndex < nx*ny:
             raise IndexError("Sequential cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 7d70ea9..0ae5ce1 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -25,6 +25,7 @@ __all__ = ["tractBuilderRegistry",
 
 import abc
 import numbers
+import operator
 import struct
 from collections.abc import Iterable
 
@@ -161,6 +162,8 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
             if len(index) != 2:
                 raise ValueError("Input index does not have two values.")
             _index = Index2D(*index)
+        # Numpy integers may be too narrow for the sequential index.
+        _index = Index2D(*map(operator.index, _index))
         nx, ny = self._numPatches
         return nx*_index.y + _index.x
 
@@ -175,6 +178,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         -------
         x, y : `lsst.skymap.Index2D`
         """
+        sequentialIndex = operator.index(sequentialIndex)
         nx, ny = self._numPatches
         x = sequentialIndex % nx
         y = sequentialIndex // nx
@@ -231,6 +235,8 @@ class LegacyTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Numpy integers may be too narrow for pixel coordinates.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
@@ -328,6 +334,8 @@ class CellTractBuilder(BaseTractBuilder):
                 _index = self.getPatchIndexPair(index)
             else:
                 _index = Index2D(*index)
+        # Numpy integers may be too narrow for pixel coordinates.
+        _index = Index2D(*map(operator.index, _index))
         if (not 0 <= _index.x < self._numPatches.x) \
            or (not 0 <= _index.y < self._numPatches.y):
             raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
-- 
2.43.0


From 4ae7347a7005dbdce7c989332ccdccbef5b5c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 11/20] fix: refuse patch indices outside the tract when
 converting them

A pair outside the grid was converted to the sequential index of another
patch (or a negative one), and a sequential index past the end to a pair
outside the grid.
---
 python/lsst/skymap/tractBuilder.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 0ae5ce1..17651a1 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -153,6 +153,11 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         Returns
         -------
         sequentialIndex : `int`
+
+        Raises
+        ------
+        IndexError
+            Raised if index is out of range.
         """
         if isinstance(index, Index2D):
             _index = index
@@ -165,6 +170,8 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         # Numpy integers may be too narrow for the sequential index.
         _index = Index2D(*map(operator.index, _index))
         nx, ny = self._numPatches
+        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
+            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getPatchIndexPair(self, sequentialIndex):
@@ -177,9 +184,16 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
         Returns
         -------
         x, y : `lsst.skymap.Index2D`
+
+        Raises
+        ------
+        IndexError
+            Raised if index is out of range.
         """
         sequentialIndex = operator.index(sequentialIndex)
         nx, ny = self._numPatches
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Sequential patch index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From 4ed72bb5ac58be6b7f9f797a08fc7f738ebc0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:35 +0000
Subject: [PATCH 12/20] fix: return copies of the face centers of a
 dodecahedron

Slices of numpy arrays are views: changing a returned face center changed
the dodecahedron.
---
 python/lsst/skymap/detail/dodecahedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/detail/dodecahedron.py b/python/lsst/skymap/detail/dodecahedron.py
index 4db56c9..3fcd875 100755
--- a/python/lsst/skymap/detail/dodecahedron.py
+++ b/python/lsst/skymap/detail/dodecahedron.py
@@ -52,7 +52,7 @@ class Dodecahedron:
         results : `list` of `numpy.ndarray`
             A list of face centers (in index order); each a unit vector.
         """
-        return self.faceVecList[:]
+        return [faceVec.copy() for faceVec in self.faceVecList]
 
     def getFaceCtr(self, ind):
         """Return the center of the specified face.
@@ -67,7 +67,7 @@ class Dodecahedron:
         results : `numpy.ndarray`
             Face center as a unit vector.
         """
-        return self.faceVecList[ind][:]
+        return self.faceVecList[ind].copy()
 
     def getVertices(self, ind):
         """Return the vertices for a given face.
-- 
2.43.0


From bd68b2c9ddfaba6b27e4aa5528a954b8a03ef6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:20 +0000
Subject: [PATCH 13/20] fix: keep a copy of the band table in
 SkyMapDimensionPacker

The packer kept the caller's mapping (or the live config dict), so changing it
later changed the integers packed, and made pack and unpack disagree once the
reverse table had been made.
---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 812e6d5..eff68f9 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -173,7 +173,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                 * fixed.records["skymap"].patch_ny_max
             )
         super().__init__(fixed, dimensions)
-        self._bands = bands
+        self._bands = dict(bands)  # the caller may change theirs later
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-- 
2.43.0


From ae24b2e9cb45acfeb775ed37a106a60c01e8e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:22 +0000
Subject: [PATCH 14/20] fix: look up arrays of tract positions in double
 precision

RingsSkyMap.findTractIdArray worked in the type of its input, and in half or
single precision for arrays of 8- and 16-bit integers in degrees, so it named
other tracts than findTract does.
---
 python/lsst/skymap/ringsSkyMap.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index e2a6893..8fd6735 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -260,12 +260,13 @@ class RingsSkyMap(CachingSkyMap):
         return self[index]
 
     def findTractIdArray(self, ra, dec, degrees=False):
+        # Narrower types (including those numpy picks for narrow integers) lose
+        # the position.
+        _ra = np.atleast_1d(np.asarray(ra, dtype=np.float64))
+        _dec = np.atleast_1d(np.asarray(dec, dtype=np.float64))
         if degrees:
-            _ra = np.atleast_1d(np.deg2rad(ra))
-            _dec = np.atleast_1d(np.deg2rad(dec))
-        else:
-            _ra = np.atleast_1d(ra)
-            _dec = np.atleast_1d(dec)
+            _ra = np.deg2rad(_ra)
+            _dec = np.deg2rad(_dec)
 
         # Set default to -1 to distinguish from polar tracts
         indexes = np.full(_ra.size, -1, dtype=np.int32)
-- 
2.43.0


From 7b1d7e53a9d193093e75a8eca9a89915a79b3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:25 +0000
Subject: [PATCH 15/20] fix: refuse patch and cell dimensions and borders that
 cannot be

Patch or cell dimensions that were zero or negative, or negative borders,
were accepted and gave maps whose tracts have negative numbers of patches or
none, or fail when used.
---
 python/lsst/skymap/tractBuilder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 17651a1..c5c543e 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -219,11 +219,13 @@ class LegacyTractBuilderConfig(BaseTractBuilderConfig):
         dtype=int,
         length=2,
         default=(4000, 4000),
+        itemCheck=lambda x: x > 0,
     )
     patchBorder = pexConfig.Field(
         doc="border between patch inner and outer bbox (pixels)",
         dtype=int,
         default=100,
+        check=lambda x: x >= 0,
     )
 
 
@@ -294,21 +296,25 @@ class CellTractBuilderConfig(BaseTractBuilderConfig):
         dtype=int,
         length=2,
         default=(150, 150),
+        itemCheck=lambda x: x > 0,
     )
     cellBorder = pexConfig.Field(
         doc="Border between cell inner and outer bbox (pixels)",
         dtype=int,
         default=50,
+        check=lambda x: x >= 0,
     )
     numCellsPerPatchInner = pexConfig.Field(
         doc="Number of cells per inner patch.",
         dtype=int,
         default=20,
+        check=lambda x: x > 0,
     )
     numCellsInPatchBorder = pexConfig.Field(
         doc="Number of cells in the patch border (outside the inner patch region).",
         dtype=int,
         default=1,
+        check=lambda x: x >= 0,
     )
 
     def validate(self):
-- 
2.43.0


From b999cc5e9eccd6b08fe8fca2e424ae384c1eb1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:25 +0000
Subject: [PATCH 16/20] fix: refuse equatorial maps with a negative number of
 tracts

They were accepted and had no tracts at all.
---
 python/lsst/skymap/equatSkyMap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/skymap/equatSkyMap.py b/python/lsst/skymap/equatSkyMap.py
index 3b366ee..603c35d 100755
--- a/python/lsst/skymap/equatSkyMap.py
+++ b/python/lsst/skymap/equatSkyMap.py
@@ -35,6 +35,7 @@ class EquatSkyMapConfig(BaseSkyMap.ConfigClass):
         doc="number of tracts; warning: TAN projection requires at least 3",
         dtype=int,
         default=4,
+        check=lambda x: x > 0,
     )
     decRange = pexConfig.ListField(
         doc="range of declination (deg)",
-- 
2.43.0


From d9c11ace78ce30256298f626f56fd1c7d9dce97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 17/20] fix: give tract numbers of no positions as integers

BaseSkyMap.findTractIdArray returned an array of floats when given no
positions, which makes floats of the numbers it is concatenated with.
---
 python/lsst/skymap/baseSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/baseSkyMap.py b/python/lsst/skymap/baseSkyMap.py
index 7d3a094..de5fdf6 100755
--- a/python/lsst/skymap/baseSkyMap.py
+++ b/python/lsst/skymap/baseSkyMap.py
@@ -240,7 +240,7 @@ class BaseSkyMap:
         coords = [geom.SpherePoint(r*units, d*units) for r, d in zip(np.atleast_1d(ra),
                                                                      np.atleast_1d(dec))]
 
-        tractId = np.array([self.findTract(coord).getId() for coord in coords])
+        tractId = np.array([self.findTract(coord).getId() for coord in coords], dtype=int)
 
         return tractId
 
-- 
2.43.0


From 1890013bb3144996fa6dadb1b4ed4320a463ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:08 +0000
Subject: [PATCH 18/20] fix: keep the vertices of explicit tracts in a tuple

getVertexList returned the tract's own list, so changing it changed the tract
and which tracts a ring map found around a position. Other tracts already
keep a tuple.
---
 python/lsst/skymap/tractInfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index 3b5d9b3..f9b6a15 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -478,7 +478,7 @@ class ExplicitTractInfo(TractInfo):
         bboxD = geom.BoxD(self.getBBox())
         bboxD.grow(-0.001)
         finalWcs = self.getWcs()
-        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())
+        self._vertexCoordList = tuple(finalWcs.pixelToSky(bboxD.getCorners()))
 
     def _minimumBoundingBox(self, wcs):
         """Calculate the minimum bounding box for the tract, given the WCS, and
-- 
2.43.0


From a145b6396723c55bebb4efd62a459a7fe25e41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:35 +0000
Subject: [PATCH 19/20] fix: refuse to pack bands with no bands to leave room
 for

---
 python/lsst/skymap/packers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index eff68f9..02eea88 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -165,6 +165,10 @@ class SkyMapDimensionPacker(DimensionPacker):
                     )
                 if n_bands is None:
                     n_bands = len(bands)
+                if n_bands == 0:
+                    raise ValueError(
+                        f"Cannot pack band with no bands to leave room for (n_bands=0): {dimensions}."
+                    )
         if n_tracts is None:
             n_tracts = fixed.records["skymap"].tract_max
         if n_patches is None:
-- 
2.43.0


From 32e5f54eb3f15cc621ada3e7e0b3d2e6b5e47110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:55 +0000
Subject: [PATCH 20/20] fix: hand out copies of the boxes of patches and cells

---
 python/lsst/skymap/cellInfo.py  | 5 +++--
 python/lsst/skymap/patchInfo.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/skymap/cellInfo.py b/python/lsst/skymap/cellInfo.py
index aab53cd..67aae0f 100644
--- a/python/lsst/skymap/cellInfo.py
+++ b/python/lsst/skymap/cellInfo.py
@@ -22,6 +22,7 @@
 
 __all__ = ["CellInfo"]
 
+from lsst.geom import Box2I
 from .detail import makeSkyPolygonFromBBox
 
 
@@ -96,7 +97,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -108,7 +109,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 450a2fe..e24b4b5 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -131,7 +131,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -143,7 +143,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
@@ -265,7 +265,7 @@ class PatchInfo:
     def getCellInnerDimensions(self):
         """Get dimensions of inner region of the cells (all are the same)
         """
-        return self._cellInnerDimensions
+        return Extent2I(self._cellInnerDimensions)
 
     cell_inner_dimensions = property(getCellInnerDimensions)
 
-- 
2.43.0

