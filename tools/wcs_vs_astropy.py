"""Compare the stand-in SkyWcs with wcslib (through astropy)."""
import os
import sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import load
load._paths()
import lsst.geom as geom  # noqa: E402
import lsst.afw.geom as afwGeom  # noqa: E402
from lsst.afw.geom import _skyWcs  # noqa: E402
from astropy.wcs import WCS  # noqa: E402

rng = np.random.default_rng(1)
worst, n = 0.0, 0
for proj in _skyWcs._PROJ:
    for k in range(200):
        ra = float(rng.choice([0, 10, 359.9, rng.uniform(0, 360)]))
        dec = float(rng.choice([0, -90, 90, 89.9, -45, rng.uniform(-90, 90)]))
        if not _skyWcs._PROJ[proj][0] and k % 2:
            dec = 0.0
        sc = float(10**rng.uniform(-1, 2))
        rot = float(rng.choice([0, 45, rng.uniform(0, 360)]))
        cd = afwGeom.makeCdMatrix(scale=sc*geom.arcseconds, orientation=rot*geom.degrees)
        crpix = rng.uniform(-1e4, 1e4, 2)
        w = afwGeom.makeSkyWcs(geom.Point2D(*crpix), geom.SpherePoint(ra, dec, geom.degrees), cd, proj)
        a = WCS(naxis=2)
        a.wcs.ctype = ["RA---" + proj, "DEC--" + proj]
        a.wcs.crval = [ra, dec]
        a.wcs.crpix = crpix + 1
        a.wcs.cd = cd
        a.wcs.set()
        pts = []
        for _ in range(20):
            b, r = rng.uniform(0, 360), rng.uniform(0, 60)
            pts.append(geom.SpherePoint(ra, dec, geom.degrees).offset(b*geom.degrees, r*geom.degrees))
        for p in pts:
            x, y = w.skyToPixel(p)
            try:
                X, Y = a.wcs.s2p([[p.getRa().asDegrees(), p.getDec().asDegrees()]], 0)["pixcrd"][0]
            except Exception:
                continue
            d = np.hypot(x - X, y - Y)*sc
            if not _skyWcs._PROJ[proj][0] and d > 1e5:
                continue   # the +-180 degree seam
            n += 1
            worst = max(worst, d)
            q = w.pixelToSky(geom.Point2D(x, y))
            worst = max(worst, q.separation(p).asArcseconds())
            assert worst < 1e-4, (proj, ra, dec, sc, rot, p, (x, y), (X, Y))
print("points compared: %d, worst difference %.3g arcsec" % (n, worst))
