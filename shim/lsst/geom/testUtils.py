"""The part of lsst.geom.testUtils that sky map tests use."""
import lsst.utils.tests

from ._angle import arcseconds


@lsst.utils.tests.inTestCase
def assertAnglesAlmostEqual(testCase, ang0, ang1, maxDiff=0.001*arcseconds, ignoreWrap=True,
                            msg="Angles differ"):
    d = ang0 - ang1
    if ignoreWrap:
        d = d.wrapCtr()
    if abs(d.asArcseconds()) > maxDiff.asArcseconds():
        testCase.fail("%s: measured difference %s arcsec > max allowed %s arcsec"
                      % (msg, d.asArcseconds(), maxDiff.asArcseconds()))


@lsst.utils.tests.inTestCase
def assertSpherePointsAlmostEqual(testCase, sp0, sp1, maxSep=0.001*arcseconds, msg=""):
    if sp0.separation(sp1) > maxSep:
        testCase.fail("Angular separation between %s and %s = %s\" > maxSep = %s\"%s" % (
            sp0, sp1, sp0.separation(sp1).asArcseconds(), maxSep.asArcseconds(), msg))


@lsst.utils.tests.inTestCase
def assertSpherePointListsAlmostEqual(testCase, splist0, splist1, maxSep=0.001*arcseconds, msg=None):
    testCase.assertEqual(len(splist0), len(splist1), msg=msg)
    for a, b in zip(splist0, splist1):
        assertSpherePointsAlmostEqual(testCase, a, b, maxSep, msg or "")


@lsst.utils.tests.inTestCase
def assertPairsAlmostEqual(testCase, pair0, pair1, maxDiff=1e-7, msg="Pairs differ"):
    if len(pair0) != 2 or len(pair1) != 2:
        raise RuntimeError("inputs must have two elements")
    d = ((pair0[0] - pair1[0])**2 + (pair0[1] - pair1[1])**2)**0.5
    if d > maxDiff:
        testCase.fail("%s: measured %s vs %s" % (msg, pair0, pair1))
