"""Rewrites the table of planted changes at the end of DESIGN.md from the tables in tools/seeds."""
import glob
import importlib.util
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->"
# Missed when first tried, and what was done about it.
MISSED = {
    "c29-errstate-gen": "C29 takes its second snapshot with iterations under way",
    "c29-umask": "C29 registers maps, between two snapshots",
    "c29-import-env": "C29 imports and works in an environment in which nothing is set",
    "c29-switch": "C29 gives the process settings other than the default before it takes its first snapshot",
    "c12-corners-explicit-only": "C12 makes tracts directly, with limits of the inner region",
    "c14-reduce-clears": "C14 saves and copies the map while other threads ask",
    "c13-reuse-buffer": "C13 keeps arrays of answers while others are made",
    "c19-iter-state": "C19 leaves iterations over patches and cells unfinished",
    "c16-eq-identity": "C16 compares maps of two types that share a configuration object",
    "c28-explicit-radius": "C28 makes tracts down to a part of a pixel directly",
    "c29-first-tract": "C29 goes through all operations for the first time in fresh interpreters",
    "c30-scale-small": "C30 has scales up to degrees per pixel",
    "c08-foreign-patch": "C08 asks tracts for the numbers of patches made elsewhere",
    "c10-foreign-cell": "C10 asks patches for the numbers of cells made elsewhere",
    "c02-remainder": "C02 makes patches that leave a remainder of a few pixels",
    "c29-pool": "C29 asks with lists and arrays of hundreds to thousands",
    "c18-radius-arcsec": "C18 has finely resolved small discrete tracts",
    "c08-int32": "C08 has tracts of more than 2^31 patches",
    "c23-band-case": "C23 tries bands that look like those of the table",
    "c28-setstate-class": "C28 derives from every built-in type with a constructor of its own",
    "c05-inverse": "maps have patch sizes whose reciprocal is inexact (49, 98, 103, ...)",
    "c10-inverse": "C10 has such numbers of cells per row and goes through the ends of every row",
    "c13-cd-cache": "C13's other maps differ from the first by as little as 1e-9, and are asked the same questions",
    "c13-region-id": "C13 asks maps that differ in place only for the same regions",
    "c21-big-no-transaction": "C21 interrupts registrations of maps of many tracts or patches",
    "c22-log2": "packers for products next to powers of two beyond 2**53",
    "c29-gc": "C29 leaves iterations unfinished",
    "c20-name-lower": "C20 registers under names with capitals, blanks, odd characters, and names that differ in case only",
    "c22-band-falsy": "packers (`packs.py`) have bands with empty and odd names",
    "c26-hash-index": "C26 makes patches and cells with pairs and other integer types as index",
    "c03-array-order": "C03 adds whole turns to right ascensions",
    "c27-bounded": "C27 uses every tract of maps of thousands",
    "c20-fifty": "C20 registers a map with tracts of every number of patches up to a hundred",
    "c19-iter-truncated": "C19 walks maps of up to a hundred thousand tracts",
    "c19-patch-iteration": "C19 walks tracts of thousands of patches and patches of thousands of cells",
    "c10-cells-byte": "maps with a great many tracts, patches, cells or pixels (`gen.big`) in most checks",
    "c07-short-box": "the same",
    "c01-many-tracts": "the same",
    "c18-many-discrete": "the same",
    "c09-many-cells": "the same",
    "c23-sparse-room": "C23 makes packers without a band count for sparse tables and checks `maxBits`",
    "c02-small-overlap": "C02 `reach`: overlaps down to 0.0005 deg with fine pixels",
    "c12-vertices-pixel": "C12 judges the corners of every tract, not only those of explicit ones",
    "c24-update-after": "C24 makes maps, copies and pickles of a configuration before the attempts to change it",
    "c13-round-memo": "C13 asks of close positions, often on the two sides of a step of the answer",
    "c13-wcs-cache": "C13 takes fresh answers from an untouched process and asks a turned neighbour map",
}


def main():
    rows = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "s_*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            if s.get("local") or not os.path.isdir(os.path.join(V, "seeded", s["id"])):
                continue
            rows.append((s["prop"], s["id"], s["breaks"], MISSED.get(s["id"], "")))
    rows.sort()
    out = ["%s\n\n%d changes, each caught by the quick check of its property (`tools/seed.py check`).\n" % (MARK, len(rows)),
           "| caught by | change | what it breaks | missed at first; since then |", "|---|---|---|---|"]
    out += ["| %s | %s | %s | %s |" % r for r in rows]
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    open(p, "w").write(t.split(MARK)[0] + "\n".join(out) + "\n")


main()
