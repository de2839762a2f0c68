"""Writes properties.jsonl and MANIFEST.json (run after editing the tables here)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "python/lsst/skymap/"
TRUST = ("Runtime monitoring of the real code on generated workloads: what is claimed is what was executed. Trusts the stand-ins "
         "for lsst.geom / lsst.afw.geom in /verif/shim (checked by running the repository's whole test suite on them and against "
         "wcslib). ")

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[{"name": a, "where": S + b} for a, b in mech], observe=observe, technique=technique, note=note,
                  state=[{"name": a, "meaning": b, "where": S + c} for a, b, c in state or []], level=level))


prop("C01", "Tract lookup returns the one tract that owns the position",
     "Looking up a sky position in a sky map returns the tract whose inner region owns it: the right ring and place for ring maps "
     "(both numbering versions), the nearest face for dodecahedra, the right pixel for HEALPix, the nearest centre for equatorial "
     "and discrete maps. The rule is a partition of the sky: it never fails, at poles, at RA 0, on boundaries or for RA outside "
     "0-360 deg, and every tract it names owns its own centre.",
     ["inputs", "configurations"], "all positions on the sphere, all valid configurations of every map kind",
     "Existing tests look up tract centres and a few hundred positions on a handful of configurations; ownership near poles, RA "
     "wraps and boundaries, for any number of rings, needs an oracle for arbitrary positions.",
     ["baseSkyMap.py", "ringsSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py", "detail/dodecahedron.py"],
     [("findTract", "baseSkyMap.py:BaseSkyMap.findTract"), ("ring arithmetic", "ringsSkyMap.py:RingsSkyMap.findTract"),
      ("face lookup", "detail/dodecahedron.py:Dodecahedron.getFaceInd")],
     ["tract id returned for a position"], "online oracle (independent owner model) over generated positions and maps",
     "Positions within 1e-9 rad of a boundary may go to either side.")

prop("C02", "Where the sky is covered, the owning tract and one patch hold the position",
     "For maps that cover the sky (rings, dodecahedron, HEALPix) or a band of it (equatorial) with a usable overlap, every covered "
     "position lies on the pixel grid of the tract that owns it, and exactly one patch of that tract holds it, so no position falls "
     "in a gap. Tracts extend beyond their inner region by at least half the configured overlap for this purpose.",
     ["inputs", "configurations"], "all positions, all covering configurations with overlap above a stated minimum",
     "Tests sample a few positions near tract centres with default configurations; gaps appear at corners of inner regions, at "
     "specific ring numbers, projections and rounding of tract sizes.",
     ["tractInfo.py", "ringsSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "healpixSkyMap.py", "tractBuilder.py"],
     [("tract bounding box", "tractInfo.py:TractInfo._minimumBoundingBox"), ("rounding to whole patches",
                                                                          "tractBuilder.py:setupPatches")],
     ["whether the tract contains the position; patch found"], "containment monitor judged from wcslib pixel positions",
     "Known findings: very thin overlaps, and rotations that are not multiples of 90 deg (listed in known_findings.json).")

prop("C03", "Vectorised tract lookup agrees with one-at-a-time lookup",
     "Looking up an array of positions returns, element by element and in order, the same tract numbers as looking each one up "
     "alone, whatever the array's length, memory layout or numeric type, for scalars and lists too, and in degrees or radians. The "
     "input arrays are left unchanged.",
     ["inputs", "configurations"], "all arrays of positions in all accepted forms, all maps",
     "Tests compare the two lookups for one ring map and one random array; special cases in the vector code (caps, off-by-one "
     "version, wraps) are reached only by particular positions and mixtures.",
     ["baseSkyMap.py", "ringsSkyMap.py"],
     [("vector lookup", "ringsSkyMap.py:RingsSkyMap.findTractIdArray"), ("fallback", "baseSkyMap.py:findTractIdArray")],
     ["array of tract ids"], "differential monitor (vector vs scalar lookup vs owner model)", "Fixed one defect (scalar degrees).")

prop("C04", "Listing all tracts that include a position is sound and complete",
     "For ring maps, asking for every tract that includes a position returns exactly the tracts whose pixel grid includes it, each "
     "once, including the polar caps and tracts far away in RA near a pole or with large overlaps. With the legacy numbering, of "
     "two tracts that are duplicates of each other at least one is returned.",
     ["inputs", "configurations"], "all positions; 1 to 256 rings, any overlap, rotation, projection, both versions",
     "Tests check that neighbours of a few tracts are found in one map; missing tracts occur only near poles, ring ends or with "
     "large overlaps.",
     ["ringsSkyMap.py", "tractInfo.py"],
     [("neighbour search", "ringsSkyMap.py:RingsSkyMap.findAllTracts"), ("contains", "tractInfo.py:TractInfo.contains")],
     ["list of tract ids"], "exhaustive-scan oracle over all tracts within reach, by wcslib", "Fixed one defect (incomplete lists).")

prop("C05", "Region queries list exactly the patches the region's pixel extent reaches",
     "Asking a tract for the patches touched by a list of positions returns exactly the patches within a patch border of the "
     "pixel rectangle that the projectable positions span, each once, and none for an empty list or a rectangle off the tract. "
     "The map-wide query lists each tract touched (for ring maps: holding one of the positions) with its patches, and the closest-"
     "tract query does so for the tracts owning the positions; no tract is listed twice or with no patches.",
     ["inputs", "configurations"], "all lists of positions, all maps, both patch layouts",
     "Tests use a few rectangles inside one tract; rounding at patch edges, clipping at tract edges and several tracts are combinations "
     "they do not reach.",
     ["tractInfo.py", "baseSkyMap.py", "ringsSkyMap.py"],
     [("patch list", "tractInfo.py:TractInfo.findPatchList"), ("tract and patch list", "baseSkyMap.py:findTractPatchList"),
      ("closest", "baseSkyMap.py:findClosestTractPatchList")],
     ["patch indices and tract ids listed"], "online oracle: pixel extents by wcslib and integer arithmetic",
     "Fixed one defect with C14 (repeated tracts).")

prop("C06", "A position belongs to exactly one patch of a tract, or is off the tract",
     "Locating a position in a tract returns the patch whose inner rectangle holds the position's pixel, with the same description "
     "as asking for that patch by index; if the pixel is off the tract a lookup error is raised and no patch is returned. Whether "
     "the tract says it contains the position agrees with whether a patch is found.",
     ["inputs", "configurations"], "all positions and tracts, with emphasis on patch and tract edges",
     "Tests locate patch centres and a few points; errors at edges, corners and half pixels need targeted positions on many grids.",
     ["tractInfo.py", "tractBuilder.py"],
     [("findPatch", "tractInfo.py:TractInfo.findPatch"), ("contains", "tractInfo.py:TractInfo.contains")],
     ["patch index, boxes, exception type"], "online oracle from wcslib pixel positions", "Ties of 1e-6 pixel excluded.")

prop("C07", "Patch inner boxes tile the tract; outer boxes add the border",
     "The inner boxes of a tract's patches have the configured size, do not overlap, and together cover the tract's pixel grid "
     "exactly; each outer box is the inner box grown by the patch border, in the legacy layout cut off at the tract's edge. This holds for every "
     "tract at any time, however many other tracts of the same or other maps have been used.",
     ["inputs", "configurations", "histories"], "all configurations, tracts and patches; tracts used in any order",
     "Tests check one map kind at a time and one tract at a time; tracts of different sizes in one map, and interleaved use, are "
     "not sampled.",
     ["tractBuilder.py", "tractInfo.py"],
     [("patch boxes", "tractBuilder.py:LegacyTractBuilder.getPatchInfo"), ("patch boxes", "tractBuilder.py:CellTractBuilder.getPatchInfo"),
      ("layout per tract", "tractInfo.py:TractInfo.__init__")],
     ["integer boxes of patches"], "exact integer tiling oracle over interleaved tract use", "Fixed one defect (shared layout).",
     state=[("patch layout", "number of patches and size of the tract it was set up for", "tractBuilder.py")])

prop("C08", "Patch index pairs and sequential numbers are one-to-one, with bounds enforced",
     "Within a tract, the pair of a patch and its sequential number (row by row from the lower left) determine each other, in every "
     "accepted form of index, and name the same patch; a patch object is numbered by its pair, wherever it was made. Indices outside the grid, in either coordinate or direction, are refused "
     "with an index error rather than naming another patch.",
     ["inputs", "configurations", "histories"], "all index forms and values; several tracts of different size interleaved",
     "Tests iterate one square grid; non-square grids, indices out of range in one coordinate, and several tracts are not sampled.",
     ["tractBuilder.py", "tractInfo.py"],
     [("index arithmetic", "tractBuilder.py:BaseTractBuilder.getSequentialPatchIndexFromPair"),
      ("inverse", "tractBuilder.py:BaseTractBuilder.getPatchIndexPair")],
     ["indices and exceptions"], "bijection oracle over whole grids and out-of-range probes", "Fixed one defect (shared layout).")

prop("C09", "Cells tile each patch and its border on one grid shared by neighbours",
     "In cell-based maps the inner boxes of a patch's cells tile the patch's inner box plus its border of whole cells exactly, and "
     "each cell's outer box is its inner box grown by the cell border. Cells of neighbouring patches that lie at the same place "
     "have identical boxes.",
     ["inputs", "configurations"], "all cell layouts, patches at edges and inside, several tracts",
     "Tests check one cell configuration and a few cells; grid alignment across patches and tract edges is not sampled.",
     ["patchInfo.py", "tractBuilder.py", "cellInfo.py"],
     [("cell boxes", "patchInfo.py:PatchInfo.getCellInfo"), ("patch layout", "tractBuilder.py:CellTractBuilder")],
     ["integer boxes of cells"], "exact integer tiling and neighbour-agreement oracle", "Boxes compared exactly.")

prop("C10", "Cell index pairs and sequential numbers are one-to-one, with bounds enforced",
     "Within a patch, the pair of a cell and its sequential number determine each other in every accepted form of index; a cell object is numbered by its pair, wherever it was made. Indices "
     "outside the patch's cells are refused with an index error, as is any cell index for a patch without cells.",
     ["inputs", "configurations"], "all index forms and values, all cell layouts",
     "Tests try a few indices of one layout.", ["patchInfo.py"],
     [("index arithmetic", "patchInfo.py:PatchInfo.getSequentialCellIndexFromPair"), ("inverse", "patchInfo.py:PatchInfo.getCellIndexPair")],
     ["indices and exceptions"], "bijection oracle over whole grids and out-of-range probes", "Fixed one defect (wrong error).")

prop("C11", "A tract's pixel grid is the one its configuration denotes",
     "A tract's WCS has the configured projection, pixel scale, rotation and handedness with its reference position at the tract's "
     "centre, and its lower-left pixel is (0, 0). Its size is the smallest whole number of patches that holds its inner region "
     "(or radius) plus overlap, centred as that requires, and depends on nothing but the configuration.",
     ["inputs", "configurations"], "all map kinds, projections, scales, rotations, overlaps including none, both patch layouts",
     "Tests check pixel scale and containment for a few configurations at default projections.",
     ["tractInfo.py", "tractBuilder.py", "detail/wcsFactory.py", "ringsSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py"],
     [("bounding box", "tractInfo.py:TractInfo._minimumBoundingBox"), ("whole patches", "tractBuilder.py:setupPatches"),
      ("WCS", "detail/wcsFactory.py:WcsFactory.makeWcs")],
     ["bounding box, number of patches, WCS parameters"], "reference geometry by wcslib plus integer arithmetic",
     "Extents within 1e-5 pixel of a pixel boundary may round either way.")

prop("C12", "Sky polygons are the sky positions of the corresponding pixel boxes",
     "The inner and outer sky polygons of patches and cells, and the outer polygon of a tract, have as vertices the sky positions "
     "of their box's corners (the outer edges of the edge pixels), with the tract's WCS or a WCS given instead. A tract's inner sky "
     "region is the region that its vertices or RA/Dec limits describe; positions inside one lie in the other. The vertices of a ring "
     "map's or discrete tract are the corners of its grid.",
     ["inputs", "configurations"], "all maps, patches, cells and projections",
     "Tests check one or two polygons for containing a centre.", ["detail/utils.py", "patchInfo.py", "cellInfo.py", "tractInfo.py",
                                                                "ringsSkyMap.py"],
     [("polygon from box", "detail/utils.py:makeSkyPolygonFromBBox"), ("inner region", "tractInfo.py:getInnerSkyRegion")],
     ["vertices and regions"], "vertex oracle by wcslib and point-in-region probes", "Only boxes whose corners are convex on the sky.")

prop("C13", "Answers do not depend on what was asked before",
     "A sky map is a value: every answer it gives equals the answer a freshly made map of the same configuration gives to that one "
     "question, after any history of queries of this and other maps, including maps that share a configuration. Changing boxes, "
     "dimensions, lists and arrays obtained from earlier answers, or arrays passed in, does not change later answers.",
     ["histories", "inputs", "configurations"], "all interleavings of operations on up to three maps, in one thread",
     "Tests ask each question once of a fresh map; caching and sharing defects need particular histories.",
     ["cachingSkyMap.py", "baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py"],
     [("tract cache", "cachingSkyMap.py:CachingSkyMap.__getitem__"), ("digest cache", "baseSkyMap.py:BaseSkyMap.getSha1"),
      ("layout per tract", "tractInfo.py:TractInfo.__init__")],
     ["every public answer"], "record histories, compare each answer with a fresh map's", "Fixed two defects.",
     state=[("tract cache", "tracts made so far", "cachingSkyMap.py"), ("digest", "computed once", "baseSkyMap.py")])

prop("C14", "Threads sharing a sky map or packer get the answers they would get alone",
     "When several threads use one sky map, or one data ID packer, at the same time, each query returns what it would return with "
     "no other thread, and no query fails, whatever the interleaving. Queries that list tracts list each tract once.",
     ["schedules", "histories"], "interleavings of 2 to 4 threads at line and bytecode granularity",
     "No existing test uses threads; failures need a switch at a particular statement while tracts are first being made.",
     ["cachingSkyMap.py", "baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py", "packers.py"],
     [("tract cache", "cachingSkyMap.py:CachingSkyMap.__getitem__"), ("layout per tract", "tractInfo.py:TractInfo.__init__"),
      ("band table", "packers.py:SkyMapDimensionPacker.unpack")],
     ["answers per thread"], "controlled scheduler (random and preemption-bounded) with differential oracle",
     "CPython with its global lock; switch points are lines or bytecodes of the package. Fixed one defect.",
     state=[("tract cache", "tracts made so far", "cachingSkyMap.py")])

prop("C15", "A sky map survives pickling and copying unchanged, across processes and releases",
     "A sky map saved with any pickle protocol, or copied, and restored in this or another process is equal to the original and "
     "gives identical tracts, patches, cells, lookups and identity, whether or not the original had been used. Maps pickled by "
     "earlier releases are restored to the same tracts.",
     ["inputs", "configurations", "histories"], "all map kinds and versions, protocols, copy routes, cold or used maps",
     "Tests pickle a fresh default map in one process and compare equality only, which compares digests, not tracts.",
     ["cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "baseSkyMap.py"],
     [("reduce", "cachingSkyMap.py:CachingSkyMap.__reduce__"), ("state", "dodecaSkyMap.py:DodecaSkyMap.__getstate__")],
     ["restored map's answers"], "round-trip monitor in-process, cross-process and against golden pickles",
     "Golden pickles are from the commit the properties were written against.")

prop("C16", "The digest and equality identify what a map denotes, everywhere and always",
     "A sky map's digest is a fixed function of the settings that determine its tracts: equal however the configuration was reached, "
     "in every process, before and after use, and as published for maps already registered; changing any such setting by the "
     "smallest amount changes it, and settings of unused options do not. Maps compare equal exactly when digests agree, hashing "
     "agrees with equality, and comparison with other objects is false rather than an error.",
     ["configurations", "inputs", "histories"], "all configurations, single-field differences down to one unit in the last place",
     "Tests compare a few hard-coded digests and one or two differing fields.",
     ["baseSkyMap.py", "ringsSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "healpixSkyMap.py",
      "tractBuilder.py"],
     [("digest", "baseSkyMap.py:BaseSkyMap.getSha1"), ("kind-specific part", "*SkyMap.py:updateSha1"),
      ("layout part", "tractBuilder.py:getPackedConfig")],
     ["digest bytes, ==, hash"], "differential monitor against the published byte layout and single-field mutations",
     "Known finding: the numbering version of ring maps is not part of the digest.")

prop("C17", "Ring maps number and place tracts as documented and tile the sky",
     "In a ring map tract 0 is the south cap, the last tract the north cap, and those between are numbered ring by ring northwards "
     "and eastwards from the starting RA, each centred on the middle of its RA/Dec range. The ranges of a ring's tracts tile it "
     "and the rings and caps tile the sky without gap or overlap; number, ring and place determine each other (with the documented "
     "exception of the legacy numbering).",
     ["configurations", "inputs"], "1 to 400 rings, any starting RA, both numbering versions",
     "Tests check totals and a few tracts for three or four ring counts.", ["ringsSkyMap.py"],
     [("ring sizes", "ringsSkyMap.py:RingsSkyMap.__init__"), ("place", "ringsSkyMap.py:getRingIndices"),
      ("limits", "ringsSkyMap.py:getRaDecRange")],
     ["tract centres, inner regions, indices"], "structural oracle over all tracts of a map", "")

prop("C18", "Dodecahedron, equatorial, discrete and HEALPix maps have documented layouts",
     "A dodecahedral map has twelve tracts centred on and bounded by the faces of a regular dodecahedron in the chosen orientation; "
     "an equatorial map has equal tracts side by side around the sky filling the declination band; discrete and HEALPix maps have "
     "a tract at each listed position or pixel, in order, with the listed size or the pixel's corners.",
     ["configurations", "inputs"], "all configurations of the four kinds",
     "Tests check numbers of tracts and a few neighbours of default configurations.",
     ["dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "healpixSkyMap.py", "detail/dodecahedron.py"],
     [("solid", "detail/dodecahedron.py:Dodecahedron"), ("band", "equatSkyMap.py:EquatSkyMap.__init__"),
      ("list", "discreteSkyMap.py:generateTract"), ("pixels", "healpixSkyMap.py:generateTract")],
     ["centres, vertices, inner regions"], "structural oracle (solid geometry, hpgeom, configuration)", "")

prop("C19", "Maps, tracts and patches are consistent sequences",
     "Length, iteration and indexing of a map, a tract or a patch describe the same members, each once, in number order, however "
     "iterations are interrupted, nested or repeated; a tract's number equals its place in the map. Indices past the end are "
     "refused with an index error, and the summary written to a log states the true number of tracts.",
     ["inputs", "configurations", "histories"], "all map kinds, traversal patterns, integer types",
     "Tests iterate once over small maps.", ["baseSkyMap.py", "cachingSkyMap.py", "tractInfo.py", "patchInfo.py", "ringsSkyMap.py"],
     [("sequence protocol", "cachingSkyMap.py:CachingSkyMap"), ("patches", "tractInfo.py:TractInfo.__iter__"),
      ("cells", "patchInfo.py:PatchInfo.__iter__")],
     ["members seen"], "traversal monitor with identity and order oracle", "Fixed one defect with C20 (numpy tract ids).")

prop("C20", "Registering a map records all of it, correctly",
     "After a sky map is registered in a data repository, the repository holds the map itself under its name, one summary with its "
     "digest, number of tracts and patch counts that suffice for every tract, and exactly one record for every tract and every "
     "patch with the right numbers, grid place and sky region. A new client reads back a map equal to the one registered, also "
     "after the map was used before being registered.",
     ["configurations", "inputs", "histories"], "all map kinds, one to three maps per repository, fresh or used",
     "No existing test registers a map; records are bulk-inserted per tract and depend on tracts of different size.",
     ["baseSkyMap.py", "packers.py", "healpixSkyMap.py"],
     [("register", "baseSkyMap.py:BaseSkyMap.register")],
     ["dimension records and dataset read back from a real repository"], "read-back monitor on real (sqlite) Butler repositories",
     "Fixed one defect (non-integers in the database). The Butler is trusted.")

prop("C21", "Registering is all or nothing, repeatable, and never alters a registered map",
     "If registration is interrupted at any point, by an error or by the death of the process, the repository holds either the "
     "whole map or nothing of it, and registering again completes it; registering the same map again, or by several processes at "
     "once, changes nothing. Registering a different map under a name in use, or the same map under another name, is refused "
     "and leaves the repository as it was.",
     ["fault_sequences", "crash_points", "schedules", "histories"],
     "every call made of the repository during registration, failing before or after, or killed; repeated and concurrent attempts",
     "No existing test registers a map, let alone interrupts it.", ["baseSkyMap.py"],
     [("transaction", "baseSkyMap.py:BaseSkyMap.register"), ("conflict check", "baseSkyMap.py:BaseSkyMap.register")],
     ["full contents of the repository by a new client"], "fault injection and kill at every repository call, state oracle",
     "The Butler's own transactions are trusted.", level="fault_enumeration")

prop("C22", "Packing data IDs into integers is one-to-one, reversible and stable",
     "Within the tracts, patches and bands a packer was made for, different data IDs pack to different non-negative integers of at "
     "most the stated number of bits, and unpacking an integer returns the data ID that packs to it, for any one-to-one band table "
     "(default, dense, sparse or in any order). The integers depend only on the configuration: not on the route by which the packer "
     "was made, later changes to the table it was given, what it or any other packer was asked before, or the process, and stay those of earlier releases.",
     ["inputs", "configurations", "histories"], "all tract, patch and band counts and tables, all routes of construction",
     "Tests pack one data ID per configuration.", ["packers.py"],
     [("pack", "packers.py:SkyMapDimensionPacker._pack"), ("unpack", "packers.py:SkyMapDimensionPacker.unpack"),
      ("bits", "packers.py:SkyMapDimensionPacker.maxBits")],
     ["packed integers and unpacked data IDs"], "exhaustive/random round-trip monitor against the published layout",
     "Fixed one defect (unpacking by table order).", state=[("inverse band table", "made at first unpack", "packers.py")])

prop("C23", "What a packer cannot represent it refuses",
     "A tract, patch or band outside the ranges a packer was made for, an unknown or missing band, or a data ID of another sky map "
     "is refused with an error rather than packed into an integer that means something else, and refusing leaves the packer working; an integer no data ID packs to is never unpacked to one that packs to another. "
     "A packer cannot be made for dimensions other than sky map, tract, patch and optionally band, nor without the counts it needs or, if it is to pack bands, room for any.",
     ["inputs", "configurations"], "all out-of-range values in every position, negative ones included, all routes of construction",
     "Tests try one or two values above the range.", ["packers.py"],
     [("range checks", "packers.py:SkyMapDimensionPacker._pack"), ("dimension checks", "packers.py:SkyMapDimensionPacker.__init__")],
     ["exceptions raised"], "negative-input monitor", "Fixed one defect (negative indices).")

prop("C24", "Configurations are checked, frozen by the map, and saved and restored exactly",
     "Once a map is built from a configuration, nothing in it can be changed by any name, and the map stays what it was. A "
     "configuration saved as text, file or pickle, or copied, or used through the registry, denotes the identical map when restored; "
     "old and new names of the patch settings are the same setting; and impossible values (rings, RA start, list lengths, cell and "
     "patch dimensions, projections) are refused when set, by validation, or when a map is made.",
     ["configurations", "inputs", "histories"], "all fields of all map kinds, all save/restore routes",
     "Tests set a few fields and check one digest.",
     ["baseSkyMap.py", "tractBuilder.py", "skyMapRegistry.py", "ringsSkyMap.py", "discreteSkyMap.py", "dodecaSkyMap.py",
      "equatSkyMap.py", "healpixSkyMap.py"],
     [("freeze", "baseSkyMap.py:BaseSkyMap.__init__"), ("old names", "baseSkyMap.py:BaseSkyMapConfig"),
      ("checks", "ringsSkyMap.py, discreteSkyMap.py, tractBuilder.py: validate and Field checks")],
     ["configuration text, exceptions, maps built"], "mutation-attempt and round-trip monitor", "")

prop("C25", "A position that cannot be projected is off the tract, never an error",
     "When a position cannot be projected onto a tract, however that is reported (no pixel, a runtime error or a domain error), "
     "the tract does not contain it, locating a patch raises a lookup error, and region queries answer as if the position were not "
     "in the list. Other positions of the query and all later queries are unaffected, and errors of any other kind are passed on.",
     ["fault_sequences", "inputs", "configurations"], "any subset of a query's positions failing for any or all tracts, three reports",
     "Tests do not make projections fail; with common projections it happens only on the far side of the sky.",
     ["tractInfo.py", "ringsSkyMap.py", "baseSkyMap.py"],
     [("error handling", "tractInfo.py:TractInfo.findPatch, findPatchList, contains")],
     ["answers and exceptions"], "fault injection at the projection call with differential oracle", "")

prop("C26", "Descriptions of tracts, patches and cells behave as values",
     "Two patches (cells) compare equal exactly when index, inner box, outer box and, for patches, number of cells and cell border agree, symmetrically "
     "and also after pickling or copying; an index is interchangeable with the pair of its numbers. Every attribute equals the "
     "accessor of the same meaning, text forms identify what they describe, and a patch or cell whose outer box does not hold its "
     "inner box, or with malformed cell dimensions, cannot be made.",
     ["inputs", "configurations"], "all pairs of patches and cells of maps that differ in one setting; all attributes",
     "Tests compare a patch with itself and one other.", ["patchInfo.py", "cellInfo.py", "tractInfo.py", "detail/utils.py"],
     [("equality", "patchInfo.py:PatchInfo.__eq__, cellInfo.py:CellInfo.__eq__"), ("attributes", "tractInfo.py properties")],
     ["comparison results, attributes, text"], "pairwise value oracle", "")

prop("C27", "Tracts are made on demand, once, and lookups make only nearby ones",
     "For ring, HEALPix and discrete maps, building, hashing, comparing, saving and restoring a map make no tract; asking for a tract "
     "or (ring and HEALPix maps) the owner of a position makes at most that one, vector lookups in ring maps make none, and no "
     "tract is made twice in one thread. Searches around a position in a ring map make only tracts near it and the polar caps, so "
     "maps of tens of thousands of tracts stay usable.",
     ["histories", "configurations", "inputs"], "random histories of operations on maps of 1 to 20000 tracts",
     "Tests check answers, not work done.", ["cachingSkyMap.py", "ringsSkyMap.py", "healpixSkyMap.py", "baseSkyMap.py"],
     [("tract cache", "cachingSkyMap.py:CachingSkyMap.__getitem__"), ("neighbour search", "ringsSkyMap.py:findAllTracts")],
     ["tracts constructed per operation"], "construction recorder with per-operation budget oracle", "",
     state=[("tract cache", "tracts made so far", "cachingSkyMap.py")])

prop("C28", "Map and patch-layout types of one's own get everything inherited right",
     "A map type written against the documented extension points (its own generateTract or list of tracts, findTract, updateSha1) or "
     "derived from a built-in one gets nearest-centre and array lookup, region queries, iteration, on-demand tracts, logging, "
     "pickling, equality and registration that agree with what the type itself says; a type is part of a map's identity. A tract "
     "that fails to be made raises the type's own error, is not kept, and can be made later. A registered tract builder decides "
     "grid, numbering, boxes and digest of any map that names it. What a type does not define raises NotImplementedError.",
     ["configurations", "inputs", "fault_sequences"],
     "types with their own tracts, owner rules, numbering and layouts under all settings; failures of any tract",
     "Tests define no types of their own; the base class is only exercised through the built-in maps.",
     ["baseSkyMap.py", "cachingSkyMap.py", "tractBuilder.py", "tractInfo.py", "skyMapRegistry.py"],
     [("inherited operations", "baseSkyMap.py:BaseSkyMap"), ("on-demand tracts", "cachingSkyMap.py:CachingSkyMap.__getitem__"),
      ("layout delegation", "tractInfo.py:TractInfo")],
     ["answers of inherited operations", "tracts made", "repository records"],
     "differential oracle: inherited operations against the type's own definitions, with injected failures", "")

prop("C29", "Work leaves nothing behind in the process",
     "Importing the package, and making, using, saving, copying and comparing maps, tracts, patches and packers leave the process as it "
     "was: numeric error handling, warning filters, random generators, environment, directories, locale, handlers, threads and open "
     "files; nothing is printed and no warning but deprecation is given. Answers do not depend on those settings. Maps, tracts, patches "
     "and packers no longer used are freed, and once all tracts are made further queries, wherever they are, keep no memory.",
     ["histories", "inputs", "configurations"], "all public operations on random maps and packers, under varied process settings",
     "Tests look at answers, not at the process they run in.",
     ["baseSkyMap.py", "cachingSkyMap.py", "ringsSkyMap.py", "healpixSkyMap.py", "tractInfo.py", "packers.py"],
     [("lookups", "baseSkyMap.py:BaseSkyMap"), ("tract cache", "cachingSkyMap.py:CachingSkyMap.__getitem__")],
     ["process-wide state", "output and warnings", "live objects and traced memory"],
     "process-state differ, weak references and allocation tracing around every operation", "")


prop("C30", "Solids, vectors, projections and box polygons are computed exactly",
     "The building blocks in lsst.skymap.detail hold for all arguments: a dodecahedron in either orientation has its 12 faces, the 5 "
     "corners of each in order round it, and the face of a vector of any length is the nearest; a vector and its sky coordinate are the "
     "same direction, at a pole with the default RA or else refused; a WCS factory gives the projection, scale, rotation and handedness "
     "asked for at every position and refuses names not of three letters; the sky polygon of an integer or real box has the sky "
     "positions of its outer corners. Arguments are not changed, and what is returned is the caller's to change.",
     ["inputs", "histories", "configurations"], "both orientations, all directions and lengths, projections, rotations, boxes",
     "Tests compare a few faces and corners; they change nothing they are given.",
     ["detail/dodecahedron.py", "detail/utils.py", "detail/wcsFactory.py", "healpixSkyMap.py"],
     [("solid", "detail/dodecahedron.py:Dodecahedron"), ("vectors", "detail/utils.py:coordFromVec"),
      ("WCS", "detail/wcsFactory.py:WcsFactory"), ("polygon", "detail/utils.py:makeSkyPolygonFromBBox")],
     ["returned vectors, coordinates, WCS and polygons"],
     "geometric oracle (regular solid, wcslib), returned arrays overwritten between calls", "")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"],
                                                           hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[
        dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"],
             thorough_cmd="bash /verif/check.sh %s thorough" % p["id"], technique="runtime monitoring: " + p["technique"],
             level=p["level"], level_note=(TRUST if p["id"] not in ("C22", "C23") else
                                           "Runtime monitoring of the real code on generated workloads, with the real Butler "
                                           "library: what is claimed is what was executed. ") + p["note"])
        for p in P], not_applicable=NA,
        notes="Hooks: none. The package is pure Python without native code or locks, so compiler sanitizers have nothing to "
              "instrument; monitors run in the harness. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
