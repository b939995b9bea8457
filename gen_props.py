#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays well formed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Encoding a cell's center returns that cell",
  "For every valid cell, of any resolution 0 to 15, hexagon or pentagon, the center reported for the cell, encoded at the cell's own resolution, gives back exactly the same cell index.",
  ["inputs"],"all valid cells at all 16 resolutions (5.7e14 at the finest)",
  "The suite round-trips four fixed cells; a wrong table entry, rotation or carry at one base cell, face edge, digit or resolution passes it.",
  ["h3_index.rs","face_ijk.rs","coord_ijk.rs","base_cells.rs","lat_lng.rs"],
  [("cellToLatLng / _h3ToFaceIjk","h3_index.rs"),("latLngToCell / _faceIjkToH3","h3_index.rs"),("_adjustOverageClassII","face_ijk.rs"),("faceIjkBaseCells","base_cells.rs")],
  ["latLngToCell(cellToLatLng(c), res(c)) == c"])
p("C02","Every finite coordinate encodes to a valid cell of the asked resolution",
  "Encoding any coordinate whose latitude and longitude are finite, however large, at a resolution from 0 to 15 succeeds and yields a valid cell index of exactly that resolution. A resolution outside 0..15 is always reported as a resolution-domain error, and otherwise a NaN or infinite latitude or longitude is always reported as a coordinate-domain error; encoding never panics.",
  ["inputs"],"all pairs of f64 coordinates (finite or not) and all i32 resolutions",
  "Three extreme coordinates at three resolutions are encoded and their results discarded; error cases are not tested.",
  ["h3_index.rs","face_ijk.rs","vec3d.rs","coord_ijk.rs"],
  [("latLngToCell argument checks","h3_index.rs"),("_geoToClosestFace","face_ijk.rs"),("_hex2dToCoordIJK","coord_ijk.rs")],
  ["latLngToCell(g, res)","isValidCell"])
p("C03","A point is assigned to the cell that geometrically contains it",
  "The cell an encoded point is assigned to is the one whose hexagon (or pentagon) on the H3 icosahedral grid contains the point, at every resolution and everywhere on the sphere: at the poles, the antimeridian, the edges, corners and centers of icosahedron faces, and right up to the cell's boundary within floating-point accuracy. Neighboring points on different sides of a cell boundary are therefore assigned to different cells, with no gaps or overlaps.",
  ["inputs"],"all points of the sphere at all 16 resolutions (up to floating-point ambiguity at cell boundaries)",
  "No test checks which cell a point that is not a cell center belongs to.",
  ["h3_index.rs","face_ijk.rs","coord_ijk.rs","base_cells.rs","vec3d.rs","lat_lng.rs"],
  [("_geoToHex2d","face_ijk.rs"),("_hex2dToCoordIJK rounding and folding","coord_ijk.rs"),("_faceIjkToH3","h3_index.rs"),("faceIjkBaseCells","base_cells.rs")],
  ["latLngToCell(g, res)"])
p("C04","Cell centers lie where the H3 grid puts them",
  "For every valid cell, the reported center is the point of the sphere that the H3 grid definition assigns to that index (the position given by the base cell, the digit path and the gnomonic projection of the icosahedron face), to within floating-point accuracy, with latitude in [-pi/2, pi/2] and longitude in [-pi, pi]. Distinct cells of a resolution therefore have distinct centers.",
  ["inputs"],"all valid cells at all 16 resolutions",
  "Four fixed cells are compared with recorded centers.",
  ["h3_index.rs","face_ijk.rs","coord_ijk.rs","base_cells.rs","lat_lng.rs"],
  [("_h3ToFaceIjk","h3_index.rs"),("_adjustOverageClassII, faceNeighbors","face_ijk.rs"),("_hex2dToGeo","face_ijk.rs"),("_geoAzDistanceRads","lat_lng.rs")],
  ["cellToLatLng(c)"])
p("C05","Equivalent coordinates encode to the same cell",
  "Coordinates that name the same point of the sphere encode to the same cell at every resolution: adding or subtracting whole turns to the longitude, going over the pole (pi - lat, lng + pi), writing a signed zero, or giving any longitude at a pole, changes nothing for points that are not within rounding error of a cell boundary.",
  ["inputs"],"all points of the sphere, all equivalent spellings, all resolutions",
  "The suite never encodes the same point in two spellings.",
  ["h3_index.rs","face_ijk.rs","vec3d.rs","lat_lng.rs"],
  [("_geoToVec3d / _geoToClosestFace","face_ijk.rs"),("_geoAzimuthRads, _posAngleRads","lat_lng.rs")],
  ["latLngToCell(g, res) == latLngToCell(g', res)"])
p("C06","Cell validation accepts exactly the well-formed cell indexes",
  "An arbitrary 64-bit value is accepted as a cell exactly when: the high bit is 0, the mode is cell, the reserved bits are 0, the base cell is 0..121, every digit up to the resolution is 0..6, every digit beyond it is 7, and on a pentagon base cell the first non-zero digit is not 1. Validation answers for every 64-bit value without panicking.",
  ["inputs"],"all 2^64 values",
  "Validation is only ever asked about 16 cells that are valid; no malformed value is tried.",
  ["h3_index.rs","base_cells.rs"],
  [("isValidCell","h3_index.rs"),("_isBaseCellPentagon","base_cells.rs")],
  ["isValidCell(h)"])
p("C07","Each resolution has 2+120*7^r cells, 12 of them pentagons",
  "There are exactly 122 resolution-0 cells, listed once each by the base-cell enumeration, and their valid descendants number 2 + 120*7^r at every resolution r. Exactly 12 cells per resolution are pentagons - the center descendants of the 12 pentagonal base cells - and the pentagon test, the resolution query and the count of distinct neighbors (5 versus 6) agree on that for every valid cell.",
  ["inputs"],"all valid cells at all 16 resolutions",
  "The suite checks the first and last base cell only and never the pentagon test.",
  ["h3_index.rs","base_cells.rs","algos.rs"],
  [("getRes0Cells, res0CellCount","base_cells.rs"),("isPentagon, getResolution","h3_index.rs"),("baseCellData.isPentagon","base_cells.rs")],
  ["getRes0Cells","isPentagon","getResolution","cellToChildrenSize summed over base cells"])
p("C08","Child enumeration yields exactly the descendants, once each, in order",
  "For every valid cell and every resolution from its own to 15, enumerating its children (as a list or through the iterator) yields exactly the valid cells of that resolution that descend from it, each once, in strictly increasing index order, hexagons and pentagons alike, and then ends for good. For a resolution coarser than the cell's or outside 0..15 the enumeration is empty.",
  ["inputs","histories"],"all valid cells x all child resolutions; all steps of the iteration",
  "Two hexagons are enumerated one and two levels deep; no pentagon, no deeper level, no step past the end.",
  ["iterators.rs","h3_index.rs"],
  [("IterCellsChildren::from_parent / next","iterators.rs"),("_zeroIndexDigits","h3_index.rs"),("cellToChildren","h3_index.rs")],
  ["cellToChildren(h, res)","IterCellsChildren"],
  [{"name":"h, _skipDigit","meaning":"current child; resolution at which the deleted digit is skipped next","where":"src/iterators.rs"}])
p("C09","Child counts are exact at every depth",
  "For every valid cell and every child resolution from its own to 15, the reported number of children equals the true number of descendants: 7^n for a hexagon and 1 + 5*(7^n - 1)/6 for a pentagon, n levels down, up to the full depth of 15 levels. A child resolution coarser than the cell's or greater than 15 gives a resolution-domain error.",
  ["inputs"],"all valid cells x all i32 child resolutions",
  "Sizes are tested for one hexagon and one pentagon at most two levels down.",
  ["h3_index.rs"],
  [("cellToChildrenSize, _hasChildAtRes","h3_index.rs")],
  ["cellToChildrenSize(h, res)"])
p("C10","Child positions index the ordered child enumeration",
  "For every valid cell and child resolution, the child at position p is the p-th cell of the ordered child enumeration, for every p from 0 to the child count minus 1, for hexagons and pentagons, at every depth. A negative position or one not below the count gives a domain error, a child resolution outside 0..15 a resolution-domain error, and one coarser than the cell's a resolution-mismatch error.",
  ["inputs"],"all valid cells x all child resolutions x all i64 positions",
  "Position lookup has no test at all.",
  ["h3_index.rs"],
  [("childPosToCell, validateChildPos","h3_index.rs")],
  ["childPosToCell(p, h, res)"])
p("C11","The cell hierarchy agrees with the encoding of points",
  "For every valid cell, its center encoded at any finer resolution gives its center descendant (all further digits zero), and the center of every immediate child, encoded at the parent's resolution, gives the parent. A cell and its center descendants report the same center point, up to floating-point accuracy.",
  ["inputs"],"all valid cells, all finer resolutions, all immediate children",
  "No test relates encoding at one resolution to encoding at another.",
  ["h3_index.rs","face_ijk.rs","coord_ijk.rs"],
  [("_upAp7 / _downAp7 and their clockwise versions","coord_ijk.rs"),("_faceIjkToH3","h3_index.rs")],
  ["latLngToCell","cellToLatLng","cellToChildren"])
p("C12","A cell's neighbors are exactly the cells that share an edge with it",
  "For every valid cell of every resolution, moving in the six directions (five for a pentagon) reaches exactly the valid cells of the same resolution that share an edge with it on the icosahedral grid, all distinct and different from the cell, including across base cells, icosahedron faces and around pentagons. The relation is symmetric: a cell is a neighbor of each of its neighbors.",
  ["inputs"],"all valid cells x all directions at all 16 resolutions",
  "One hexagon's ring and two base-cell disks are compared; carries past one digit and pentagon distortion are not.",
  ["algos.rs","base_cells.rs","h3_index.rs"],
  [("h3NeighborRotations","algos.rs"),("NEW_DIGIT_II/III, NEW_ADJUSTMENT_II/III","algos.rs"),("baseCellNeighbors, baseCellNeighbor60CCWRots","base_cells.rs"),("_h3RotatePent60ccw","h3_index.rs")],
  ["h3NeighborRotations(c, d, 0)"])
p("C13","Directions label moves consistently",
  "For every valid cell and each of its neighbors, the direction reported from the cell to the neighbor is the one whose move reaches it, and no direction is reported for any other cell. Starting a move with k turns already applied is the same as moving in the direction turned k times counter-clockwise, with the turns carried over; the turns reported after a move onto a hexagon are those that keep a straight path straight, so moving on in the turned opposite direction leads back.",
  ["inputs","histories"],"all valid cells x directions x initial turns (0..5); all walks",
  "The reported turns and the direction lookup are only used indirectly, around one San Francisco cell.",
  ["algos.rs","coord_ijk.rs","base_cells.rs"],
  [("directionForNeighbor","algos.rs"),("rotations argument of h3NeighborRotations","algos.rs"),("baseCellNeighbor60CCWRots","base_cells.rs"),("_rotate60ccw","coord_ijk.rs")],
  ["directionForNeighbor","h3NeighborRotations"])
p("C14","Grid disks contain exactly the cells within k steps, with true distances",
  "For every valid cell and radius k, the grid disk lists every cell reachable in at most k neighbor steps, and no other, exactly once each, with its exact minimum number of steps, including disks that contain or touch pentagons, cross faces, or wrap around the whole globe.",
  ["inputs"],"all valid cells x all radii k",
  "Two disks of radius 1 at resolution 0 are tested; the slow path beyond one step, and distances above 1, are never exercised.",
  ["algos.rs"],
  [("gridDiskDistances fallback","algos.rs"),("_gridDiskDistancesInternal hash set","algos.rs"),("gridDiskDistancesUnsafe","algos.rs")],
  ["gridDiskDistances(c, k)"],
  [{"name":"out","meaning":"open-addressing table of cells and best known distance","where":"src/algos.rs"}])
p("C15","The fast grid disk is exact or reports a pentagon",
  "For every valid cell and radius k, the fast disk either returns every cell within k steps exactly once with its true distance, in order of non-decreasing distance starting with the cell itself, or reports the pentagon error. It reports the pentagon error if and only if a pentagon lies within k steps.",
  ["inputs"],"all valid cells x all radii k",
  "The fast disk is only reached through two radius-1 disks.",
  ["algos.rs"],
  [("gridDiskDistancesUnsafe","algos.rs"),("h3NeighborRotations rotations","algos.rs")],
  ["gridDiskDistancesUnsafe(c, k)"])
p("C16","Hollow rings are exact or report a pentagon",
  "For every valid cell and radius k, the hollow ring either returns exactly the cells at distance k (6k of them, just the cell itself for k = 0), each once and in walking order so that consecutive cells and the last and first are neighbors, or reports the pentagon error. When no pentagon lies within k steps it always succeeds, and when it succeeds with k >= 1 no pentagon lies within k steps.",
  ["inputs"],"all valid cells x all radii k",
  "One ring of radius 1 and one of radius 2 are computed and only their first cell is used.",
  ["algos.rs"],
  [("gridRingUnsafe closing check","algos.rs"),("h3NeighborRotations rotations","algos.rs")],
  ["gridRingUnsafe(c, k)"])
p("C17","Directed edges stand one-to-one for ordered pairs of neighbors",
  "For every ordered pair of neighboring valid cells there is exactly one directed edge; it decomposes into exactly that origin and destination, and it is the same edge that the origin's edge list holds. Building an edge between cells that are not neighbors (including a cell and itself, cells of different resolutions, or cells two steps apart) gives the not-neighbors error, and decomposing an index that is not in directed-edge mode gives the directed-edge error.",
  ["inputs"],"all ordered pairs of valid cells",
  "One pair of neighbors and one pair of non-neighbors at resolution 9 are tested.",
  ["directed_edge.rs","algos.rs"],
  [("cellsToDirectedEdge","directed_edge.rs"),("getDirectedEdgeOrigin / getDirectedEdgeDestination / directedEdgeToCells","directed_edge.rs"),("directionForNeighbor","algos.rs")],
  ["cellsToDirectedEdge","directedEdgeToCells","getDirectedEdgeOrigin","getDirectedEdgeDestination"])
p("C18","Edge validation and edge lists accept exactly the real edges",
  "A 64-bit value is accepted as a directed edge exactly when its mode is directed edge, its direction field is 1..6, the rest forms a valid cell, and the direction is not 1 when that cell is a pentagon. The edge list of a valid cell holds six entries: its distinct valid edges, one per direction, with the null index standing in for the missing one of a pentagon.",
  ["inputs"],"all 2^64 values; all valid cells",
  "Six valid edges of one hexagon are checked; no malformed edge and no pentagon.",
  ["directed_edge.rs","h3_index.rs"],
  [("isValidDirectedEdge","directed_edge.rs"),("originToDirectedEdges","directed_edge.rs")],
  ["isValidDirectedEdge(h)","originToDirectedEdges(c)"])
p("C19","Index bit fields are independent and lossless",
  "In a 64-bit index the high bit, mode, reserved bits, resolution, base cell and each of the 15 digits are separate fields: reading returns what was last written, writing any in-range value to one field changes no other, and building an index from a resolution, base cell and digit yields exactly those fields in cell mode with unused digits set to 7.",
  ["inputs","histories"],"all 2^64 prior values x all fields x all in-range values; all sequences of writes",
  "The accessors are used but never checked for interference.",
  ["h3_index.rs"],
  [("H3_GET_* / H3_SET_*","h3_index.rs"),("setH3Index","h3_index.rs"),("mask and offset constants","h3_index.rs")],
  ["H3_GET_*","H3_SET_*","setH3Index"])
p("C20","Spherical helpers agree with great-circle geometry",
  "Traveling a distance along an azimuth from a point (not a pole) ends at the point of the sphere that great-circle geometry gives, and the azimuth and coordinate-to-vector helpers agree with it. Longitude normalization returns the same angle modulo a full turn within [-pi, pi], latitude normalization brings values above pi/2 down by half turns, positive-angle normalization returns the same angle modulo a full turn within [0, 2 pi], the almost-equal tests compare both coordinates strictly against the threshold, and setting a coordinate stores each angle, given in degrees or radians, in radians.",
  ["inputs"],"all finite coordinates, azimuths, distances and angles",
  "lat_lng.rs and vec3d.rs have no tests.",
  ["lat_lng.rs","vec3d.rs","vec2d.rs"],
  [("_geoAzDistanceRads, _geoAzimuthRads","lat_lng.rs"),("constrainLng, constrainLat, _posAngleRads","lat_lng.rs"),("_geoToVec3d, _pointSquareDist","vec3d.rs")],
  ["_geoAzDistanceRads","_geoAzimuthRads","constrainLng","constrainLat","_posAngleRads","geoAlmostEqualThreshold","_geoToVec3d"])
p("C21","Results depend only on the arguments, not on earlier calls",
  "Every query returns the same result for the same arguments whatever calls were made before it in the process, in any order, and child iterators that are advanced in any interleaving each yield the sequence they would yield alone.",
  ["histories","schedules"],"all sequences of library calls; all interleavings of iterator steps",
  "Each test makes a few calls in one fixed order; a stale cache or shared cursor is invisible to them.",
  ["h3_index.rs","algos.rs","iterators.rs","directed_edge.rs"],
  [("absence of shared mutable state","lib.rs"),("per-iterator state","iterators.rs")],
  ["all public queries"])
p("C22","Malformed indexes never crash or hang a query",
  "Given any 64-bit value whatsoever as an index, valid or not, every public query (validation, resolution, pentagon test, center, neighbors and directions, disks and rings, child counts, child enumeration, child positions, edges) terminates with a value or an error and never panics. An index whose base cell is not 0..121 is rejected with the cell-invalid error by the center query and by every neighbor move.",
  ["inputs"],"all 2^64 values x all queries (small radii, shallow child depths)",
  "The suite passes one malformed edge and no malformed cell to any query.",
  ["h3_index.rs","algos.rs","directed_edge.rs","iterators.rs","face_ijk.rs"],
  [("base cell range checks","h3_index.rs"),("invalid-digit check in h3NeighborRotations","algos.rs"),("IterCellsChildren::from_parent guard","iterators.rs")],
  ["all public queries on malformed indexes"])
p("C23","The grid disk size bound is exact and never too small",
  "For every radius k the reported maximum disk size is 3k(k+1)+1 or, where that would be more, the number of cells on the globe at the finest resolution (569707381193162); it never overflows. Every disk of radius k has at most that many cells, and exactly that many when no pentagon lies within k steps.",
  ["inputs"],"all u32 radii; all valid cells",
  "The formula is only used internally, with k = 1.",
  ["algos.rs"],
  [("maxGridDiskSize","algos.rs")],
  ["maxGridDiskSize(k)","gridDiskDistances(c, k).len()"])
p("C24","Index rotations turn a cell about its base cell's center",
  "For every valid cell, rotating its index counter-clockwise by 60 degrees turns every digit up to the resolution to the next one counter-clockwise and changes nothing else, clockwise likewise, so that the two undo each other and six turns give the cell back. On a pentagon base cell the pentagon rotations map valid cells one-to-one to valid cells of the same resolution and base cell: the result's center is the cell's center turned by 72 degrees about the pentagon, the two directions undo each other, and five turns give the cell back. The leading digit of an index is its first non-zero digit.",
  ["inputs"],"all valid cells, all resolutions",
  "No test calls the rotations directly; those reached through other tests see a few digit paths.",
  ["h3_index.rs","coord_ijk.rs"],
  [("_h3Rotate60ccw, _h3Rotate60cw","h3_index.rs"),("_h3RotatePent60ccw, _h3RotatePent60cw","h3_index.rs"),("_rotate60ccw, _rotate60cw","coord_ijk.rs"),("_h3LeadingNonZeroDigit","h3_index.rs")],
  ["_h3Rotate60ccw(c)","_h3Rotate60cw(c)","_h3RotatePent60ccw(c)","_h3RotatePent60cw(c)","_h3LeadingNonZeroDigit(c)"])
p("C25","Base cell data agree with the icosahedral grid",
  "For every 32-bit number the pentagon and polar-pentagon tests hold exactly for the 12 pentagonal base cells and for the two of them that all neighbors are oriented towards. For each of the 122 base cells the listed home face and position, the neighbor in each direction (none in the deleted direction of a pentagon) and, for hexagons, the turns between the two orientations are those of the grid, and every base cell position on each of the 20 faces is looked up to the base cell lying there with the right orientation.",
  ["inputs"],"all base cells, directions, faces and positions; all 32-bit numbers",
  "One test compares the pentagon test with a list; the tables are otherwise exercised by a few cells.",
  ["base_cells.rs"],
  [("baseCellData, baseCellNeighbors, baseCellNeighbor60CCWRots","base_cells.rs"),("faceIjkBaseCells, _faceIjkToBaseCell","base_cells.rs"),("_isBaseCellPentagon, _isBaseCellPolarPentagon","base_cells.rs")],
  ["_isBaseCellPentagon(b)","_isBaseCellPolarPentagon(b)","_faceIjkToBaseCell(f)","baseCellNeighbors[b][d]"])
p("C26","Face addresses are exact and lead back to their cells",
  "The face address of every valid cell names one of the 20 faces and a normalized lattice position on that face (within its edges or on them), which is exactly where the center of the cell lies, and turning the address back gives the cell. Every lattice position on every face at every resolution turns into the one cell centered there; a position so far off the face that its base cell position exceeds 2 in a coordinate gives the null index. Following a cell's digits down from the position of its base cell gives its unfolded position, and says that the cell may lie off the home face whenever it does. A resolution is class III exactly when it is odd.",
  ["inputs"],"all valid cells; all lattice positions of the 20 faces at 16 resolutions; all i32 resolutions",
  "No test looks at a face address; the suite reaches a few through coordinates of a few places.",
  ["h3_index.rs","face_ijk.rs","coord_ijk.rs"],
  [("_faceIjkToH3, _h3ToFaceIjk, _h3ToFaceIjkWithInitializedFijk, isResolutionClassIII","h3_index.rs"),("_adjustOverageClassII","face_ijk.rs"),("_upAp7, _upAp7r, _downAp7, _downAp7r, _ijkNormalize, _unitIjkToDigit","coord_ijk.rs")],
  ["_h3ToFaceIjk(c)","_faceIjkToH3(address, res)","_h3ToFaceIjkWithInitializedFijk(c, address)","isResolutionClassIII(res)"])
p("C27","Index digit helpers read and change exactly the digits they name",
  "For every 64-bit value: clearing a range of digits sets exactly those digits to zero and leaves every other bit; its leading digit is the first non-zero digit up to its resolution, or 0; the 60 degree rotations turn exactly the digits 1..6 up to the resolution; the pentagon rotations change digits only and never panic; the test for children at a resolution holds exactly from its own resolution to 15; its face address is an error when its base cell is above 121. The digits a child iterator shows are those of the cell it yields next, stepping one of them changes that digit alone, and the empty iterator yields nothing.",
  ["inputs"],"all 2^64 values x all digit ranges, rotations and i32 child resolutions; all iterators",
  "The helpers are only reached through other calls, with well-formed cells.",
  ["h3_index.rs","iterators.rs"],
  [("_zeroIndexDigits, _hasChildAtRes, _h3LeadingNonZeroDigit, _h3Rotate60ccw, _h3Rotate60cw","h3_index.rs"),("_getResDigit, _incrementResDigit, _null_iter","iterators.rs")],
  ["_zeroIndexDigits(h, start, end)","_hasChildAtRes(h, res)","_h3LeadingNonZeroDigit(h)","_h3Rotate60ccw(h)","_h3Rotate60cw(h)","IterCellsChildren"])
p("C28","Calls running at the same time do not influence each other",
  "Any two calls that run at the same time in two threads return exactly what each returns alone, wherever one is interrupted by the other, and neither changes what later calls return or waits for the other forever.",
  ["inputs","schedules"],"all pairs of public calls; all interleavings of two threads",
  "The suite never runs two calls of its choice at once, and no test controls the scheduler; a shared scratch or memo goes wrong in a window of a few instructions.",
  ["h3_index.rs","algos.rs","directed_edge.rs","face_ijk.rs","coord_ijk.rs","iterators.rs","lat_lng.rs","base_cells.rs"],
  [("every public function","h3_index.rs"),("every public function","algos.rs"),("every public function","directed_edge.rs")],
  ["call || call"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
