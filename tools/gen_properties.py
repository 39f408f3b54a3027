#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe] if isinstance(observe,str) else observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HB = ["src/mesh/mesh/builder.rs", "src/halfedge/mesh/builder/builder.rs", "src/halfedge/mesh/builder/semi.rs",
      "src/halfedge/mesh/builder/halfedge.rs", "src/halfedge/mesh/builder/vertex.rs"]
p("S01", "Meshes stay structurally valid after every sequence of construction operations",
  "Starting from an empty mesh, every sequence of permitted construction operations (adding vertices and edges, splitting and closing faces, removing faces, splitting edges) leaves a structurally consistent mesh: twins and next/previous links are mutual inverses, every element reference points to a live element, every vertex and face is represented by an incident edge of its own, and all edges of one loop carry the same face. The library's own consistency check accepts such a mesh when additionally every edge borders a face and every face has at least three edges, and rejects a mesh in which such a link has been broken. Operations that report that they are not possible leave the mesh unchanged.",
  ["histories", "inputs"], "all sequences of builder operations with all argument choices, from the empty mesh",
  "Tests build a handful of fixed shapes; an inconsistent link shows only after particular operation orders, deletions and re-insertions.",
  HB + ["src/halfedge/mesh/check.rs", "src/halfedge/edge/halfedge.rs"],
  [("builder operations", "src/mesh/mesh/builder.rs, src/halfedge/mesh/builder/*.rs"), ("topology check", "src/halfedge/mesh/check.rs"), ("half-edge storage", "src/halfedge/edge/halfedge.rs")],
  "ids, next/prev/twin/face/origin of every edge, representative edges of vertices and faces through the public accessors; the verdict of the library's topology check",
  [("half-edge mesh", "half-edges with next/prev/twin/origin/face, vertices and faces with a representative edge")])
p("S02", "Each construction operation makes exactly the specified topological change",
  "Every construction operation has exactly its documented effect on the combinatorial structure (which corners a new edge is inserted at, which loop gets which face, which element ids are returned) and changes nothing else: all unrelated links, payloads, positions and ids stay as they were. Closing a face gives the face precisely the boundary loop it was asked to close; removing a face makes precisely that loop boundary again. Returned ids denote the elements just created, with the documented orientation.",
  ["histories", "inputs"], "all operation sequences with all argument choices, from the empty mesh, against a reference combinatorial map",
  "Tests assert counts after one particular sequence; a wrong corner choice gives a valid but different mesh, visible only in particular configurations (several boundary corners, inner vs outer loop).",
  HB + ["src/halfedge/mesh/builder/path.rs"],
  [("edge insertion", "src/halfedge/mesh/builder/builder.rs, semi.rs"), ("path and loop insertion", "src/mesh/mesh/builder.rs"), ("face closing", "src/halfedge/mesh/builder/*.rs")],
  "complete connectivity after each operation compared with a reference model executing the same operation",
  [("combinatorial map", "next permutation, twin involution, origins and face labels")])
p("S03", "Soft-deleting storage never confuses, loses or resurrects elements",
  "The slot storage used for vertices, edges and faces behaves like a map from ids to elements: an element keeps its id until deleted, a freed id may be reused but never while it is live, lookups and iteration show exactly the live elements in id order, and counts and capacity are exact. Removing or addressing a missing element, or filling an occupied slot, is rejected rather than silently accepted.",
  ["histories"], "all sequences of push, set, delete, allocate and clear up to the depth bound",
  "Existing tests run a few short hand-picked sequences; id reuse bugs need particular delete / re-insert orders.",
  ["src/util/deletable.rs"], [("slot storage and free list", "src/util/deletable.rs")],
  "results of get, has, iter, len, capacity, next free id, push, delete", [("slots", "occupied/free slots plus the list of free slots")])
p("S04", "Queries and iterators report exactly the mesh's connectivity",
  "For every mesh the navigation queries agree with the underlying connectivity: iteration around a face or loop visits each of its edges exactly once in order, iteration around a vertex visits each outgoing and incoming edge and each incident face exactly once, and size hints are exact at every stage of iteration. Degree, triangle, boundary, openness, shared edge, shared vertex, shared face, component, connectivity and count queries give the values computed from the raw links.",
  ["inputs", "histories"], "all meshes reachable by bounded construction sequences and all arguments of each query",
  "Tests query a few regular shapes; wrong answers appear for isolated vertices, degree-one vertices, several boundary loops, double adjacency.",
  ["src/halfedge/edge/iterator.rs", "src/halfedge/vertex/iterator.rs", "src/halfedge/vertex/basics.rs", "src/halfedge/edge/basics.rs", "src/halfedge/face/mod.rs", "src/halfedge/mesh/basics.rs", "src/mesh/mesh/basics.rs", "src/mesh/mesh/halfedge.rs", "src/mesh/mesh/topology.rs", "src/mesh/edge/basics.rs", "src/mesh/face/basics.rs", "src/mesh/vertex/basics.rs", "src/halfedge/mesh/pseudo_winged.rs"],
  [("face/loop iterator", "src/halfedge/edge/iterator.rs"), ("vertex iterator", "src/halfedge/vertex/iterator.rs"), ("mesh queries", "src/mesh/mesh/basics.rs, src/halfedge/mesh/basics.rs")],
  "sequences produced by the iterators and answers of the queries, compared with raw links")
p("S05", "Flipping swaps the two directions of edges and nothing else",
  "Flipping an edge exchanges its two directed halves: each half's id and payload afterwards belongs to the opposite direction, and apart from this exchange every vertex, position, face, loop and adjacency is unchanged and the mesh stays valid. Flipping the whole mesh does this for every edge exactly once, whether or not edges have end vertices of degree one. Flipping twice restores the original mesh, and the copying variant leaves its source untouched.",
  ["inputs", "histories"], "all edges of all meshes reachable by bounded construction sequences",
  "Tests flip closed regular solids only; edges with degree-one endpoints or isolated edges take different paths.",
  ["src/halfedge/edge/halfedge.rs", "src/mesh/mesh/halfedge.rs", "src/mesh/edge/halfedge.rs"],
  [("edge flip", "src/halfedge/edge/halfedge.rs"), ("mesh flip", "src/mesh/mesh/halfedge.rs")],
  "connectivity before and after")
p("S06", "Splitting an edge inserts exactly the given vertices in order",
  "Splitting an edge by a list of new vertices replaces it by a chain through exactly these vertices in the given order from its origin to its target, on both sides; every other edge, the faces on both sides, the degrees and edge order around all old vertices are unchanged, and the mesh stays valid. This holds for every edge, whatever the degree of its endpoints. An empty list leaves the mesh as it was.",
  ["inputs", "histories"], "every edge of every mesh reachable by bounded construction sequences, with zero to three new vertices",
  "No test splits an edge next to an end vertex of degree other than two.",
  ["src/mesh/mesh/builder.rs", "src/halfedge/mesh/builder/halfedge.rs", "src/halfedge/mesh/builder/subdivision.rs"],
  [("insert vertices into edge", "src/mesh/mesh/builder.rs"), ("raw edge insertion", "src/halfedge/mesh/builder/halfedge.rs")],
  "connectivity and positions before and after")
p("S07", "Extruding and hole filling build exactly the expected faces",
  "Extruding a face or boundary loop produces one ring of side faces per segment around that loop plus an end cap, with the new vertices at the transformed positions; tapering to an apex produces one triangle per boundary edge. All pre-existing faces, vertices and positions remain (except the extruded face, which is replaced), the result is valid, and each old edge of the loop borders exactly one new side face with consistent orientation. Extruding the whole open boundary or all faces of a mesh does the same for every such loop.",
  ["inputs", "histories"], "all faces and boundary loops of all bounded meshes, all extrusion variants and several transforms",
  "Tests extrude one polygon and compare counts; misplaced caps, skipped loops or wrong start edges on irregular loops are not seen.",
  ["src/operations/extrude.rs", "src/operations/loft.rs"],
  [("extrude", "src/operations/extrude.rs"), ("apex fill", "src/operations/extrude.rs"), ("loft", "src/operations/loft.rs")],
  "connectivity and positions before and after")
p("S08", "Lofting attaches the documented strip of polygons to a boundary",
  "Lofting along a boundary attaches exactly the documented pattern of triangles, quads or larger polygons between consecutive boundary edges and the given new vertices: every generated face uses the expected boundary vertices and new vertices in order, consistently oriented with the existing mesh, and no other face or vertex is changed. Closed lofts join the last polygon to the first; open lofts leave a gap there. The returned edge belongs to the new boundary next to the first inserted vertex: it joins that vertex to the boundary vertex it hangs on (triangle strips) or to the second inserted vertex (polygon strips and closed forward triangle strips).",
  ["inputs"], "all strip kinds, open and closed, boundary lengths and vertex counts within bounds",
  "Tests only loft in one configuration per kind; off-by-one errors at the first or last polygon need other lengths.",
  ["src/operations/loft.rs"], [("loft variants", "src/operations/loft.rs")], "connectivity and positions before and after")
p("S09", "Subdivision refines every face into the prescribed pattern",
  "Frequency subdivision of a triangle mesh (frequency n a power of two) splits each triangle into exactly n squared triangles with the new vertices at the interpolated positions, shared between neighbouring faces, keeping orientation, validity, openness and Euler characteristic. Loop subdivision splits each triangle into four with one new vertex per edge, and keeps validity for closed and open meshes alike. Original vertices survive.",
  ["inputs", "configurations"], "triangle meshes within bounds (all small closed and open triangulations) and all supported frequencies",
  "Tests subdivide one or two solids and compare counts.",
  ["src/operations/subdivision.rs", "src/halfedge/mesh/builder/subdivision.rs"], [("subdivision", "src/operations/subdivision.rs")],
  "faces as vertex cycles, positions, Euler characteristic")
p("S10", "Every primitive is valid, complete and outward oriented",
  "For all admissible parameters each primitive constructor yields a structurally valid mesh with the combinatorially expected number of vertices, edges and faces, face sizes and Euler characteristic; solids are closed. Positions meet the specified dimensions (edge length, radius, height, size) and solid faces are oriented consistently, turned outward for the closed primitives (for given corners: when the second polygon or the apex lies on the side from which the base corners run counter-clockwise), so that the enclosed volume is positive. A dihedron has both sides of its polygon as faces. Nothing panics for admissible parameters.",
  ["configurations", "inputs"], "all primitive constructors with all parameter combinations within bounds",
  "Tests construct a few parameter choices and only check validity and Euler characteristic.",
  ["src/primitives/misc.rs", "src/primitives/plane.rs", "src/primitives/polygon.rs", "src/primitives/prismatoid.rs", "src/primitives/sphere.rs", "src/halfedge/primitives/mod.rs"],
  [("primitive constructors", "src/primitives/*.rs")], "counts, face sizes, positions, signed volume of the resulting mesh")
p("S11", "The path builder draws exactly the requested path",
  "A path builder driven by any sequence of drawing commands (start or move, straight lines, quadratic and cubic curves, to new or existing vertices, close) adds exactly one vertex per commanded new point at its position and exactly one edge per command, between consecutive points in order, with the commanded curve type and control points on the drawn edge. Its current and start vertex and edges are always those of the drawn path, and it reports a face only when there is one. Closing a path joins it to its start, with a straight edge if it is still open, and yields exactly one face whose boundary is that path; returning to the start vertex closes the path without an extra vertex. Inserting a whole path or loop does the same at once. The resulting mesh is valid.",
  ["histories"], "all command sequences up to the depth bound over a small set of points",
  "Tests draw only fixed straight paths through other code; curves, existing vertices and both ways of closing are unexplored.",
  ["src/mesh/mesh/path_builder.rs"], [("path builder", "src/mesh/mesh/path_builder.rs")],
  "positions, connectivity and curve types of the built mesh; cursor", [("cursor", "current edge, start of path, pending commands")])
p("S12", "Curved edges evaluate and flatten to their defining curves",
  "A curved edge evaluates at every parameter to the point of the straight line, quadratic or cubic Bezier curve its endpoints and control points define, starting and ending at its endpoints. Flattening replaces the edge by points lying on that curve, in increasing parameter order, whose polyline deviates from the curve by no more than the requested tolerance; straight edges are kept. Flattening a whole mesh, where each curved edge stores its curve on one of its two half-edges, leaves a valid mesh with straight edges only, the same faces (now running along the new points) and the same original vertices; converting a curved mesh to another dimension gives exactly that flattened mesh.",
  ["inputs"], "all control point choices on a small integer grid, several tolerances and segment counts",
  "Tests flatten one or two curves.",
  ["src/mesh/edge/curved.rs", "src/mesh/mesh/basics.rs"], [("curve evaluation and flattening", "src/mesh/edge/curved.rs")],
  "points returned and mesh after flattening")

TQ = "all simple integer polygons with n vertices on a k by k grid (every vertex order, rotation and both axis orders), plus every orientation of small families of special polygons"
def tri(id, title, st, files, mech, extra=""):
    p(id, title, st, ["inputs"], TQ + extra, "Tests run the algorithm on a dozen hand-drawn and random shapes; degenerate alignments (equal x or y, collinear neighbours, cusps at equal heights) occur only for particular inputs.",
      files + ["src/mesh/mesh/triangulate.rs", "src/mesh/triangulation.rs"], mech, "index triples appended to the triangulation")
TILE = "every triangle uses vertices of the polygon, none is turned against the others, and together the n-2 triangles cover the polygon exactly without overlap"
tri("T01", "Ear clipping tiles every simple polygon",
    f"Ear clipping of any simple polygon, including ones with straight corners, terminates without panic with an exact triangulation: {TILE}. Triangles without area occur only on collinear vertices. All triangles have the winding of the face.",
    ["src/tesselate/ear_clipping.rs"], [("ear clipping", "src/tesselate/ear_clipping.rs")])
tri("T02", "The plane sweep tiles every simple polygon",
    f"The plane sweep, with linear or with Delaunay triangulation of the monotone parts, produces an exact triangulation of any simple polygon, whatever coordinates coincide: {TILE}. All triangles are oriented like the polygon and have positive area, also where the polygon has straight corners. It never panics on such input.",
    ["src/tesselate/sweep/sweep.rs", "src/tesselate/sweep/status.rs", "src/tesselate/sweep/interval.rs", "src/tesselate/sweep/point.rs", "src/tesselate/sweep/vertex_type.rs", "src/tesselate/sweep/monotone/linear.rs", "src/tesselate/sweep/monotone/delaunay.rs"],
    [("plane sweep", "src/tesselate/sweep/sweep.rs"), ("linear monotone", "src/tesselate/sweep/monotone/linear.rs")])
tri("T03", "The minimum-weight sweep tiles every simple polygon",
    f"The plane sweep with dynamic-programming triangulation of the monotone parts produces an exact triangulation of any simple polygon: {TILE}; all are oriented like the polygon and have positive area. For a polygon that is strictly monotone in the sweep direction the total length of its diagonals is minimal.",
    ["src/tesselate/sweep/sweep.rs", "src/tesselate/sweep/monotone/dynamic.rs", "src/tesselate/sweep/monotone/mod.rs"],
    [("plane sweep", "src/tesselate/sweep/sweep.rs"), ("dynamic monotone", "src/tesselate/sweep/monotone/dynamic.rs")])
tri("T04", "Minimum-weight triangulation is exact and optimal",
    f"The minimum-weight algorithm produces an exact triangulation of any simple polygon ({TILE}; oriented like the polygon and of positive area, also where the polygon has straight corners), and no other triangulation of the polygon has a smaller total edge length. The specialised small-polygon routines (triangle, quad) meet the same specification.",
    ["src/tesselate/min_weight_dynamic.rs", "src/tesselate/fixed_n.rs", "src/tesselate/min_weight_greedy.rs"],
    [("dynamic programming", "src/tesselate/min_weight_dynamic.rs"), ("fixed size", "src/tesselate/fixed_n.rs")])
tri("T05", "Delaunay triangulation is exact and locally Delaunay",
    f"Delaunay triangulation of any simple polygon produces an exact triangulation ({TILE}; oriented like the polygon and of positive area, also where the polygon has straight corners) in which every interior edge whose two triangles form a convex quadrilateral satisfies the empty-circle criterion. The default algorithm gives the same guarantee for polygons with more than four corners.",
    ["src/tesselate/delaunay.rs", "src/tesselate/mod.rs"], [("Delaunay", "src/tesselate/delaunay.rs")])
tri("T06", "Fan triangulation tiles every convex polygon",
    f"Fan triangulation of any strictly convex polygon produces an exact triangulation: {TILE}; all are oriented like the polygon and have positive area. All triangles share one common vertex.",
    ["src/tesselate/convex.rs"], [("fan", "src/tesselate/convex.rs")])
p("T07", "Triangulating a whole mesh covers every face, in any position and order",
  "Triangulating a mesh emits, for every face and for no other loop, exactly a tiling of that face by triangles with the face's orientation, using only that face's vertices, for every algorithm that supports the face. That holds wherever the planar face is placed in space (translation, rotation, axis order; for faces with three vertices on a common line only in axis-parallel planes, since rounding decides elsewhere), whatever edges other faces have between the face's vertices, and whatever elements were deleted, and every index refers to the right vertex of the accompanying vertex list. The variant that prepares flat shading duplicates vertices per face, giving each face its own normal.",
  ["inputs", "configurations", "histories"], "meshes composed of several bounded polygons in several embeddings, with deletions, all algorithms",
  "Tests triangulate one face per mesh in one plane.",
  ["src/mesh/mesh/triangulate.rs", "src/tesselate/mod.rs", "src/mesh/face/face3d.rs", "src/halfedge/mesh/basics.rs", "src/mesh/mesh/normals.rs"],
  [("mesh triangulation", "src/mesh/mesh/triangulate.rs, src/tesselate/mod.rs"), ("2D projection", "src/mesh/face/face3d.rs"), ("dense vertex list", "src/halfedge/mesh/basics.rs")],
  "triangle index lists and vertex lists")
p("T08", "The triangle container's queries and edits are exact",
  "The triangle list container counts triangles, areas, edge lengths and flips exactly for the part it manages, wherever that part starts inside a larger index list: total area and edge weight are the sums over its triangles, flipping a shared edge replaces exactly the two triangles by the two other ones with the same orientation, and mapping or adding triangles touches nothing else. Its own verification functions accept every correct triangulation of a polygon and reject a wrong number of triangles, unused or foreign vertices, triangles of negative area, a total area other than the polygon's, and crossing edges.",
  ["inputs", "histories"], "all small triangulations of bounded point sets, all start offsets, all single and double edits",
  "Tests use the container only as an oracle from offset zero, never checking that it rejects wrong triangulations.",
  ["src/mesh/triangulation.rs"], [("container", "src/mesh/triangulation.rs")], "results of the container's methods", [("index list", "shared index vector plus a start offset")])
p("T09", "Face and vertex normals are exact",
  "The face normal of a planar polygon is perpendicular to it on the side from which it appears counter-clockwise, whatever vertex it starts at, and is independent of reflex corners; the face's planarity, convexity (of faces without straight corners) and centroid queries agree with exact geometry. Smooth vertex normals are unit vectors equal to the normalised sum of the incident faces' unit normals. Vertices without any face get no invalid (non-finite) normal.",
  ["inputs"], "all simple grid polygons in several embeddings and all small multi-face meshes",
  "Tests compute a normal or two on regular shapes.",
  ["src/mesh/face/face3d.rs", "src/mesh/mesh/normals.rs", "src/math/vector3d.rs"], [("Newell normal", "src/mesh/face/face3d.rs"), ("smooth normals", "src/mesh/mesh/normals.rs")],
  "normals returned and stored")
p("M01", "Planar polygon and segment predicates are exact",
  "Signed area, orientation, point containment, convexity, diagonal validity, self-intersection, segment intersection and point-in-triangle predicates give the answer of exact integer geometry on exactly representable input. The point-in-triangle test includes the boundary and a straight corner is not convex; elsewhere only proper crossings and points off the boundary are specified.",
  ["inputs"], "all polygons, segments, triangles and query points on small integer grids",
  "Tests check a few coordinates.",
  ["src/math/polygon.rs", "src/math/line_segment.rs", "src/math/vector2d.rs", "src/extensions/nalgebra/math/polygon.rs"],
  [("polygon predicates", "src/math/polygon.rs"), ("segment", "src/math/line_segment.rs"), ("2D vector predicates", "src/math/vector2d.rs")], "return values")
p("M02", "Transforms compose and act as documented",
  "Translating, rotating, scaling and combining transforms acts on points as the composition, in the documented order, of the elementary maps, and on directions without the translation; identity is neutral. Transforming a mesh applies the transform to every vertex (and normals as directions) and leaves the connectivity unchanged; transforming a vertex payload or a copy leaves everything else unchanged. Rotations between two directions carry the first onto the second, including equal and opposite directions.",
  ["inputs", "histories"], "all compositions of elementary transforms up to the depth bound applied to grid points, in 2, 3 and 4 dimensions",
  "Tests apply one or two transforms.",
  ["src/extensions/nalgebra/math/transform_n.rs", "src/extensions/nalgebra/math/rotate.rs", "src/math/transform.rs", "src/math/transformable.rs", "src/mesh/mesh/transform.rs", "src/extensions/nalgebra/default_vertex_payload.rs"],
  [("affine transform", "src/extensions/nalgebra/math/transform_n.rs"), ("rotation", "src/extensions/nalgebra/math/rotate.rs"), ("mesh transform", "src/mesh/mesh/transform.rs")], "transformed points and meshes")
p("M03", "Vector and scalar helper functions satisfy their definitions",
  "Dot and cross products, distances, normalisation, angles between vectors, interpolation, spherical conversion, means, stable sums, sign predicates and index conversions return the mathematically defined value for every input in their domain, including zero, parallel and opposite vectors.",
  ["inputs"], "all vectors, pairs and triples on small integer grids and all small scalar arguments, for f32 and f64",
  "Tests evaluate a few points.",
  ["src/math/vector.rs", "src/math/vector2d.rs", "src/math/vector3d.rs", "src/math/scalar.rs", "src/math/index_type.rs", "src/extensions/nalgebra/math/vec_n.rs", "src/extensions/nalgebra/math/vec2.rs", "src/extensions/nalgebra/math/vec3.rs"],
  [("vector helpers", "src/math/vector*.rs"), ("scalar helpers", "src/math/scalar.rs")], "return values")
p("B01", "The bevy vectors, rotations and transforms act as documented",
  "With the bevy types, vectors satisfy the same definitions as elsewhere (components, dot and cross products, lengths, distances, normalisation, conversions between dimensions). Transforms in two, three and four dimensions act on points as the composition of their parts and on directions without the translation; chaining one transform with another applies the first and then the second; adding a rotation, scale or translation to a transform applies it after the ones before; rotation arcs carry one direction onto the other, whatever their lengths. Transforming a vertex payload moves its position and turns its normal accordingly and leaves its other data alone.",
  ["inputs"], "all vectors, pairs and triples on small grids, and all compositions of elementary transforms up to the depth bound, with the bevy types in 2, 3 and 4 dimensions",
  "The tests never compose bevy transforms.",
  ["src/extensions/bevy/math/vec2.rs", "src/extensions/bevy/math/vec3.rs", "src/extensions/bevy/math/vec4.rs", "src/extensions/bevy/math/quat.rs", "src/extensions/bevy/math/mat5.rs", "src/extensions/bevy/vertex_payload_2d.rs", "src/extensions/bevy/vertex_payload_3d.rs"],
  [("bevy vectors", "src/extensions/bevy/math/vec*.rs"), ("bevy transforms", "src/extensions/bevy/math/*.rs"), ("bevy vertex payloads", "src/extensions/bevy/vertex_payload_*.rs")], "return values, transformed points, directions and payloads")
p("B02", "Exporting and converting meshes to the bevy types keeps the geometry",
  "Writing a mesh into a bevy mesh produces a triangle list that tiles every face of the mesh in the direction of the face, with positions and normals that are those of the mesh's vertices (smooth export) or with a vertex of its own and the face's normal for every corner of every face (flat export), with indices of the width of the mesh's vertex index and without any attribute of the mesh overwritten. Converting a double precision mesh into a bevy mesh keeps vertices, edges, faces, their connectivity and the vertex data. Lifting a 2d mesh into space keeps the corners in the plane z = 0 and replaces curved edges by polylines that stay within the tolerance of the curve.",
  ["inputs", "histories"], "all simple polygons on small grids in all axis planes, all solids with every set of faces removed, all assignments of curve types to the edges of small polygons, with all triangulation algorithms",
  "Tests export nothing to bevy meshes.",
  ["src/extensions/bevy/mesh3d.rs", "src/extensions/bevy/mesh2d.rs", "src/extensions/bevy/math/polygon.rs", "src/mesh/mesh/triangulate.rs"],
  [("export", "src/extensions/bevy/mesh3d.rs"), ("conversion", "src/extensions/bevy/mesh2d.rs, mesh3d.rs"), ("triangulation", "src/mesh/mesh/triangulate.rs")], "attributes and indices of the bevy mesh, connectivity and payloads of the converted mesh")
p("V01", "Importing an SVG drawing yields its outlines as faces",
  "Importing an SVG document (or a fragment without the document around it) adds one face for every outline of every visible path or shape, in document order, and nothing else: each outline's corners are vertices at the drawn positions, its segments are straight, quadratic or cubic edges with the drawn control points, however the path is written (absolute, relative, horizontal, vertical, smooth and implicit commands) and however it ends (closed, drawn back to the start, left open, with several outlines in one path). Transforms of groups, elements and reused definitions and the view box apply. Hidden elements are left out. What the mesh contained before stays as it is.",
  ["inputs"], "all small polygons in all ways of writing them, all assignments of segment kinds, all chains of transforms and all sequences of elements up to the bounds, imported into two mesh types",
  "One test imports one path.",
  ["src/extensions/svg/svg.rs", "src/extensions/svg/mod.rs", "src/mesh/mesh/path_builder.rs"],
  [("import", "src/extensions/svg/svg.rs"), ("path builder", "src/mesh/mesh/path_builder.rs")], "faces with their corners and curve control points")
p("F01", "Laying out text yields the glyph outlines as faces, scaled and shifted",
  "Laying out a text adds, for every character in order and for every contour of its glyph (missing characters use glyph 0, glyphs without outline add nothing), exactly one face running in the contour's direction: its edges are the contour's straight, quadratic and cubic segments with their control points, uniformly scaled by the font's scale in points (96 dpi, that is 4/3 of the scale per em) and shifted by the advances and kernings of the preceding characters at the same scale. The advance of a text is that shift after its last character. What the mesh contained before stays as it is.",
  ["inputs"], "all contours of small outline families in all segment kinds and starting points, all texts up to the bounded length over fonts built by the check",
  "Tests lay out one text of one font and look at nothing but that it worked.",
  ["src/mesh/mesh/fonts.rs"],
  [("text layout", "src/mesh/mesh/fonts.rs")], "faces with their corners and curve control points")
p("N01", "Shortest paths are shortest and real",
  "The shortest path query between two vertices returns a path exactly when the vertices are connected; it starts and ends at the requested vertices, every step is an existing edge, and no shorter path exists.",
  ["inputs", "histories"], "all ordered vertex pairs of all meshes reachable by bounded construction sequences, plus larger grids",
  "Tests query one mesh.", ["src/mesh/mesh/topology.rs", "src/mesh/mesh/basics.rs"], [("breadth-first search", "src/mesh/mesh/topology.rs")], "returned vertex list")
p("N02", "Graph matrices describe exactly the mesh graph",
  "Adjacency, weighted adjacency, degree and Laplacian matrices have exactly the entries defined by the mesh's edges, with rows and columns in the order of live vertices, for meshes with deleted and isolated vertices too; weighted entries carry edge lengths, and Laplacian rows sum to zero.",
  ["inputs", "histories"], "all meshes reachable by bounded construction sequences, including deletions",
  "Tests compare one small mesh.", ["src/mesh/mesh/netsci.rs"], [("graph matrices", "src/mesh/mesh/netsci.rs")], "matrix entries")
p("N03", "Isomorphism checks decide isomorphism",
  "Two meshes are reported isomorphic (by vertex position) exactly when a bijection of their vertices that preserves positions also maps edges and faces onto each other; the relation is reflexive, symmetric and independent of ids and construction order. The stricter identical-ids comparison holds exactly when ids, connectivity and positions (for curved meshes also the control points, within the tolerance) coincide. Comparison functions given by the user are asked about exactly the pairs of corresponding vertices, halfedges and faces, and a single rejected pair makes the meshes different.",
  ["inputs", "histories"], "all pairs of meshes reachable by bounded construction sequences",
  "Tests compare a few equal meshes and hardly any different ones.", ["src/mesh/mesh/iso.rs"], [("isomorphism", "src/mesh/mesh/iso.rs")], "verdict of the comparison")
p("C01", "Converting between mesh types preserves the mesh",
  "Converting a mesh to another dimension or mesh type preserves every vertex, edge and face, all incidences and orientation, curved and flat attributes, and the coordinates both types share, for every mesh including those with isolated vertices, open boundaries and deleted elements.",
  ["inputs", "histories"], "all meshes reachable by bounded construction sequences and all conversion targets",
  "Tests convert one or two closed shapes.", ["src/halfedge/mesh/mod.rs", "src/halfedge/mesh/builder/builder.rs", "src/halfedge/mesh/builder/halfedge.rs", "src/mesh/mesh/builder.rs", "src/extensions/nalgebra/mesh2d.rs", "src/extensions/nalgebra/mesh_nd.rs"],
  [("import", "src/halfedge/mesh/builder/*.rs"), ("conversions", "src/extensions/nalgebra/mesh2d.rs, mesh_nd.rs")], "connectivity and positions of the converted mesh")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
