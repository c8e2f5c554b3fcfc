#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": hook},
    })


I = "include/kigumi/"
BOOL = [I + f for f in ("Boolean_region_builder.h", "Boolean_operator.h", "Mix.h", "Corefine.h", "Extract.h",
                        "Classify_faces_locally.h", "Classify_faces_globally.h", "Propagate_face_tags.h",
                        "Find_coplanar_faces.h", "Find_possibly_intersecting_faces.h", "Face_face_intersection.h",
                        "Intersection_point_inserter.h", "Triangulation.h", "Triangle_mesh.h")]

prop("C01", "Each of the 16 operators yields exactly the regularized set it denotes",
     "For any two regions bounded by valid closed meshes (manifold or not, with several components, cavities, complements, "
     "or faces, edges and vertices shared between the operands), each of the sixteen Boolean operators returns a region "
     "whose inside is exactly the regularized set denoted by the operator's formula. Every point in space, including points "
     "arbitrarily close to the operands' surfaces, is inside, on the boundary or outside the result accordingly.",
     ["inputs"], "all pairs of valid closed boundary meshes and all sixteen operators",
     "The tests evaluate volumes of a handful of fixed axis-aligned cubes; coplanar overlaps, shared edges, non-manifold "
     "contacts and cocircular overlaps are an unbounded input space (two defects were found here that no test reached).",
     BOOL, [("corefinement of both meshes", I + "Corefine.h"), ("local radial classification", I + "Classify_faces_locally.h"),
            ("global classification", I + "Classify_faces_globally.h"), ("output tables", I + "Boolean_operator.h")],
     ["boundary mesh of the returned region", "point location in the returned region"],
     [("face tag", "exterior/interior/coplanar/opposite relation of a face piece to the other operand", I + "Mixed.h")])

prop("C02", "Every result boundary is itself a valid, watertight, regularized mesh",
     "The boundary returned by any operator on valid closed operands is a valid mesh: every face refers to existing, distinct "
     "vertices and has non-zero area, no face is repeated or cancelled by an opposite copy, neighbouring faces share vertices so "
     "that the surface is closed and consistently oriented, and faces meet only along shared vertices or edges. Every vertex is "
     "used and no two vertices coincide, so the result satisfies the documented preconditions of a further operation.",
     ["inputs"], "all pairs of valid closed boundary meshes and all sixteen operators",
     "Tests compare a volume or a face count; none checks the topology or self-intersection of a result.",
     BOOL, [("conforming triangulation of both sides of an intersection", I + "Triangulation.h"),
            ("one point per symbolic intersection", I + "Intersection_point_inserter.h"),
            ("selection of one copy of coplanar faces", I + "Extract.h")],
     ["boundary mesh of the returned region"])

prop("C03", "The empty set and the universe behave as sets, as operands and as results",
     "An operation with the empty set or the universe as one or both operands returns exactly the set the operator denotes, and "
     "any operation whose regularized result is empty or everything returns precisely the empty region or the full region, never "
     "a boundary-defined one (and vice versa). These special regions have no boundary faces and contain no point or every point.",
     ["inputs"], "all operators; operands ranging over empty, full, arbitrary valid closed meshes, copies, re-triangulations and "
     "complements of the same solid",
     "The special-case tests use one pair of cubes per case and cannot cover re-triangulated or partly cancelling surfaces.",
     [I + "Boolean_region_builder.h", I + "Region.h", I + "Extract.h"],
     [("kind of the operands and special-result table", I + "Boolean_region_builder.h"), ("region kinds", I + "Region.h")],
     ["is_empty / is_full of the result", "boundary of the result", "bounded_side of the result"],
     [("region kind", "empty, full or boundary-defined", I + "Region.h")])

prop("C04", "Results can be chained: compound set expressions obey the laws of set algebra",
     "Regions returned by operations can be used as operands again, to any depth, and the value of a compound expression is the "
     "regularized set it denotes. In particular commutativity, associativity, absorption, De Morgan's laws, double complement and "
     "idempotence hold between differently computed results.",
     ["histories", "inputs"], "all expression trees of operators over valid closed regions and the special regions",
     "No test feeds a result back into another operation, so exact-coordinate growth, near-coincident surfaces and accumulated "
     "sub-division are never reached.",
     BOOL + [I + "Region.h"], [("exact constructions", I + "Intersection_point_inserter.h"), ("result as operand", I + "Region.h")],
     ["boundary mesh and point location of the final region"])

prop("C05", "Open meshes clipped by a common convex region are combined correctly within it",
     "When one or both operands are open meshes whose open edges lie on the boundary of a common convex region (and a closed "
     "operand lies inside it), each operator returns the part of the denoted region's boundary that lies inside the convex region, "
     "without warnings. No face is missing, superfluous or wrongly oriented.",
     ["inputs"], "all pairs of valid open/closed meshes clipped with a common convex region, and all operators",
     "One fixed pair of two-triangle sheets is tested.",
     BOOL + [I + "Side_of_triangle_soup.h"], [("side of an open surface", I + "Side_of_triangle_soup.h"),
                                             ("classification from intersecting edges", I + "Classify_faces_locally.h")],
     ["boundary mesh of the returned region", "warnings"])

prop("C06", "Face data follow each piece of surface through an operation",
     "Every face of a result carries the data of an operand face that contains it, also when the face was split or reversed. "
     "Where both operands contain it, the data (and the choice of surface) come from the preferred operand: the first by default, "
     "the second when so requested, and this choice never changes the resulting set.",
     ["inputs"], "all pairs of regions with arbitrary face data, all operators, both preferences, including special operands",
     "The tests compare the total area per datum for two cubes, which hides exchanged, lost or default-valued data on single "
     "faces and covers few coplanar configurations.",
     [I + "Mixed.h", I + "Mix.h", I + "Extract.h", I + "Boolean_operator.h", I + "Boolean_region_builder.h"],
     [("data copied to every piece of a face", I + "Mix.h"), ("preference masks", I + "Boolean_operator.h"), ("extraction", I + "Extract.h")],
     ["data(face) of the result's faces"], [("face data", "user datum per face", I + "Triangle_soup.h")])

prop("C07", "Point location is exact everywhere",
     "For every region and every point with exact coordinates, the region reports on-boundary exactly when the point lies on a "
     "boundary face, edge or vertex, and otherwise inside or outside according to the set it bounds. It does so for complements, "
     "nested shells, non-manifold contacts and points whose lines of sight hit edges and vertices, and repeated queries agree.",
     ["inputs"], "all valid closed regions and all points, including points on vertices, edges, faces and in alignment with them",
     "Tests query a few points of one or two meshes; degenerate ray hits depend on the pair (mesh, point).",
     [I + "Side_of_triangle_soup.h", I + "Region.h", I + "AABB_tree/AABB_tree.h", I + "mesh_utility.h"],
     [("ray to a face centroid, nearest hit, retry on degenerate hits", I + "Side_of_triangle_soup.h")],
     ["bounded_side"])

prop("C08", "Warnings are raised exactly by partial intersections and name the right mesh",
     "An operation on valid operands reports no warning. When an open mesh ends inside the other operand, so that one surface "
     "only partially cuts the other, the operation reports a partial-intersection warning for the mesh that is only partially "
     "cut, and exchanging the operands exchanges the warnings.",
     ["inputs"], "all valid pairs; and all pairs of a closed mesh or sheet and a sheet that ends strictly inside it",
     "No test looks at warnings.",
     [I + "Propagate_face_tags.h", I + "Warnings.h", I + "Mix.h", I + "Boolean_region_builder.h"],
     [("conflicting tags met during propagation", I + "Propagate_face_tags.h"), ("accumulation across threads", I + "Mix.h")],
     ["warnings() of the operation"])

prop("C09", "Results are independent of threads, schedules and earlier operations",
     "The same operation on the same operands (that meet the documented requirements) yields the same region, face data and warnings whatever number of threads is "
     "configured, however the threads are scheduled, and whatever other operations, failed ones included, ran before it or run "
     "concurrently in the same process. Defect reports and point location are likewise reproducible.",
     ["schedules", "histories", "configurations"], "all thread limits, all interleavings of the worker threads, all histories of "
     "operations in one process and in concurrent threads",
     "Tests run each operation once in a fresh fixture with the machine's default thread count.",
     BOOL + [I + "parallel_do.h", I + "parallel_sort.h", I + "threading.h", I + "Find_defects.h"],
     [("per-thread accumulators merged under a lock", I + "parallel_do.h"), ("thread-local scratch objects", I + "Corefine.h")],
     ["result compared as a set of faces across configurations", "warnings", "crashes and sanitizer reports"],
     [("thread-local scratch state", "objects that outlive one operation in a thread", I + "Corefine.h")])

prop("C10", "Results depend only on the sets, not on how they are represented",
     "Renumbering vertices, reordering faces, rotating a face's corners, duplicating vertices, adding unused vertices, splitting "
     "faces, or giving coordinates as exact rationals instead of equal doubles leaves the resulting set unchanged. Applying one "
     "orientation-preserving exact affine map to both operands maps the result by it.",
     ["inputs"], "all valid pairs and all such changes of representation",
     "Each test has one representation of its meshes.",
     [I + "Point_list.h", I + "Corefine.h", I + "Find_coplanar_faces.h", I + "Triangulation.h", I + "Face_face_intersection.h"],
     [("merging of coincident vertices", I + "Point_list.h"), ("canonical form of coincident faces", I + "Find_coplanar_faces.h")],
     ["results of the original and the changed representation, compared as sets"])

prop("C11", "An operation leaves its operands intact and its object answers repeatedly",
     "Building an operation and asking it for any operators in any order, any number of times, changes neither operand and gives "
     "for each operator the same answer as a fresh operation would. The answers do not depend on the operands still existing, and "
     "an operand may be combined with itself.",
     ["histories"], "all sequences of operator requests, repetitions and preferences, with operands destroyed or reused in between",
     "Tests ask for each operator once, on live operands.",
     [I + "Boolean_region_builder.h", I + "Extract.h", I + "Mix.h"],
     [("classified mixed mesh stored by value", I + "Boolean_region_builder.h"), ("const extraction", I + "Extract.h")],
     ["boundaries of operands before and after", "answers across a sequence of requests"])

prop("C12", "The .kigumi format is lossless and byte-for-byte portable",
     "Writing any region and reading it back yields the same kind, the same vertices in the same order with exactly equal "
     "coordinates (arbitrary rationals included), the same faces and the same face data, and writing it again yields identical "
     "bytes. The bytes follow one fixed little-endian layout regardless of the exact number type in use, so files can be exchanged "
     "between builds.",
     ["inputs", "configurations"], "all regions, coordinates, face data and both supported exact number types",
     "There is no test of the binary format.",
     [I + "io.h", I + "Region.h", I + "Region_io.h", I + "Triangle_soup.h", I + "Mesh_indices.h"],
     [("little-endian primitives and checked casts", I + "io.h"), ("exact or double encoding per vertex", I + "Triangle_soup.h")],
     ["bytes written", "region read back", "an independent encoder and decoder"])

prop("C13", "Damaged .kigumi data are rejected cleanly and leave the target unchanged",
     "Reading a truncated, corrupted or arbitrary byte stream either succeeds with a well-formed region (coordinates are "
     "finite, every face refers to existing vertices, and its kind agrees with its boundary) or reports failure. It never crashes, hangs, or takes memory or "
     "time out of proportion to the input, and after a failure the target region is unchanged.",
     ["fault_sequences", "inputs"], "all byte strings, in particular every truncation and every small corruption of a valid file, "
     "read from any stream into any previous target",
     "There is no test of the binary format.",
     [I + "io.h", I + "Region.h", I + "Region_io.h", I + "Triangle_soup.h"],
     [("checked casts and stream state", I + "io.h"), ("success reported from the stream state", I + "Region_io.h")],
     ["return value or exception", "target region", "memory and CPU used"])

prop("C14", "OBJ, OFF and PLY files written by the library read back as the same mesh",
     "For every mesh whose coordinates are zero or within the range of normal doubles, writing to any of the three text formats (OBJ with positive or negative indices) and reading it back gives "
     "the same number and order of vertices and faces, coordinates equal to the original's when those are doubles and the "
     "nearest double (to one unit in the last place) otherwise. Writing the mesh so read gives the same text.",
     ["inputs", "configurations"], "all meshes including extreme, negative-zero and non-dyadic coordinates, and all formats",
     "There is no test of the text formats.",
     [I + "io/ascii.h", I + "io/obj.h", I + "io/off.h", I + "io/ply.h", I + "Triangle_soup_io.h"],
     [("shortest round-trip number formatting", I + "io/ascii.h")], ["file contents", "mesh read back"])

prop("C15", "Text readers accept the variations the formats allow and fan-triangulate",
     "OBJ, OFF and PLY input that conforms to the format is read as the mesh it describes: comments, blank lines where allowed, extra white "
     "space and line-ending styles, number notations, texture and normal indices, relative indices, extra elements, properties and "
     "trailing fields do not change the mesh. Faces with more than three vertices become triangle fans from their first vertex in order.",
     ["inputs"], "all conforming texts, i.e. all meshes with polygonal faces and all permitted renderings of them",
     "There is no test of the text formats.",
     [I + "io/ascii.h", I + "io/obj.h", I + "io/off.h", I + "io/ply.h"],
     [("line-oriented state machines", I + "io/off.h"), ("property tables", I + "io/ply.h")], ["mesh read from the text"])

prop("C16", "Malformed text meshes are rejected cleanly and leave the target unchanged",
     "Reading an arbitrary or damaged OBJ, OFF or PLY text either succeeds with a mesh whose faces refer to existing vertices and "
     "whose coordinates are finite, or reports failure. Texts that end before the elements they announce, that lack a header or a "
     "coordinate, with coordinates that are no finite numbers or indices out of range, and streams that fail, are rejected. It never crashes, hangs, or takes memory or time out of proportion to the "
     "input, and after a failure the target mesh is unchanged.",
     ["fault_sequences", "inputs"], "all byte strings, in particular truncations, corruptions and inconsistent counts of valid files",
     "There is no test of the text formats.",
     [I + "io/ascii.h", I + "io/obj.h", I + "io/off.h", I + "io/ply.h"],
     [("parse into a fresh mesh, move on success", I + "io/obj.h"), ("stream failure checks", I + "io/ply.h")],
     ["return value", "target mesh", "memory and CPU used"])

prop("C17", "A write that does not reach its destination is never reported as success",
     "When any part of a file or stream cannot be written (device full, file size limit, failing stream, unopenable path), the "
     "write reports failure, in every format. Whenever it reports success, the complete contents are in the destination.",
     ["crash_points", "fault_sequences"], "all meshes, all formats, and a write failure at every byte offset",
     "No test injects a fault.",
     [I + "Region_io.h", I + "io/obj.h", I + "io/off.h", I + "io/ply.h", I + "Triangle_soup_io.h"],
     [("stream state checked after writing", I + "Region_io.h")], ["return value", "destination contents"])

prop("C18", "The defect finder reports exactly the defects a mesh has",
     "For any triangle mesh, after merging coincident vertices, the reported unused vertices, non-manifold vertices, boundary "
     "edges, inconsistently oriented edges, non-manifold edges and degenerate faces are exactly those the mesh has. Every "
     "pair of non-degenerate faces that meets elsewhere than at shared vertices and edges has a face among the reported "
     "overlapping faces, and every reported one belongs to such a pair.",
     ["inputs"], "all triangle meshes, valid or defective in any combination",
     "There is no test of the defect finder (it is not even built in the reference environment).",
     [I + "Find_defects.h", I + "Dense_undirected_graph.h", I + "Point_list.h", "cli/defects_command.cc"],
     [("half-edge counting", I + "Find_defects.h"), ("link graph of a vertex", I + "Dense_undirected_graph.h"),
      ("pairwise symbolic intersection", I + "Face_face_intersection.h")],
     ["reported lists", "command-line report"])

prop("C19", "The intersection of two triangles is exact, complete and symmetric",
     "For any two non-degenerate triangles with exact coordinates, in any relative position and any order of corners or operands, "
     "the computed symbolic intersection is empty exactly when they are disjoint, and otherwise names exactly the extreme points "
     "of their common part, each with the exact vertex, edge or face of either triangle it lies in. For coplanar overlaps the "
     "points are listed in convex position order.",
     ["inputs"], "all pairs of non-degenerate triangles, particularly the degenerate relative positions",
     "The tests fix a few dozen positions with fixed corner orders.",
     [I + "Face_face_intersection.h", I + "Triangle_region.h", I + "Intersection_point_inserter.h"],
     [("sign tables of exact orientations", I + "Face_face_intersection.h")], ["returned symbolic intersections and points"])

prop("C20", "A mesh answers queries from its current contents",
     "After any sequence of adding vertices and faces, setting face data, copying, moving, assigning (to itself too) and querying, "
     "a mesh and every copy of it report exactly their own vertices, faces, data and bounding box. Spatial queries (point location, "
     "box and ray queries, Boolean operations) reflect the current contents, never those of an earlier moment or another object.",
     ["histories"], "all sequences of operations on several mesh objects",
     "No test modifies, copies or moves a mesh after querying it.",
     [I + "Triangle_soup.h", I + "Triangle_mesh.h", I + "Region.h"],
     [("lazily built search tree", I + "Triangle_soup.h"), ("copy and move operations", I + "Triangle_soup.h")],
     ["accessors", "bounded_side", "search-tree queries"],
     [("cached search tree", "derived from the faces, built on first use", I + "Triangle_soup.h")])

prop("C21", "Spatial search returns every candidate and only candidates",
     "For any collection of finite boxes and any query box or ray, the search structure reports every element whose box meets the query, "
     "each exactly once, and no element whose box is disjoint from it, for any number of elements including none and any "
     "duplicates, whatever the number of threads used to build the structure. The candidate pairs of two meshes contain every "
     "intersecting pair of faces that is not set aside, once.",
     ["inputs", "configurations"], "all sets of boxes (also flat, duplicated, touching, huge) and all box and ray queries",
     "The search structure is only exercised through a few Boolean tests.",
     [I + "AABB_tree/AABB_tree.h", I + "AABB_tree/AABB_node.h", I + "AABB_tree/AABB_leaf.h", I + "Find_possibly_intersecting_faces.h"],
     [("recursive median split, parallel build", I + "AABB_tree/AABB_tree.h")], ["reported leaves"])

prop("C22", "Adjacency queries report exactly the incident faces",
     "For any finalized mesh (non-manifold, with unused vertices or repeated faces), the faces around any of its edges "
     "are exactly the faces containing both end points, each once. The faces around a face are exactly the other faces sharing a "
     "non-border edge with it, for every set of border edges.",
     ["inputs"], "all triangle meshes, all edges, all faces and all sets of border edges",
     "Adjacency is exercised by five small classification fixtures only.",
     [I + "Triangle_mesh.h", I + "Mesh_iterators.h", I + "parallel_sort.h"],
     [("sorted vertex-to-face index", I + "Triangle_mesh.h"), ("merge iterators", I + "Mesh_iterators.h")],
     ["iterated faces"], [("vertex-to-face index", "built once by finalizing", I + "Triangle_mesh.h")])

prop("C23", "Parallel loops and sorts do each item once, in bounds, and report failures",
     "A parallel loop calls its body exactly once per item and merges every worker's state exactly once; if a body throws, one of "
     "the thrown exceptions reaches the caller after all workers have stopped. A parallel sort returns the sorted permutation of "
     "its input, and neither uses more threads than the configured limit.",
     ["schedules", "inputs", "configurations"], "all sizes, thread limits, thrown exceptions and interleavings",
     "Both are only used implicitly by tests, never with exceptions or thread limits.",
     [I + "parallel_do.h", I + "parallel_sort.h", I + "threading.h"],
     [("atomic work counter", I + "parallel_do.h"), ("barrier-synchronised merge", I + "parallel_sort.h")],
     ["calls observed by the body", "exceptions", "number of threads used", "sanitizer reports"])

prop("C24", "Scoped options nest, restore and stay within their thread",
     "While an options scope is alive its settings are the current ones in its thread; when scopes end, normally or by an exception, "
     "the previously current settings are restored, at any nesting depth. Other threads are unaffected, and thread limits are "
     "clamped to between one and the hardware's concurrency.",
     ["histories", "schedules"], "all well-nested sequences of scopes in any number of threads",
     "Nothing tests the option scopes.",
     [I + "Context.h", I + "threading.h", I + "io/obj.h"], [("saved and restored thread-local value", I + "Context.h")],
     ["current options", "output of a writer under the options"])

prop("C25", "The command-line tool computes, converts and reports what the library does",
     "Each output of the boolean command equals the corresponding set operation on the two inputs in every supported format, with "
     "the special operands denoting the empty set and the universe; convert preserves the region; defects prints exactly the "
     "non-zero defect counts. The exit status is zero exactly when everything requested was done.",
     ["inputs", "configurations", "fault_sequences"], "all command lines over valid, missing, malformed and special inputs, output "
     "combinations and formats",
     "The command-line tool has no tests.",
     ["cli/main.cc", "cli/boolean_command.cc", "cli/convert_command.cc", "cli/defects_command.cc", "cli/utility.h"],
     [("option parsing and dispatch", "cli/main.cc"), ("format by file name", "cli/utility.h")],
     ["output files", "exit status", "standard output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
