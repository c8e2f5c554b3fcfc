"""The binaries that decide each property (see check.py), and what MANIFEST.json says about them."""

EXACT = ("Trusts CGAL's exact predicates (orientation, do_intersect, has_on) and the generator's validity guard; reaches only "
         "generated sizes (up to a few hundred faces per operand; up to 150000 on terrains).")


def boolean(src, technique, note, fuzz=None, more=()):
    return {"bins": [dict({"name": src[:-3], "src": [src, "kig_boolean.cc"]}, **({"fuzz": fuzz} if fuzz else {})), *more], "technique": technique, "note": note + " " + EXACT}


CHECKS = {
    "C01": boolean("c01.cc", "property-based testing: generated mesh pairs x 16 operators against an exact membership oracle",
                   "Random exploration with an exact geometric oracle, evaluated at points of every result face, of the operands' "
                   "surfaces and of space.", {"operators": 180},
                   [{"name": "c01l", "src": ["c01l.cc", "kig_boolean.cc"], "cpu": 400}]),
    "C02": boolean("c02.cc", "property-based testing: full structural and pairwise-intersection invariant on every result",
                   "Random exploration; every generated result is checked exhaustively (all faces, edges, face pairs).", None,
                   [{"name": "c02l", "src": ["c02l.cc", "kig_boolean.cc"], "cpu": 400}]),
    "C03": boolean("c03.cc", "property-based testing: special operands and cancelling pairs against an exact set oracle",
                   "Random exploration with an exact oracle for the kind and the boundary of each result.", {"special_operands": 120},
                   [{"name": "c03l", "src": ["c03l.cc", "kig_boolean.cc"], "cpu": 400}]),
    "C04": {"bins": [{"name": "c04", "src": ["c04.cc", "kig_boolean.cc"]},
                     {"name": "c04c", "src": ["c04c.cc", "kig_boolean.cc"], "backend": 1},
                     {"name": "c04l", "src": ["c04l.cc", "kig_boolean.cc"], "cpu": 400}],
            "technique": "property-based testing: random expression trees, algebraic laws and chains against exact membership",
            "note": "Random exploration of expression trees up to depth 4, of 30 laws and of chains of up to 6 operations whose exact "
                    "coordinates grow to thousands of bits (built with mpq_class). " + EXACT},
    "C05": boolean("c05.cc", "property-based testing: generated clipped open meshes against closed versions of the same regions",
                   "Random exploration; the common convex region is a box (height fields over its sides, slabs, grid solids) or an "
                   "intersection of half-spaces.", {"clipped": 120, "clipped_solids": 120}),
    "C06": boolean("c06.cc", "property-based testing: unique face data traced through results by exact containment",
                   "Random exploration; every face of every result is checked.", None,
                   [{"name": "c06l", "src": ["c06l.cc", "kig_boolean.cc"], "cpu": 400}]),
    "C07": {"bins": [{"name": "c07", "src": ["c07.cc"], "fuzz": {"queries": 180}}],
            "technique": "property-based testing: generated degenerate point positions against an exact incidence/winding oracle",
            "note": "Random exploration of points in special position relative to generated closed meshes. " + EXACT},
    "C08": boolean("c08.cc", "property-based testing: partially cutting discs in general position against a border-piercing oracle",
                   "Random exploration; partial cuts in general position only (discs against sphere-like solids and discs)."),
    "C09": {"bins": [{"name": "c09", "src": ["c09.cc", "kig_boolean.cc", "kig_defects.cc"], "schedule": True},
                     {"name": "c09t", "src": ["c09.cc", "kig_boolean.cc", "kig_defects.cc"], "san": "thread", "flags": ["-DC09_TSAN"],
                      "schedule": True, "cpu": 150},
                     {"name": "c09l", "src": ["c09l.cc", "kig_boolean.cc", "kig_defects.cc"], "schedule": True, "cpu": 600}],
            "technique": "stateful property-based testing of process histories, thread limits and concurrency; ThreadSanitizer",
            "note": "Random exploration of histories; schedules are those the machine produces (thread limits, CPU sets and concurrent "
                    "requests vary), not enumerated. " + EXACT},
    "C10": boolean("c10.cc", "property-based testing: metamorphic relations (representation changes, exact affine maps)",
                   "Random exploration; results compared as sets by exact sampling of all faces and exact volumes."),
    "C11": boolean("c11.cc", "stateful property-based testing: request histories against fresh operations",
                   "Random exploration of histories of up to 8 requests."),
    "C12": {"bins": [{"name": "c12", "src": ["c12.cc"], "san": "address,undefined", "fuzz": {"round_trip": 120}},
                     {"name": "c12m", "src": ["c12.cc"], "san": "address,undefined", "backend": 1}],
            "technique": "property-based testing: round trip and differential against an independent encoder/decoder, two number types",
            "note": "Random exploration under ASan and UBSan, built with cpp_rational and with mpq_class; little-endian host only."},
    "C13": {"bins": [{"name": "c13", "src": ["c13.cc"], "san": "address,undefined", "fuzz": {"raw": 240}},
                     {"name": "c13m", "src": ["c13.cc"], "san": "address,undefined", "backend": 1}],
            "technique": "property-based testing: format-aware corruption and stream faults against a strict decoder, under ASan and UBSan",
            "note": "Random exploration of corruptions of small regions, built with cpp_rational and with mpq_class."},
    "C14": {"bins": [{"name": "c14", "src": ["c14.cc"], "san": "address,undefined", "fuzz": {"round_trip": 120}}],
            "technique": "property-based testing: round trip through text against an independent parser and exact values",
            "note": "Random exploration; coordinates within the range of normal doubles."},
    "C15": {"bins": [{"name": "c15", "src": ["c15.cc"], "san": "address,undefined", "fuzz": {"variations": 180}}],
            "technique": "property-based testing: grammar-based rendering of a known mesh with every permitted variation",
            "note": "Random exploration; the variations rendered are those of src/textfmt.h (no line continuations, no OFF counts on the "
                    "signature line, no blank lines in PLY bodies)."},
    "C16": {"bins": [{"name": "c16", "src": ["c16.cc"], "san": "address,undefined", "fuzz": {"raw": 240}}],
            "technique": "property-based testing: grammar-aware damage and device faults with invariants and must-reject cases, under ASan and UBSan",
            "note": "Random exploration of damaged small texts."},
    "C17": {"bins": [{"name": "c17", "src": ["c17.cc"]}],
            "technique": "property-based testing with injected faults: streams, devices and file size limits that fail at any byte",
            "note": "Random exploration of fault positions; every format; meshes smaller and larger than the file buffers."},
    "C18": {"bins": [{"name": "c18", "src": ["c18.cc", "kig_defects.cc"], "fuzz": {"defects": 180}}],
            "technique": "property-based testing: damaged meshes against an independent exact defect oracle",
            "note": "Random exploration of small damaged meshes; every list of the report is compared exactly. " + EXACT},
    "C19": {"bins": [{"name": "c19", "src": ["c19.cc"], "fuzz": {"related_triangles": 240}}],
            "technique": "property-based testing: special triangle pairs in all corner orders against exact polygon clipping",
            "note": "Random exploration of related triangles plus all triangle pairs of two small lattices; exact rational oracle."},
    "C20": {"bins": [{"name": "c20", "src": ["c20.cc", "kig_boolean.cc"], "san": "address,undefined", "fuzz": {"histories": 240}}],
            "technique": "stateful property-based testing: histories of several mesh objects against a plain list model, under ASan and UBSan",
            "note": "Random exploration of histories of up to 24 operations on small meshes, and large ones of up to 300000 elements."},
    "C21": {"bins": [{"name": "c21", "src": ["c21.cc"], "fuzz": {"boxes": 90, "face_pairs": 90}}],
            "technique": "property-based testing: generated boxes, rays and thread limits against brute force in exact arithmetic",
            "note": "Random exploration of up to 600 (large: 200000) finite boxes."},
    "C22": {"bins": [{"name": "c22", "src": ["c22.cc"], "fuzz": {"adjacency": 120}}],
            "technique": "property-based testing: generated connectivities and border sets against brute-force adjacency",
            "note": "Random exploration of meshes of up to 3200 (large: 250000) faces."},
    "C23": {"bins": [{"name": "c23", "src": ["c23.cc"], "schedule": True},
                     {"name": "c23t", "src": ["c23.cc"], "san": "thread", "flags": ["-DC23_TSAN"], "schedule": True, "cpu": 120}],
            "technique": "property-based testing: generated loops, failures, sorts and thread limits; ThreadSanitizer",
            "note": "Random exploration; schedules are those the machine produces with yielding, spinning and sleeping bodies, not "
                    "enumerated."},
    "C24": {"bins": [{"name": "c24", "src": ["c24.cc"], "schedule": True},
                     {"name": "c24t", "src": ["c24.cc"], "san": "thread", "flags": ["-DC24_TSAN"], "schedule": True, "cpu": 120}],
            "technique": "stateful property-based testing: random trees of scopes, exceptions and threads against a model; ThreadSanitizer",
            "note": "Random exploration of well-nested histories of up to 40 steps; schedules are those the machine produces."},
    "C25": {"bins": [{"name": "c25", "src": ["c25.cc", "kig_boolean.cc", "kig_defects.cc"]},
                     {"name": "kigumi", "aux": True, "libs": ["-lboost_program_options"],
                      "src": ["$REPO/cli/*.cc"]}],
            "technique": "property-based testing: generated command lines, files and faults against exact oracles and the library",
            "note": "Random exploration of the built tool as a process; text outputs are compared with the library's rounded result. " + EXACT},
}

NOT_APPLICABLE = {}
HOOKS = None
