"""One source for properties.jsonl and MANIFEST.json (bin/gen.py writes both)."""
T = "TLA+ specification; TLC-generated cases replayed into the code; recorded calls validated as behaviours of the specification (TLC)"
ASAN = "Trusts TLC, gcc's AddressSanitizer (memory errors are recorded as crashes, which no action allows) and the driver's projection of the diagram object. "
P = []

def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None, technique=T, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, note=note, state=state or [], observe=observe or [], technique=technique, level=level))

prop("P01", "Diagrams stay well formed under every history of operations",
     "Every diagram that the library builds or returns is well formed: each edge joins two crossing slots, strands run straight across crossings, components and faces list every edge side exactly once in the documented order, the faces number crossings plus two, and the diagram is connected. This stays true after any sequence of building, crossing moves, reorienting, renumbering, simplifying, copying, connect sums and regeneration, and the library's own validity test accepts the result. Operations documented to return a new diagram leave their argument unchanged.",
     ["inputs", "histories"], "for every diagram, every constructor parameter and every finite sequence of diagram operations applied at any place",
     "Tests apply one operation to a few stored diagrams; nothing checks a sequence of operations or an arbitrary diagram, and validity is judged by the library's own routine.",
     ["src/pdcode.c", "src/pd_crossingmoves.c", "src/pdcode_testcodes.c"],
     [("regeneration of edges, components, faces and hash", "src/pdcode.c pd_regenerate*"), ("validity test", "src/pdcode.c pd_ok"), ("constructor families", "src/pdcode_testcodes.c")],
     "All words of length 2 (thorough: 3) over ten operations on diagrams drawn from the exhaustive list of small diagrams, plus random histories of 14-24 calls on diagrams of 5-10 crossings; every result is compared with an independent definition of well-formedness. " + ASAN,
     state=[dict(name="diagram object", meaning="crossings, edges, components, faces, hash, number, tags", where="src/plcTopology.h pd_code_t")],
     observe=["return of every public call"])
prop("P02", "Crossing moves produce exactly the diagram the move defines",
     "Removing a kink, adding a kink, removing a bigon, adding a bigon, flipping a triangle and simplifying away kinks each produce, up to renumbering, exactly the diagram which that move defines on the sphere, with the directions, signs and (where they are kept) tags of every untouched strand. Removing a bigon that disconnects the diagram returns every piece, each with its own tags, and the piece with the upper strand first.",
     ["inputs"], "for every diagram, signed or unsigned, and every place where the move applies",
     "Tests compare a handful of stored before/after pairs per move; almost all small diagrams and places are never tried.",
     ["src/pd_crossingmoves.c", "src/pd_simplify.c", "src/pdcode.c"],
     [("kink removal", "pd_R1_loopdeletion"), ("kink addition", "pd_R1_loop_addition"), ("bigon removal and splitting", "pd_R2_bigon_elimination"), ("bigon addition", "pd_R2_bigon_addition"), ("triangle flip", "pd_R3_triangle_flip"), ("kink-only simplification", "pd_simplify")],
     "Every applicable place on every diagram with up to 3 crossings and a sample at 4 (thorough: all of 4, sample of 5), all unsigned shadows up to 3 (4), random diagrams up to 12 crossings; the result must be isomorphic to the one computed by the specification. " + ASAN)
prop("P03", "Copying, reorienting, renumbering and connect sum change only what they say",
     "A copy equals its source in every field and shares nothing with it. Reorienting a component reverses exactly that component's edges and flips exactly the signs of its crossings with other components; renumbering rotates that component's edge numbers and changes nothing else. A connect sum is the splice of its two arguments along the chosen edges, respecting directions, and the crossingless circle is its unit; splitting a diagram drawn in several pieces returns exactly these pieces, tags included.",
     ["inputs", "histories"], "for every diagram, component, offset and pair of edges",
     "Tests try single stored examples and mostly check validity, not that nothing else changed.",
     ["src/pdcode.c", "src/pd_operations.c", "src/pd_crossingmoves.c", "src/pd_splitdiagram.c"], [("copy", "pd_copy, pd_copy_newsize"), ("reorientation", "pd_reorient_component"), ("renumbering", "pd_renumber_component"), ("connect sum", "pd_connect_sum"), ("splitting", "pd_split_diagram")],
     "Every diagram with up to 3 crossings and all component directions, every component and several offsets, hundreds (thorough: thousands) of connect sums of diagrams with up to 4 crossings, random diagrams up to 14 crossings. " + ASAN)
prop("P04", "Diagram text files round-trip exactly and damaged files are refused cleanly",
     "Writing diagrams to a file and reading them back yields the same diagrams, field by field and in order, including when optional parts (identification line, tags, signs) are left out, the layout differs or crossing records are given in another order and rotation. Any damaged or truncated file is either refused (nothing returned, an error code set when asked for) or read as a well-formed diagram; it never crashes, hangs or touches memory out of bounds.",
     ["inputs", "fault_sequences"], "for every diagram and every single-token damage or truncation of its file",
     "Tests read back a few files produced from valid diagrams; error paths are untested.",
     ["src/pdcode.c"], [("writer", "pd_write"), ("reader", "pd_read, pd_read_err")],
     "Round trip: every diagram with up to 3 crossings, random ones to 13 (25) crossings, all families. Damage: every token of the files of a sample of diagrams, several kinds of damage each. " + ASAN)
prop("P05", "KnotTheory codes denote the diagram they were written from",
     "The KnotTheory form lists each crossing counterclockwise from the incoming lower edge with the library's edge numbers plus one; reading it back gives the same signed, directed diagram up to numbering and tags (apart from the direction of two-edge components that pass over everything, which the form does not record). Text that is not such a code of a planar diagram is refused without crashing.",
     ["inputs", "fault_sequences"], "for every signed diagram and every text",
     "Tests read a small table of prime knots only: no links, no kinks, no damaged text.",
     ["src/pdcode.c"], [("writer", "pd_write_KnotTheory"), ("reader", "pd_read_KnotTheory")],
     "Every diagram with up to 3 crossings and sampled 4 (thorough: all) in all directions and after renumbering/reorienting, random to 9 (15) crossings, families; several hundred damaged texts. " + ASAN)
prop("P06", "Packing a diagram and unpacking it loses nothing",
     "Packing a diagram into words and unpacking exactly the announced number of words gives the same diagram up to numbering and tags: crossings, directions and signs, and unset signs stay unset. The packed form never needs more words than the documented fields occupy, and the source is unchanged.",
     ["inputs"], "for every diagram of every size, signed or not",
     "Tests pack a few small diagrams; field-width changes at powers of two and word boundaries are not swept.",
     ["src/pd_pack.c"], [("packing", "pd_pack"), ("unpacking", "pd_unpack")],
     "Every diagram with up to 3 (4) crossings, every size 1-39 (130) and 63-65, 127-129, 200 crossings, random ones to 17; words are copied to an exact-size buffer so that reading past the end is caught. " + ASAN)
prop("P07", "The three diagram equivalences are decided exactly",
     "Two diagrams are reported isomorphic exactly when some homeomorphism of the sphere carries one to the other, map isomorphic exactly when an orientation-preserving one does, and diagram isotopic exactly when one also keeps directions, crossing signs and component tags. The verdict does not depend on numbering, on the order of the arguments or on any earlier call, and is given for every pair of valid diagrams, including crossingless ones and ones whose tags do not correspond.",
     ["inputs"], "for every pair of valid diagrams under every presentation",
     "Tests compare some dozens of stored pairs; symmetric diagrams, two-edge components, permuted tags and near misses differing in one sign are not sampled.",
     ["src/pd_isomorphisms.c", "src/pd_perm.c", "src/pd_dihedral.c", "src/pd_multidx.c"],
     [("isomorphism", "pd_isomorphic, pd_isomorphic_strings"), ("map isomorphism", "pd_map_isomorphic"), ("diagram isotopy", "pd_diagram_isotopic")],
     "All ordered pairs of diagrams with one or two crossings; hundreds (thorough: thousands) of pairs of 3-4 crossings, equal up to presentation, near misses (one sign, swapped signs, one reversed component) and unrelated; random pairs to 9 (12) crossings; families. " + ASAN)
prop("P08", "Isomorphism lists are complete, free of duplicates and made of isomorphisms",
     "The list of isomorphisms (map isomorphisms, diagram isotopies) from one diagram to another contains each of them exactly once: every listed edge map carries edge ends to edge ends compatibly with the cyclic order at crossings, and its crossing, component and face maps are the ones it induces. Every map of the diagrams that exists is listed, and for the maps of a diagram to itself products, in-place products, copies, comparisons, identity tests and periods are those of the group they form.",
     ["inputs"], "for every pair of valid diagrams",
     "Tests count isomorphisms for three families only.",
     ["src/pd_isomorphisms.c"], [("enumeration", "pd_build_isos, pd_build_map_isomorphisms, pd_build_diagram_isotopies"), ("group", "pd_compose_isos, pd_stareq_iso, pd_copy_iso, pd_iso_cmp, pd_iso_is_e, pd_iso_period")],
     "Every diagram with up to 2 crossings, samples at 3 (thorough: all), random to 7 (9) crossings, families; the specification enumerates the dart maps independently and the two sets must be equal; multiplication tables (up to 10 maps; 24) for families and small diagrams. " + ASAN)
prop("P09", "The hash of a diagram is an invariant and never stale",
     "Isomorphic diagrams have equal hashes, however they are numbered, directed, signed, tagged or reflected, and diagrams that differ in crossing number or (when small) in face or component lengths have different hashes. After every operation the hash carried by the result is the one a diagram built afresh from its crossings and edges would have.",
     ["inputs", "histories"], "for every pair of diagrams and every history of operations",
     "Tests compare hashes of a few stored pairs; no test recomputes the hash after a move.",
     ["src/pdcode.c", "src/pd_crossingmoves.c", "src/pd_splitdiagram.c"], [("hash", "pd_regenerate_hash"), ("callers", "pd_regenerate_hash in every move")],
     "All words of length 2 (3) over nine operations on small diagrams and random histories of 10 (20) calls with the hash recomputed after every call; hundreds of presentation variants to 14 (18) crossings. " + ASAN)
prop("P10", "Collections of diagrams hold each diagram once and keep it across files",
     "After any history of additions, searches, listings and file round trips, a collection lists each stored diagram exactly once under a hash and number that identify it, an addition stores the diagram exactly when no equivalent one (under the chosen equivalence) is stored, and the argument's number names the stored copy either way. Searching finds an isomorphic stored diagram with all isomorphisms exactly when there is one. Writing and reading (whole or incrementally) reproduces the collection, and files whose header or contents are inconsistent are refused without crashing.",
     ["inputs", "histories", "fault_sequences"], "for every history of collection operations, every equivalence and every damaged file",
     "Tests add stored files and count elements; histories mixing equivalences, files with duplicates, damaged files and incremental files are not covered.",
     ["src/pd_storage.c", "src/pd_pack.c", "src/pd_isomorphisms.c"], [("addition", "pd_addto_pdstor"), ("iteration", "pd_stor_firstelt, pd_stor_nextelt"), ("search", "pd_search_pdstor_by_isomorphism"), ("files", "pd_write_pdstor, pd_read_pdstor, pd_*_incremental_pdstor")],
     "The abstract model StoreHist is checked exhaustively for all histories of length 2 (3) over 4 objects and 3 equivalences and each of them is replayed; random histories of 12 (25) calls; stores of up to 40 (100) additions; headers and byte-level damage. " + ASAN,
     state=[dict(name="collection", meaning="hash -> number -> packed diagram, plus element count and iteration position", where="src/pd_storage.c struct pdstorage_struct")])
PLC = "Trusts TLC, gcc's AddressSanitizer and the driver's projection (coordinates on a grid of 1/1024; curves are generated so that the exact result lies on it, or is compared within two grid units). "
prop("P11", "Queries about a diagram answer what its definition says",
     "For every edge, the next and previous edge, its component and position, its two faces and positions and whether it lies on a face are those of the diagram; for every signed crossing the over and under strands, as edges and as positions, follow from the sign and the directions. Linking numbers (signed and unsigned), alternation and the signed and unsigned counts of interlaced crossings equal their definitions. Asking changes nothing.",
     ["inputs"], "for every diagram, edge, face, crossing, component and pair of components, whatever the edge directions, signs and numbering",
     "Tests ask a few of these questions of a few stored diagrams; wrong answers at particular positions or wrap-arounds go unnoticed.",
     ["src/pdcode.c", "src/plcTopology.c", "src/pd_invariants.c"], [("neighbours and positions", "pd_next_edge, pd_previous_edge, pd_component_and_pos, pd_face_and_pos, pd_edge_on_face"), ("over and under", "pd_overstrand, pd_understrand (_pos)"), ("counts", "pd_linking_number, pd_unsigned_linking_number, pd_is_alternating, pd_interlaced_crossings")],
     "Every diagram with up to 3 (4) crossings with all directions and signs, all shadows of that size, random diagrams up to 12 (16) crossings before and after reorienting, renumbering and moves, all families. " + ASAN)
prop("P12", "HOMFLY polynomials satisfy the skein definition and are link invariants",
     "The polynomial reported for a diagram is the one determined by l P(+) + P(-)/l + m P(0) = 0 with value 1 on the unknot, printed with each monomial once, in a fixed order and without zero terms, so that equal polynomials print as equal text. It does not change under moves, renumbering or mirror-free redrawing, turns l into 1/l for the mirror image, and multiplies under connect sum.",
     ["inputs", "histories"], "for every signed diagram of a knot or link",
     "Tests compare stored values for table knots in one stored drawing each; other diagrams, links and drawings are not tried.",
     ["src/plcTopology.c", "src/pllmpoly02.c", "src/polynomials.c"], [("crossing code", "pdcode_to_ccode"), ("polynomial", "plc_lmpoly"), ("printed form", "lmpoly_to_latex")],
     "Computed in the specification by the skein relation: every diagram with up to 4 crossings and all directions (thorough: a sample of 5), random diagrams with 5-10 (12) crossings, all families; connect sums up to about 40 crossings through the product law, and powers of small knots whose coefficients exceed 32 bits; on diagrams of up to 250 crossings (braids, torus links, chains, random walks) the skein relation between the diagram and its two changes at a crossing, modulo a prime. Polynomials whose text exceeds the program's 12000 characters are refused and not claimed. " + ASAN)
prop("P13", "Knot classification finds the type and depends only on the polynomial",
     "Classifying a knot diagram returns every table entry with the diagram's HOMFLY polynomial and no other, the same for every diagram with that polynomial, and among them the true type for knots of the table, their mirror images, twist and torus knots and connect sums up to twelve crossings in total; the diagram is left intact. A knot type typed as factors joined by # is read as exactly those factors or refused, and what is written can be read again.",
     ["inputs"], "for every knot diagram and every text",
     "No test covers reading knot types or what classification does to its argument; few diagrams are classified.",
     ["src/plcTopology.c", "src/homfly.h", "src/pdcode_testcodes.c"], [("classification", "pd_classify"), ("table", "src/homfly.h ktdb"), ("typed knot types", "plc_read_knottype, plc_write_knottype")],
     "Table knots up to 8 crossings and a sample of 9 and 10 (thorough: all 249) with mirror images and redrawings, all knot diagrams with up to 4 crossings, random diagrams, connect sums of two and three table knots, 130 typed knot types. The true type is known to the specification for table knots (drawings from the KnotTheory table, data/rolfsen.txt) and families. " + ASAN)
prop("P14", "A closed polygonal curve is turned into its own diagram",
     "For a closed curve or link whose projection along the z axis is in general position and connected, the diagram returned is the one seen along that axis: one crossing per pair of edges whose projections cross, in the order met along each oriented component, with over/under by height and the corresponding sign. For knots seen along a direction full of coincidences (lattice curves, vertical edges, vertices over edges, three strands over one point) a well-formed diagram of the same knot is returned, and the polynomial and knot types reported for a curve are those of the curve. The curve itself is not modified.",
     ["inputs"], "for every closed curve with edges well apart, at any scale and in any position",
     "Tests check that the code made from a few fixed curves is valid, or isomorphic to a stored one; crossing order within an edge, wrap-around edges, signs and coincidences are sampled once.",
     ["src/plcTopology.c"], [("crossings of the projection", "segment_side, locate_crossing, findcrossings"), ("coincidences", "tag_as_trouble, make_zprojection_generic"), ("assembly", "divide_crossings_by_component, assemble_pdcode"), ("invariants of curves", "plc_homfly, plc_classify")],
     "PDProj defines the projected diagram with exact integer geometry (design-checked: planar, and HOMFLY independent of direction). 260 (3000) random curves of 1-4 components in general position are compared diagram by diagram; 60 (700) lattice curves from arc presentations with random lattice moves and 40 (400) curves with triple points are compared through the skein polynomial of the specification's own projection; curves with more than 1000 crossings are compared diagram by diagram. " + ASAN)
prop("P15", "Group iterators visit every element once, in step, and obey the group laws",
     "Iterating permutations, dihedral and cyclic group elements, orientations and their multi-indices from the start visits every element of the group (or product) exactly once, counts them correctly and returns to the first. Composition, inverse, star product and period obey the group laws, comparison is a total order consistent with equality, copies are independent of their original, uniqueness of a list is decided correctly, and printing an element of any size shows that element without writing past its buffer. An element reached by algebra can be iterated on exactly like one reached by counting.",
     ["inputs", "histories"], "for every group size, every product of groups and every history of operations on elements",
     "Tests iterate a few sizes from the start; mixing algebra, copies and iteration, and long printed forms, are not tried.",
     ["src/pd_perm.c", "src/pd_dihedral.c", "src/pd_cyclic.c", "src/pd_orientation.c", "src/pd_multidx.c"], [("permutations", "pd_increment_perm, pd_compose_perms, pd_inverse_perm, pd_stareq_perm, pd_perm_period"), ("dihedral, cyclic, orientation", "pd_increment_*, pd_n*"), ("products", "pd_increment_multidx, pd_multidx_unique"), ("printing", "pd_print_perm, pd_print_dihedral, pd_print_cyclic")],
     "Iter defines the groups and the counting order; IterMC checks distinctness, completeness and the laws for all permutations of up to 4 and dihedral/cyclic groups; full rounds for permutations of up to 6 (8) and other groups up to 60, 40 (250) random products with up to 400 (3000) elements, 150 (1500) histories of 30 operations on four elements, printing of up to 200 letters. " + ASAN)
prop("P16", "Tangles are cut out correctly and sliding a strand across one keeps the link",
     "Given the circle of edges and faces around a connected part of a diagram, the tangle found inside it has exactly that part's crossings and edges, the strands that run through it with their ends, lengths and components, and the right direction for every boundary edge. Sliding a strand that passes over (or under) consecutive boundary edges to the other side gives exactly the pieces of the diagram in which that strand crosses the remaining boundary edges instead, with directions, signs and component tags, or is refused when an end of the strand is not held outside the tangle; the diagram itself is not modified.",
     ["inputs"], "for every diagram, every part of it with connected complement, and every strand along its boundary",
     "Tests slide a handful of strands over fixed tangles whose boundary edges lead straight away; components that grow, boundary edges that return through the strand, single crossings and kinks are not covered.",
     ["src/pd_tangles.c", "src/pd_deletions.c", "src/pd_splitdiagram.c"], [("contents of a tangle", "pd_regenerate_tangle_err, tangle_contents_worker, pd_tangle_bdy_or"), ("sliding", "pd_tangle_slide_err, pdint_check_tslide_data_ok_and_find_te"), ("pieces", "pd_crossing_delete, pd_split_diagram")],
     "PDTangle constructs the slid diagram dart by dart; PDDesign checks on every diagram up to 3 (4) crossings and samples of 5-7 that this keeps the skein polynomial and planarity. Every part of every diagram with up to 3 (4) crossings and all directions, every part of random diagrams with 4-8 (9) crossings, grown parts of diagrams with 12-16 (20) crossings, with every admissible strand. Strands that cross no boundary edge are not claimed. " + ASAN)
prop("P20", "Vertex constraints behave as a map from vertices to constraints",
     "After any history of setting, releasing and removing constraints, of copying the curve and of adding or dropping components, each vertex carries exactly the constraint last set on it and not released since, and the list kept with the curve is a set of disjoint runs inside its components that says just that. Removing a constraint reports how many vertices carried it; fixing moves each constrained vertex to the nearest admissible point and no other; checking returns the largest distance to a constraint.",
     ["inputs", "histories"], "for every curve and every finite history of constraint and component calls",
     "Tests run one fixed script of constraint calls; the list of runs has many overlap cases (inside, across, adjacent, equal, on another component) that only histories reach.",
     ["src/plCurve.c", "src/plCurve.h"], [("runs of constraints", "overrun_check, plc_set_constraint, plc_unconstrain, plc_remove_constraint"), ("enforcement", "plc_fix_cst, plc_check_cst"), ("components", "plc_add_component, plc_drop_component, plc_copy")],
     "CstHist (list of runs against the function it denotes) is checked exhaustively for all pairs of calls and all triples over two constraints on four vertices, and the histories are replayed; random histories of 14-16 (30) calls over six constraints and up to three components. " + PLC,
     state=[dict(name="constraint list", meaning="runs (component, first vertex, count, kind, data)", where="src/plCurve.h plc_constraint")])
prop("P21", "Structural edits of curves keep what they do not touch",
     "Creating, copying, adding and dropping components, resizing and setting colors, deleting an arc, doubling vertices and restoring the wraparound vertices give exactly the curve described: vertices, openness, colors and constraints of the parts not named stay as they were and in order. The hidden vertices before the first and after the last vertex of every component always hold the wraparound values, no call changes another curve, and copies share nothing.",
     ["inputs", "histories"], "for every curve (open and closed components, zero, one or a color per vertex) and every history of edits",
     "Tests edit one or two curves; combinations of openness, color counts, component positions and wraparound arcs are not sampled.",
     ["src/plCurve.c"], [("components", "plc_new, plc_copy, plc_add_component, plc_drop_component"), ("arcs", "plc_delete_arc"), ("refinement", "plc_double_verts"), ("wraparound", "plc_fix_wrap"), ("colors", "plc_resize_colorbuf, plc_set_color")],
     "Every single edit on every pair of small shapes (sampled in quick), every arc of every strand of up to 5 (8) vertices, random histories of 14 (30) edits. Doubling is not claimed where a strand turns straight back. " + PLC)
prop("P22", "Curve files round-trip, every legal layout reads alike, damage is refused",
     "Writing a curve to a VECT file and reading it back gives the same curve to the sixteen digits written: components, openness, vertices, colors and constraints. A file in any legal layout (blank space, comments, number formats, order of constraint definitions) is read as the curve it describes, and any other text is refused with an error code and a message, without crashing, hanging or touching memory out of bounds.",
     ["inputs", "fault_sequences"], "for every curve and every text",
     "Tests read back one curve and a dozen broken files.",
     ["src/plCurve.c"], [("writer", "plc_write"), ("reader", "plc_read, scandoubles, get_comment")],
     "A grammar of the format (PLCFile) decides the expected curve or error of each text: curves at the end of random histories, unrounded numbers, up to 40 (300) constraints; 400 (5000) legal layouts; 1500 (20000) damaged texts and byte-by-byte damage of written files. Texts whose reading hinges on how scanf splits a malformed word are only required not to crash. " + PLC)
prop("P23", "Motions of curves move every vertex as defined and carry constraints along",
     "Scaling, translating, mirroring, reversing and permuting components move every vertex exactly as defined and carry colors and constraints with the vertices. Rotating, projecting, turning an axis upwards and folding between two vertices apply the defined linear map to the right vertices and leave the others alone; perturbing moves unconstrained vertices within the given radius only.",
     ["inputs", "histories"], "for every curve with any constraints, every axis and angle, every permutation and reversal",
     "Tests rotate one curve and apply a few Whitten elements to unconstrained curves.",
     ["src/plCurve.c"], [("motions", "plc_scale, plc_translate, plc_whitten, plc_rotate, plc_random_rotate, plc_project, plc_pfm, plc_perturb")],
     "About 270 (4500) constrained curves with 1-4 exact motions and 3 rational rotations or projections each, folds between random vertices, 14 axes and 9 angles including the poles. Rotating constraints is documented as missing and not claimed. " + PLC)
prop("P24", "Counts, numbering, lengths and angles agree with their definitions",
     "Edge and vertex counts, the numbering of vertices across components and its inverse (with out-of-range indices wrapped or clamped), total and partial arclengths, edge statistics, diameter, center of mass, radius of gyration and mean squared chords equal their defining sums, for open and closed components alike. Turning angles, MinRad curvature at a vertex, total curvature, total torsion and tangent directions are those of the polygon, and measuring never changes the curve.",
     ["inputs"], "for every curve of any number of open and closed components",
     "Tests measure a regular polygon or a random polygon and compare with the library's own numbers.",
     ["src/plCurve.c"], [("measures", "plc_arclength, plc_subarc_length, plc_s, plc_edgelength_stats, plc_pointset_diameter, plc_center_of_mass, plc_gyradius, plc_mean_squared_chordlengths"), ("angles", "plc_turning_angle, plc_MR_curvature, plc_totalcurvature, plc_totaltorsion, plc_mean_tangent"), ("numbering", "plc_vertex_num, plc_cp_num, plc_vt_num")],
     "Curves whose edges have integral lengths (160; thorough 2500) and lattice curves (200; 3000) of 1-4 components, so that every value is known exactly. " + PLC)
prop("P25", "Struts, minimum radius, thickness and ropelength are those of the polygon",
     "The struts found for a curve are exactly its locally shortest segments between edges that share no vertex: those not longer than the cutoff, or within epsilon of the shortest, each listed once with its edges, positions and length (as many as fit when the list is short), whatever the octree depth and workspace. The radius at a vertex, for each of its two edges, is half the length of that edge divided by the tangent of half the turning angle, minrad is the smallest one, thickness the smaller of half the shortest strut and minrad/lambda, and ropelength the length of the curve divided by the thickness. Reading back a strut file gives the written records, a damaged one is refused or gives records that lie on the curve, and the curve itself is never modified.",
     ["inputs"], "for every curve without edges of length zero or strands turning straight back, every cutoff, epsilon, list size and lambda",
     "Tests compare the thickness and strut counts of a few stored knots with stored values; small lists, several components, open strands, cutoffs and octree depths are hardly varied.",
     ["src/octrope.c", "src/octrope.h"], [("octree search", "build_octree, box_intersects, check_boxes, strut_check"), ("strut lists", "octrope_struts, cleanup_strutlist"), ("radii", "octrope_minrad"), ("all at once", "octrope, octrope_thickness, octrope_ropelength, octrope_poca"), ("files", "octrope_strutfile_read, octrope_strutfile_write")],
     "Rope decides with exact rational arithmetic which pairs of edges of an integral curve carry a strut (design laws: independent of reversal, the shortest strut is the smallest distance of non-adjacent edges, every strut is a local minimum); 260 (4000) small and 24 (250) curves of up to 120 edges with struts of every length, 200 (3000) curves with integral edges for radii, thickness and ropelength, 700 (7000) damaged strut files. Exactly parallel edges and feet exactly at a vertex may be reported or not. " + ASAN)
prop("P26", "Symmetry groups act on the curve, and symmetrizing averages over them",
     "The rotation, reflection and coordinate-plane groups built for a curve consist of exactly the stated matrices with right inverses, and each sends every vertex to the vertex nearest to its image, or no group is returned when two vertices would be sent to the same one. Symmetrizing a curve or a variation replaces every vector by the average of its images over the group (hidden vertices included), and the error reported for an element or a group is the largest distance between the image of a vertex and the vertex it is sent to. Copies of a curve own their group, scaling and rotating keep it a symmetry group of the moved curve, and translating, reordering, adding or dropping components discards it.",
     ["inputs", "histories"], "for every curve, every group and every history of motions, edits and copies",
     "The test symmetrizes torus knots about the z axis; reflections, points on the axis, permuted components, histories of edits and copies are not covered.",
     ["src/symmetries.c", "src/plCurve.c", "src/plwhitten.c", "src/matrix.c"], [("building", "plc_build_symmetry, plc_rotation_group, plc_reflection_group, plc_coordplanes_reflection_group"), ("averaging", "plc_symmetrize, plc_symmetrize_variation"), ("errors", "plc_symmetry_check, plc_symmetry_group_check"), ("upkeep", "plc_copy, plc_rotate, plc_translate, plc_add_component, plc_drop_component")],
     "Sym defines matrices, actions and averages in fixed-point arithmetic; SymMC checks that averaging gives a symmetric curve, is idempotent and keeps symmetric curves. 170 (2500) histories of 4-9 operations on three curves with the symmetry up to a wobble (orders 1-12, seven axes), 60 (800) curves without it. The order of the elements is not prescribed; nearest vertices closer than 1/64 to a tie may go either way. " + ASAN)
prop("P27", "Nearest-neighbour queries return a nearest point whatever was kept from before",
     "The point of a buffer, or the vertex of a curve, returned for a query point is one of least distance, for buffers of any size (small ones are searched exhaustively, large ones by sorting) and with or without data kept from earlier queries. Data kept for another buffer or curve is recognised, reported as stale and rebuilt, and freeing it leaves nothing behind.",
     ["inputs", "histories"], "for every buffer, curve and query point and every history of queries with kept data",
     "The test compares random queries on one buffer with exhaustive search; switching buffers and curves, ties and flat buffers are not tried.",
     ["src/nearest_neighbor.c"], [("buffers", "plc_nearest_neighbor, max_dimension, nn_cmp"), ("curves", "plc_nearest_vertex"), ("kept data", "plc_nearest_neighbor_pc_data_free, plc_nearest_vertex_pc_data_free")],
     "NearMC checks the two-sided sorted search exhaustively on small grids (2; thorough 3 points, every start); 120 (2000) histories of 14 queries on up to four buffers and two curves, 6 (60) with buffers around and above the 5000 points at which sorting starts, in four shapes including flat and repeated points. Kept data for a buffer that was changed in place is not claimed (the header forbids it). " + ASAN)
prop("P28", "Triangulations of polygons are exactly those their chords describe",
     "The fan, spiral, teeth and random triangulations of every polygon, and the one generated from any given non-crossing chords (in either direction and any order), consist of exactly those chords, one triangle per region, each edge and diagonal used where the chords put it, linked into one tree from the root with consistent parents and daughters. Chord systems with crossing chords are refused, and the validity check accepts every triangulation so built and rejects one whose counts, chords, directions or links are out of range, missing, doubled or mismatched at a triangle's corners.",
     ["inputs"], "for every number of edges and every system of chords",
     "Tests build a few sizes of the named families; arbitrary chord systems and damaged trees are not enumerated.",
     ["src/plcToricSymplecticTriangulation.c", "src/tsmcmc.h"], [("named families", "tsmcmc_fan_triangulation, tsmcmc_spiral_triangulation, tsmcmc_teeth_triangulation, tsmcmc_random_triangulation"), ("from chords", "tsmcmc_generate_triangulation, chordsystem_ok"), ("validity", "tsmcmc_triangulation_ok")],
     "TriMC builds every maximal chord system of polygons with 3-6 edges in both directions and of 7 (8) edges, checks the laws of triangulations (n-3 chords, n-2 triangles, a tree), and all of them (a sample of 2200 in quick) are replayed; random systems of up to 24 edges, the named families from 3 to 32 edges, 100 (1500) damaged triangulations. " + ASAN)
prop("P29", "The polygon Markov chain stays among closed polygons and samples them uniformly",
     "Every kind of step of the chain keeps the diagonal lengths inside the moment polytope (and inside the confinement radius), the angles in range, the edge lengths and the failure-to-close edge as they were, changes only what that kind of step may change, and permutations permute the edge vectors of the polygon. Embedding lengths and angles gives the closed polygon with those lengths and dihedrals, and reading them off a polygon gives them back; an expectation computed by a run uses each step, burn-in, sample, interval and log as requested and counts them rightly. Long runs reproduce the means of the uniform distribution over the polytope.",
     ["inputs", "histories"], "for every triangulation, all lengths, confinement radii, run parameters and every history of steps",
     "Tests run chains on a few sizes and look at one integrand; mixtures of steps, confinement, log formats and degenerate lengths are not tried.",
     ["src/plcToricSymplectic.c", "src/plcToricSymplecticTriangulation.c", "src/tsmcmc.h"], [("steps", "tsmcmc_moment_polytope_step, tsmcmc_confined_moment_polytope_step, tsmcmc_dihedrals_step, tsmcmc_edgepermute_step, tsmcmc_dihedral_diagonal_step"), ("embedding", "tsmcmc_embed_polygon, tsmcmc_compute_diagonals, tsmcmc_compute_dihedral_angles"), ("runs", "tsmcmc_equilateral_expectation, tsmcmc_fixed_ftc_expectation, tsmcmc_confined_equilateral_expectation"), ("logs", "tsmcmc_configuration_MathematicaForm, tsmcmc_run_params_MathematicaForm")],
     "Chain defines admissible lengths, hinges, permuted edge vectors and averages over lattice cells of the polytope; ChainMC walks all small integral polytopes and checks that every admissible arc leads to an admissible state and that the polytope is convex. 500 (15000) states of that walk and their neighbours outside are replayed, 110 (2000) histories of 3-8 calls of 1-4 steps, 440 (8000) length systems and integral polygons, 48 (420) runs with all parameters, means of 30000 samples with tolerances above eight standard errors. Permuting the edges of flat polygons, dihedrals of degenerate triangles and logs for triangles are not claimed. " + ASAN)
prop("P30", "Random polygons have the promised shape and the promised averages",
     "Each random polygon sampler returns one component with the requested number of edges, open or closed, spatial or planar, with total length two or unit (or equal) edges as documented, and self-avoiding polygons keep all vertices at distance at least one; the same state of the generator gives the same polygon. Mean squared chords over any number of edges from any starting vertex are those of the measure, with no preferred direction or handedness, and random unit vectors and perturbations are uniform on the sphere and in the ball. Closing an open component keeps its vertices and colors and the other components, adds a closing arc with exactly the requested edges whose expected course is the straight one, makes the total length two, and fails when that is impossible.",
     ["inputs"], "for every number of edges, every state of the generator and every curve to be closed",
     "Tests draw samples of a few sizes and look at one average or only at the time taken; closures are tried on single components.",
     ["src/plcRandomPolygon.c", "src/plcRandomSap.c", "src/vector.c"], [("symmetric measure", "plc_random_closed_polygon, plc_random_open_polygon, plc_random_closed_plane_polygon, plc_random_open_plane_polygon"), ("equilateral", "plc_random_equilateral_closed_polygon, fantriangulation_action_angle, plc_random_equilateral_open_polygon"), ("self-avoiding", "plc_random_equilateral_closed_self_avoiding_polygon, plc_is_sap, plc_xoshiro_uniform"), ("closing", "plc_loop_closure, plc_random_ftc_internal"), ("vectors", "plc_random_vect, plc_perturb_vect")],
     "Poly gives the support and the averages of every measure; PolyMC proves the chord formulas by averaging over all orders of all small sets of integral edges. 100 (1000) polygons of each kind with 3-1000 (3000) edges, averages of 60000 (400000) samples at eight standard errors, self-avoiding polygons against rejection from the plain sampler, 300 (5000) point sets at and around distance one, 250 (4000) closures. Closures to fewer than three edges are not claimed. " + ASAN)
prop("P31", "Error estimates of sampled means are Geyer's, streamed or at once",
     "Feeding samples one by one through a buffer of any size yields the same mean, covariances, initial positive sequence estimate and error bound as computing from the whole series, up to the lags the buffer holds, whatever the number of samples added between two queries; asking for a value never changes the series. The estimate is the sum of the lag pairs (Gammas) up to the first negative one, and is reported as failed exactly when that cannot be decided within the buffer.",
     ["inputs", "histories"], "for every series of samples, buffer size and pattern of additions and queries",
     "The test compares one long autoregressive series with a known answer; short series, buffers that just fit and queries in between are not covered.",
     ["src/geyer_estimators.c", "src/geyer_estimators.h"], [("streaming", "geyer_ips_add, split_lagged_dot, update_lagged_dots"), ("estimates", "geyer_ips_value, geyer_ips"), ("batch", "sample_mean, lagged dot products")],
     "GeyerMC streams every series of up to 7 (9) samples over three values through buffers of 2-4 and checks streamed against defined covariances and the estimate; 2500 (40000) of these are replayed with queries in between, plus 70 (1500) series of up to 150 samples with buffers of 2-200, the list of Gammas, and slowly varying series whose sums stay positive. Buffers hold at least two samples; a Gamma or a sum of exactly zero may count either way; the incremental functions the header declares are not implemented. " + ASAN)
prop("P32", "Splines are smooth, pass through the vertices, and resample evenly",
     "The spline of a curve passes through its vertices at their arclengths, has continuous first and second derivatives along each strand and the mean tangents of the curve at the ends of the strand, and is a single cubic between neighbouring vertices; sampling and tangents agree with it, on closed strands for any real parameter. Converting back to any numbers of vertices gives the points of the spline at equal parameter steps, with openness kept, colors interpolated and hidden vertices right; neither conversion changes its argument.",
     ["inputs"], "for every curve without edges of length zero and all numbers of vertices",
     "Tests convert one curve and look at the picture or the distance to the original.",
     ["src/splines.c"], [("building", "plc_convert_to_spline"), ("evaluation", "plc_sample_spline, plc_spline_tangent, evaluate_poly"), ("resampling", "plc_convert_from_spline")],
     "Spline states the relations that determine the clamped spline from values and tangents; SplineMC checks them on all cubics with small integral coefficients. 260 (4000) curves with integral edges, of 1-3 components of 2-10 vertices, each resampled up to four times. Parameters beyond the ends of an open strand, vertices without a mean tangent and the translation of constraints are not claimed. " + ASAN)
prop("P33", "Vector geometry computes what it says, or reports that it cannot",
     "Sums, products, norms, distances, combinations, rotations, angles, normals, dihedral angles, circumcenters, intersections of planes and inradii have the values of their definitions, in the documented ranges, and degenerate arguments are reported through ok. The list of dihedral angles of a curve holds the two angles of every quadruple of vertices in lexicographic order, up to the given cap.",
     ["inputs"], "for all vectors and curves",
     "Tests try a dozen vectors; dihedral lists are not tested.",
     ["src/vector.c", "src/plc_dihedrals.c", "src/plCurve.h"], [("algebra", "plc_cross_prod, plc_vlincomb, plc_component_div, plc_normalize_vect"), ("angles", "plc_angle, plc_dihedral_angle, plc_angle_dist, plc_rotate_vect"), ("figures", "plc_circumcenter, plc_normal, plc_3plane_intersection, plc_tetrahedron_inradius"), ("lists", "plc_dihedral_angles")],
     "Vect characterises every result by integral relations, whose design laws VectMC checks on all points of a small grid (sampled in quick). 1500 (25000) quadruples of points including coincident, collinear and planar ones, 700 (10000) rotations, 154 (2004) dihedral lists. Numerical accuracy beyond 1/10000 is not claimed. " + ASAN)
prop("P34", "Curves of any dimension survive files, copies, reversals and extraction",
     "An n-dimensional curve written by nplc_write and read back by nplc_read is the same curve up to 15 digits, in any legal layout of the file, and a file that does not describe a curve is refused with the error code of the first thing wrong. Copies, components and reversals have exactly the vertices, openness, colors and wrap-around vertices they should and leave other curves alone; dimension, counts of edges and vertices, lengths and subarc lengths (the shorter way on closed strands) are those of the curve.",
     ["inputs", "histories"], "for all curves and files without constraint comments",
     "The existing tests do not touch the n-dimensional library.",
     ["src/nplCurve.c", "src/nplCurve.h"], [("files", "nplc_write, nplc_read"), ("copies", "nplc_new, nplc_copy, nplc_component, nplc_reverse, nplc_fix_wrap, nplc_free"), ("measures", "nplc_dim, nplc_edges, nplc_num_edges, nplc_num_verts, nplc_arclength, nplc_subarc_length")],
     "NCurve specifies curves over integral points, the operations and the grammar of the files; NCurveMC checks that the text of every reachable curve parses to it, that no proper prefix parses, and the laws of reversal and length, and emits the histories. 400 (6000) histories in dimensions 1 to 9, on grids of size 1e-150 to 1e120, four curves of dimension 7 to 300, 400 (5000) legal layouts, 1800 (23000) damaged files. Constraint comments are not claimed: the header marks constraints as not converted. " + ASAN)
prop("P35", "Vectors of any dimension compute what they say, or report that they cannot",
     "Sums, differences, multiples, combinations, products, quotients, norms, distances, angles and unit vectors in any dimension have the values of their definitions and leave their arguments alone, division by a zero component and the direction of the zero vector are reported through ok, and printed forms list every coordinate. Random vectors are unit vectors, uniform on the sphere, in every dimension.",
     ["inputs"], "for all vectors of equal dimension",
     "The existing tests do not touch the n-dimensional library.",
     ["src/nvector.c", "src/nplCurve.h"], [("algebra", "nplc_vect_sum, nplc_vect_diff, nplc_scale_vect, nplc_vlincomb, nplc_vmadd, nplc_vweighted, nplc_component_mult, nplc_component_div, nplc_build_vect"), ("measures", "nplc_dot_prod, nplc_norm, nplc_distance, nplc_sq_dist, nplc_angle, nplc_vecteq, nplc_normalize_vect"), ("text", "nplc_vect_print, nplc_vect_clist"), ("random", "nplc_random_vect")],
     "NCurve defines the operations on integral vectors, whose laws NVectMC checks on all vectors of a small grid (sampled in quick). 1200 (20000) pairs of dimension 1 to 12, with parallel, equal and zero ones; 4000 (40000) random vectors in each of nine dimensions up to 60, first and second moments within 8 standard deviations. That nplc_vmadd works in place is not claimed either way. " + ASAN)
prop("P36", "HOMFLY polynomials keep every term in each notation and multiply exactly",
     "A polynomial in l and m written in lmpoly's notation and read back is the same polynomial, with its terms in the library's order, whatever zeros the text has in addition; the LaTeX, Mathematica and KnotTheory forms show exactly its terms. The product of two polynomials has one term for each pair of powers and no zero term, two polynomials compare equal exactly when they have the same terms, and none of this changes the arguments.",
     ["inputs"], "for all nonzero polynomials with coefficients of a long",
     "The existing tests convert the polynomials of a few diagrams.",
     ["src/polynomials.c", "src/polynomials.h"], [("reading", "lmpoly_to_polynomial, KnotTheory_to_polynomial"), ("writing", "polynomial_to_lmpoly, lmpoly_check"), ("forms", "poly_to_latex, poly_to_mathematica, lmpoly_to_latex, lmpoly_to_mathematica"), ("algebra", "product_polynomial, polynomials_eq")],
     "LMPoly defines the notations and the product, LMPolyMC checks that the notation determines the polynomial and that the product is one (commutative, value at points). 1100 (14000) polynomials with powers between -40 and 40, missing rows and columns, single terms, coefficients up to 2^62, some with 400 terms; 900 (12000) products with cancellation. The zero polynomial is not claimed. " + ASAN)
