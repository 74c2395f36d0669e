"""Which harness runs decide which property: id -> list of (harness, configuration, link library?)."""
RUNS = {
    "C01": [("c01_vector", "san", False)],
    "C02": [("c02_string", "san", False)],
    "C03": [("c03_algo", "san", False)],
    "C04": [("c04_lattice", "san", False)],
    "C05": [("c05_morton", "san", False), ("c05_morton", "sancore", False), ("c05_morton", "rel", False),
            ("c05_morton", "nobmi", False)],
    "C06": [("c06_roots", "san", False)],
    "C07": [("c07_linalg", "san", True), ("c07_linalg", "sancore", True), ("c07_linalg", "rel", True)],
    "C08": [("c08_polygon", "san", False)],
    "C09": [("c09_contains", "san", False)],
    "C10": [("c10_rays", "san", False)],
    "C11": [("c11_quadseg", "san", False)],
    "C12": [("c12_modular", "san", False)],
    "C13": [("c13_grid", "san", False)],
    "C14": [("c14_mesh", "sancore", True)],
    "C15": [("c15_meshrays", "sancore", True)],
    "C16": [("c16_soup", "sancore", True), ("c16_unsorted", "noassert", True)],
    "C17": [("c17_xdmf", "san", True)],
    "C18": [("c18_meshfiles", "sancore", True)],
    "C22": [("c22_pins", "san", True)],
    "C19": [("c19_model", "san", True)],
    "C20": [("c20_placement", "san", True)],
    "C21": [("c21_modelio", "san", True)],
    "C34": [("c34_companions", "san", True)],
    "C23": [("c23_xsec", "san", True)],
    "C24": [("c24_xslib", "san", True)],
    "C25": [("c25_material", "san", True)],
    "C26": [("c26_power", "san", True)],
    "C27": [("c27_capi", "san", True)],
    "C31": [("c31_logger", "san", True), ("c31_logger", "noassert", True)],
    "C32": [("c32_damage", "san", True), ("c32_damage", "noassert", True)],
    "C28": [("c28_cad", "san", True)],
    "C29": [("c29_cadfile", "san", True)],
    "C30": [("c30_cadmodel", "san", True)],
    "C35": [("c35_import", "san", True)],
    "C36": [("c36_cmfd", "cmfd", True)],
    "C37": [("c37_meshing", "san", True)],
    "C38": [("c38_cmfdinfo", "cmfd", True)],
    "C39": [("c39_libdamage", "san", True), ("c39_libdamage", "noassert", True)],
    "C40": [("c40_session", "san", True)],
    "C41": [("c41_lifecycle", "san", True)],
    "C42": [("c42_values", "san", True), ("c42_values", "rel", True)],
    "C43": [("c43_selfcross", "san", True)],
    "C44": [("c44_refuse", "san", True)],
}
# Checks that compare the verdict of every case between configurations
COMPARE = {"C33"}
_broad = ["c01_vector", "c02_string", "c03_algo", "c04_lattice", "c05_morton", "c06_roots", "c07_linalg", "c08_polygon",
          "c09_contains", "c10_rays", "c11_quadseg", "c12_modular", "c13_grid", "c14_mesh", "c15_meshrays", "c16_soup",
          "c17_xdmf", "c18_meshfiles", "c19_model", "c20_placement", "c21_modelio", "c22_pins", "c23_xsec", "c24_xslib",
          "c25_material", "c26_power", "c27_capi", "c34_companions"]
_lib = {r[0]: r[2] for runs in RUNS.values() for r in runs}
_single = {"nobmi": ["c05_morton", "c14_mesh"], "nosimd": ["c07_linalg", "c08_polygon", "c10_rays", "c13_grid", "c15_meshrays"],
           "noblas": ["c07_linalg", "c23_xsec"]}
RUNS["C33"] = [(h, c, _lib[h]) for h in _broad for c in ("rel", "plain")] + \
    [(h, c, _lib[h]) for c, hs in _single.items() for h in hs]
# id -> (technique, level note[, level])
INFO = {
    "C01": ("exhaustive enumeration of operation histories on the real container against a reference model",
            "All histories over 34 operations on two vectors up to the stated depth for six element types; "
            "every reachable state compared with std::vector, element lifetimes and heap blocks counted."),
    "C02": ("exhaustive enumeration of operation histories and short texts against a reference model",
            "All histories over two strings with lengths around the in-place limit up to the stated depth; all texts "
            "over a three-letter alphabet up to the stated length for view queries; reference is std::string."),
    "C03": ("exhaustive enumeration of small arrays, permutations and lengths against definitions",
            "All arrays over four values up to the stated length, all permutations of up to eight elements, all "
            "sub-ranges, and every length up to the stated bound for sums and moments."),
    "C04": ('exhaustive enumeration of short texts against a grammar-based reference',
            'All texts over the stated alphabets of pieces up to the stated length, all table shapes up to 20x20; the reference is an independent grammar-driven parser.'),
    "C05": ('exhaustive enumeration of codes and coordinates against the bit-interleaving definition',
            'Every 32-bit code in two and three dimensions, structured 64-bit coordinates and full one-coordinate sweeps, in builds with and without bit-manipulation instructions.'),
    "C06": ('exhaustive enumeration of coefficient and root lattices against exact root counts',
            'All integer quadratics with |coefficient| <= 12 and cubics with |coefficient| <= 6 (number of real roots from the exact integer discriminant), all polynomials from the listed roots, scaled by powers of two; float and double.'),
    "C07": ('exhaustive enumeration of small integer vectors, matrices and shapes against exact arithmetic',
            'All vector pairs over small integers for dimensions 1-8, all shape triples up to 4 (fixed) and 6 (dynamic), all 2x2 and 3x3 matrices over the stated ranges for inverse, solve and spectrum; with and without SIMD and BLAS.'),
    "C08": ('exhaustive enumeration of lattice polygons and mid-node displacements against exact integrals',
            'All triangles and convex quadrilaterals on the stated lattices in four frames, all quadratic forms with every combination of edge displacements; area, centroid, perimeter, box, interpolation, derivative, reversal.'),
    "C09": ('exhaustive enumeration of lattice polygons, boxes and query points against exact predicates',
            'All triangles and simple quadrilaterals on the stated lattice with every query point of a finer lattice, all valid quadratic forms from the displacement set, all curved segments, all pairs of small boxes in 1-3 dimensions.'),
    "C10": ('exhaustive enumeration of lattice shapes crossed with a lattice of ray origins and a fan of directions',
            'Every listed shape against every ray; crossings from an extended-precision solver, degenerate touching skipped within a stated margin.'),
    "C11": ('exhaustive enumeration of lattice segments with lattice mid-node displacements and query points',
            'All end points on the lattice at two scales, all mid-node displacements along and across the chord including both sides of the straightness threshold, in the plane and in space, every query point of a lattice; oracle is extended-precision evaluation.'),
    "C12": ('exhaustive enumeration of module shapes, offsets, spacings and angles; every ray of every set followed to its exit',
            'All combinations of five widths, five heights, nine offsets, five spacings and the stated number of angles in (0, pi); every ray is checked and mapped to the ray it continues as.'),
    "C13": ('exhaustive enumeration of small grids, their cells, a lattice of points and all query boxes on it',
            'All grids up to the cell bound with varied spacing and origin in 1-3 dimensions; every cell, every lattice point, every query interval per axis (all pairs of intervals in the plane, a rotating pairing in space); all row layouts up to the bound.'),
    "C14": ('exhaustive enumeration of small conforming meshes in every numbering variant and of edit histories on them',
            'All grids up to the cell bound, all diagonals, element types, bowed edges, offsets, vertex and face renumberings, start corners and clockwise subsets listed; all histories of renumbering, adjacency, flip and growth operations up to the depth bound.'),
    "C15": ('exhaustive enumeration of small meshes, numberings and lattice rays against per-face and boundary-only references',
            'All grids up to the cell bound with the listed diagonals, bowed edges, offsets and numberings, before and after curve ordering; every ray from a lattice of origins inside and outside in a full circle of directions, in general position.'),
    "C16": ('exhaustive enumeration of edit histories on two soups and of families of element sets against a reference model',
            'All histories over 16 operations on two soups from four starting states up to the depth bound; all families of up to three sets over the stated number of elements with and without data, in both orders; every subset extracted; and, without assertions, all orders of elements within one or two sets before sorting.'),
    "C17": ('exhaustive enumeration of small meshes, set families, names and overwrite histories through real files',
            'All sequences of element types up to the length bound crossed with z layouts and set structures, every mesh size up to the bound, all families of three sets, all listed file, directory and set names, all histories of writes to two files up to the depth bound.'),
    "C18": ('exhaustive enumeration of files generated from a grammar of the supported subset',
            'All combinations of the listed layout options, all sequences of element sections up to the length bound, all element subsets with all line lengths as sets, every count of nodes and elements up to the bound; the generator is the reference.'),
    "C22": ('exhaustive enumeration of pin parameters; every mesh decided by an exact edge-matching tiling argument and exact areas',
            'All subsets of seven radii (up to the largest that still fits, and beyond) with all ring counts, azimuthal counts, pitches and both orders up to the stated bounds; all material assignments to pin cells; all rectangular meshes up to the cell bound.'),
    "C19": ('exhaustive enumeration of building histories with valid and invalid requests against a reference model',
            'All sequences of requests from a menu of valid and invalid ones up to the depth bound, from six starting models at increasing levels of the hierarchy; after every step the whole model is compared with the reference.'),
    "C20": ('bounded exhaustive enumeration of model maps at every level, exported mesh compared with the prescribed placement',
            'All lattice, module, core and stack maps within bounds on rows, columns and ids; every mesh type and material assignment; real library under ASan/UBSan.'),
    "C21": ('bounded exhaustive enumeration of models, each written, re-read and compared',
            'All models of the C20 families restricted to components in use, with all writing options, file names and material names; the re-read model is compared with the description it was built from.'),
    "C34": ('bounded exhaustive enumeration of models, each written and its companion files compared with the model',
            'All models of the C20 families, every number of materials and nuclides within bounds, all writing options; files parsed independently.'),
    "C23": ('bounded exhaustive enumeration of cross section sets and cells against weighted averages in extended precision',
            'All group counts, all pairs of entry perturbations, all array size mismatches and all material assignments within bounds on the real library.'),
    "C24": ('bounded exhaustive enumeration of library files, interpolation queries and nuclide names',
            'All sizes, layouts, scattering bands and fission patterns within bounds written as files and read back; all temperature queries at, beside and between tabulated points; all element symbols and mass numbers.'),
    "C25": ('bounded exhaustive enumeration of compositions, addition histories and mixing cases against conservation relations',
            'All fraction grids, enrichment and absorber grids, addition histories up to the depth bound and nuclide subsets for mixing; masses compared with an independent mass formula.'),
    "C26": ('bounded exhaustive enumeration of power patterns, material maps and group counts against union-find and flux-weighted sums',
            'Every subset of powered faces on small meshes of each element type, in several face orders and with split or shared vertices; every material map, group count and face count within bounds for sources.'),
    "C27": ('bounded exhaustive enumeration of models, queries and two-model interleavings against the model description and the C++ objects',
            'Every model of the placement families with every query and valid index; all 70 interleavings of opening, querying and closing two models; buffers changed by the caller and kept beyond the model.'),
    "C31": ('bounded exhaustive enumeration of level settings, severities, message shapes and lengths, and setting histories',
            'Every level, severity, style and value kind; every message length across the buffer size in ten shapes; all histories of settings and messages up to the depth bound; program exit observed in child processes; with and without assertions.'),
    "C32": ('exhaustive enumeration of truncation points and missing files, each read in a process of its own',
            'Every byte length of both files of four small meshes, and each file missing, with and without exit on error and with and without assertions.', 'fault_enumeration'),
    "C33": ('exhaustive enumeration of the other checks\' spaces in every listed build configuration, verdict of every case compared',
            'Every case of 28 harnesses with all options on and all off, and of the harnesses next to each option with that option alone off; a case must be judged alike in all of them.'),
    "C28": ('exhaustive enumeration of arrangements of shapes, roles, groups and material orders against cell-wise coverage',
            'All pairs of rectangles on a 3x3 lattice, all triples on a 2x2 lattice with all roles, all materials and hierarchies, families of five shapes, and all pairs of boxes on a 2x2x2 lattice; every lattice cell is compared.'),
    "C29": ('exhaustive enumeration of group sizes, memberships, dimensions, tag orders and colour assignments through write and open, compared by geometry',
            'Groups of 1 to 18 members of each dimension, all memberships of three groups on three shapes under all tag orders, all assignments of four colours to five shapes, fragmented shapes.'),
    "C30": ('exhaustive enumeration of pins, pin maps, coarse grids and underlying shapes against areas, centres and groups worked out by hand',
            'All subsets of four radii with all materials, pairs and triples of pins, all maps of up to six positions of three or four pins and 3x3 of two, all 2x2 grids of four cells over five arrangements of shapes, all levels of a model, solids cut at the middle of each lattice.'),
    "C35": ('bounded exhaustive enumeration of mesh files with cells of every kind, material assignment and numbering against the description they were written from',
            'All material assignments on eight kinds of cells, all pairs and triples of cells in every element, vertex and set order, in both file formats, up to 130 cells and 120 materials; unassigned faces and unknown materials.'),
    "C36": ('exhaustive enumeration of a parameter lattice and of pairs of parameter sets sharing a workspace, against the spectrum worked out in the eigenbasis of the shift',
            'All combinations of six widths, one to six fine cells, six cross sections, six scattering ratios and three diffusion modifiers; all ordered pairs of 12 parameter sets on one workspace.'),
    "C37": ('exhaustive enumeration of material assignments, size options, orders and meshing sequences; every size asked for while meshing compared with the prescription',
            'All assignments of up to six materials to four arrangements of rectangles with ten size options, all orders of three materials, all sequences of three mesh types in one session; every size asked for and every element of the resulting mesh is checked.'),
    "C38": ('bounded exhaustive enumeration of models, each written to a CMFD data file that is read back and compared with the placement and homogenisation worked out by hand',
            'All maps at every level of the model hierarchy within bounds, every mesh type and material assignment, with three materials of two groups; the spectral values are those of the function decided by C36.'),
    "C39": ('exhaustive enumeration of truncation points and surplus nuclides, each file read in a process of its own',
            'Every byte length of four small libraries, and each nuclide repeated beyond the announced number, with and without exit on error and with and without assertions.', 'fault_enumeration'),
    "C40": ('exhaustive enumeration of interface functions, omitted defaults, switches and special values against recording stand-ins of the CAD library',
            'Every call made once directly and once through the interface; what the library saw and answered must be equal.'),
    "C41": ('bounded exhaustive exploration of operation histories against a reference model',
            'All histories of eight operations to depth five; every combination of terminal and non-terminal outputs.'),
    "C42": ('bounded exhaustive enumeration of inputs against reference definitions',
            'all colour names and component values, all pairs over a menu, all lists of up to three element kinds, all exponents and leading bits of floats and doubles, checked and optimised builds'),
    "C43": ('bounded exhaustive enumeration of curved cells and meshes against exact geometry',
            'all curved triangles and quadrilaterals over menus of corner shapes, starting corners, sizes and mid-edge displacements, thin ring sectors, repairs, and meshes of two cells'),
    "C44": ('exhaustive enumeration of malformed CAD requests; the whole model compared before and after',
            'All pairs of lists of up to two shapes of three dimensions (three planar ones) for three operations; all lists of up to three radii from five with zero to four materials; seventeen maps with all counts of radii, materials and extents to three and seven radii lists.'),
}
NOT_APPLICABLE = {}
ASSUMPTIONS = {}
