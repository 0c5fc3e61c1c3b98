"""Writes /verif/properties.jsonl. The text of every property lives here."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


FIELD = "src/pymech/neksuite/field.py"
MESH = "src/pymech/neksuite/mesh.py"
MAP = "src/pymech/neksuite/map.py"
CORE = "src/pymech/core.py"
DS = "src/pymech/dataset.py"
TOOLS = "src/pymech/meshtools.py"
SIM = "src/pymech/simsonsuite.py"
VTK = "src/pymech/vtksuite.py"

prop(
    "C01",
    "Field files: writing then reading gives back the same field",
    "For every mesh with field data, writing it as a Nek5000 field file and reading that file back gives the same "
    "dimensions, polynomial orders, set of variables, element count, element map, time, step, word size and endianness, and "
    "every stored value of every element, component and grid point equal to the original rounded to the word size of the file. "
    "Writing the field that was read produces the same bytes again.",
    ["inputs", "configurations"],
    "all dimensions (2D/3D), polynomial orders per direction, variable sets (including none of a kind, and up to 99 scalars), "
    "element counts, element maps (any permutation), both word sizes, both endiannesses, memory precision float32/float64, "
    "and all values including infinities, NaN, subnormals and signed zeros",
    "The tests round-trip a handful of data files (absent here) in one precision and byte order with the identity element "
    "map; they do not vary the variable set, the map, the precision mix or the order of scalars.",
    [FIELD, CORE],
    [("writenek", FIELD + ":writenek"), ("readnek", FIELD + ":readnek"), ("Header", FIELD + ":Header")],
    ["bytes of the written file", "the mesh object returned by the reader"],
    [("elmap", "order in which elements are stored in the file", CORE + ":HexaData")],
)
prop(
    "C02",
    "Written field files follow the Nek5000 binary layout byte for byte",
    "A written field file consists of the 132-byte ASCII header, the float32 endianness tag 6.54321, the int32 element map, then "
    "geometry, velocity, pressure, temperature (element by element in map order, all components of an element together) and "
    "scalars (scalar by scalar, elements inside), each block in the requested word size and byte order with x running fastest; "
    "3D files end with the float32 minimum and maximum of every component of every element, in the same variable order. Nothing "
    "else is in the file.",
    ["inputs", "configurations"],
    "as for the round trip: all variable sets, orders, element maps, word sizes and byte orders",
    "A symmetric mistake in writer and reader survives every round-trip test; the solver that consumes the file does not share it. "
    "No test looks at bytes.",
    [FIELD],
    [("writenek", FIELD + ":writenek"), ("Header.as_bytestring", FIELD + ":Header")],
    ["bytes of the written file"],
)
prop(
    "C03",
    "Any conforming field file is decoded correctly, whoever wrote it",
    "For every file laid out as Nek5000 writes it (either byte order, single or double precision, arbitrary element map, one part "
    "of a multi-file output holding only some of the elements, headers with extra trailing tokens), the reader puts each stored "
    "value at its element, component and grid point, with the file's metadata, in the requested memory precision; elements absent "
    "from the part stay zero. If the element map contains a zero, elements are filled in file order instead.",
    ["inputs", "configurations"],
    "all byte orders, word sizes, variable sets, orders, maps (permuted, partial, zero-containing) and requested precisions",
    "Tests read a few little-endian files of a single part; big-endian, partial and map-corrupted files are not sampled in combination.",
    [FIELD],
    [("readnek", FIELD + ":readnek"), ("read_header", FIELD + ":read_header")],
    ["the mesh object returned by the reader"],
)
prop(
    "C04",
    "Skipping variables changes nothing but the skipped variables",
    "For every field file and every subset of variable names given as variables to skip, under either spelling of velocity, pressure "
    "and temperature, the variables that are not skipped are read with exactly the values of a full read, the skipped ones are left "
    "zero, and all metadata is the same as in a full read.",
    ["inputs", "configurations"],
    "all files as in the decoding property, times all subsets of the documented names (including names not in the file, partial "
    "subsets of components, and all components)",
    "Tests skip a few fixed sets on one file. A wrong seek only shows when a skipped block precedes a read block in a file of the "
    "right shape (2D, partial, scalars).",
    [FIELD],
    [("readnek skip_vars", FIELD + ":readnek"), ("skip_elements", FIELD + ":readnek")],
    ["the mesh object returned by the reader"],
)
prop(
    "C05",
    "Field file headers survive formatting and parsing",
    "For every valid set of header values, formatting the header gives exactly 132 bytes, and reading those bytes from a path or from an "
    "open binary file gives a header with the same values (time to 13 decimals of mantissa) and leaves an open file right after byte 132. The variable "
    "string and the per-kind variable counts always determine each other, and derived quantities (dimension, points per element, real "
    "type) follow from the orders and word size; headers with too few tokens, an unknown word size or no variables are rejected.",
    ["inputs"],
    "all word sizes, orders, counts, times, steps, file numbers, and variable sets with 0 to 99 scalars",
    "Tests check one data file's time and one error; the conversion between variable string and counts is not exercised over its range.",
    [FIELD],
    [("Header", FIELD + ":Header"), ("read_header", FIELD + ":read_header")],
    ["the header object", "the 132 header bytes"],
)
prop(
    "C06",
    "re2 mesh files: writing then reading gives back the same mesh",
    "For every mesh of linear elements, writing it as a binary re2 file and reading it back gives the same dimension, elements and vertex "
    "coordinates exactly, the same curved edges with their type and five parameters, and for every boundary condition field the same type "
    "and five parameters on every external face; only internal and empty conditions are dropped, and the condition of a face names that "
    "element and face. Writing the result again gives the same bytes.",
    ["inputs", "configurations"],
    "2D and 3D, any element count, any number of condition fields from one up, any mix of condition types of one to three letters "
    "and curvature types on any of the edges, both byte orders",
    "Tests round-trip two data files (absent here), little-endian with one condition field.",
    [MESH],
    [("readre2", MESH + ":readre2"), ("writere2", MESH + ":writere2")],
    ["the mesh object returned by the reader", "bytes of the file"],
)
prop(
    "C07",
    "re2 files follow the Nek5000 layout; conforming ones decode in both byte orders",
    "A written re2 file is the 80-byte header, the endianness tag, per element a zero and its corners in Nek corner order per "
    "coordinate, the number of curved edges and one 64-byte record for each, then per condition field the number of external "
    "conditions and one 64-byte record each, and nothing else. Conversely every file with that layout, in either byte order, with records in any "
    "order and arbitrary bytes after the curvature letter, is read to the mesh it describes; a mesh whose elements are not linear or "
    "that lacks geometry is refused, leaving a file of that name as it was.",
    ["inputs", "configurations"],
    "all meshes as for the re2 round trip; files from an independent encoder with permuted records, garbage padding and any field count",
    "Round-trip tests cannot see symmetric mistakes and never meet big-endian files or files written by other tools.",
    [MESH],
    [("readre2", MESH + ":readre2"), ("writere2", MESH + ":writere2")],
    ["bytes of the written file", "the mesh object returned by the reader"],
)
prop(
    "C08",
    "rea mesh files: writing then reading gives back the same mesh",
    "For every mesh of linear elements, writing it as an ASCII rea file and reading it back gives the same dimension, element and "
    "curved edge counts, vertex coordinates, curvature types and parameters and boundary conditions (type, element, face and parameters) "
    "for every field, to the seven significant digits of the format. Faces without a condition, or with an internal condition that names no "
    "element, come back empty; writing the result again gives the same text.",
    ["inputs", "configurations"],
    "2D and 3D, zero to several condition fields, one- to three-letter condition types, any curvature; fewer than a thousand elements and a "
    "thousand or more (the column widths change)",
    "Tests round-trip two data files (absent here) below a thousand elements with two-letter conditions.",
    [MESH],
    [("readrea", MESH + ":readrea"), ("writerea", MESH + ":writerea")],
    ["the mesh object returned by the reader", "text of the file"],
)
prop(
    "C09",
    "rea and re2 describe the same mesh; rea text has the fixed columns of Nek5000",
    "The same mesh written as rea and as re2 reads back as the same external mesh to seven digits: vertices, curved edges and external "
    "boundary conditions of all fields. The mesh sections of the rea text have the exact line order and column positions a Fortran fixed-format "
    "reader expects, with each element's corners in Nek order, and a rea file laid out that way with other parameter, passive "
    "scalar and switch sections in front is read to the mesh it describes.",
    ["inputs", "configurations"],
    "all meshes as for the rea round trip, with both column widths; rea files with varying preamble lengths",
    "No test compares the formats or parses the text independently.",
    [MESH],
    [("writerea", MESH + ":writerea"), ("readrea", MESH + ":readrea"), ("writere2", MESH + ":writere2"), ("readre2", MESH + ":readre2")],
    ["text of the rea file", "both meshes read back"],
)
prop(
    "C10",
    "Truncated or untagged input files are rejected, never returned as data",
    "A field, re2, rea, map or SIMSON file that ends before the last value it promises, at whatever byte it was cut, makes the reader raise an "
    "error instead of returning a mesh, except where the cut falls on a boundary the format itself allows as an end of file, or inside the last number of a section of text. A binary "
    "Nek5000 file whose endianness tag is not the expected one in either byte order is rejected with an error.",
    ["crash_points", "fault_sequences", "inputs"],
    "every cut position (exhaustive for small files, sampled for larger ones) of generated files of every readable format, and corrupted tags",
    "Tests only read complete files.",
    [FIELD, MESH, MAP, SIM],
    [("readnek", FIELD), ("readre2", MESH), ("readrea", MESH), ("readma2", MAP), ("readdns", SIM), ("readplane", SIM)],
    ["exception or returned object of the reader"],
)
prop(
    "C11",
    "Binary map files are decoded to the right vertices and ranks",
    "For every ma2 map file, in either byte order, 2D or 3D, the reader returns for each element, in file order, the global ids of its "
    "vertices in file order and the rank that owns it, as integers, with one row per element and one column per vertex.",
    ["inputs"],
    "all element counts, 4 or 8 vertices per element, all 32-bit ids and ranks, both byte orders",
    "The tests look at one little-endian file (absent here).",
    [MAP],
    [("readma2", MAP + ":readma2")],
    ["returned arrays"],
)
prop(
    "C12",
    "SIMSON velocity files are decoded to the right physical field",
    "For every SIMSON velocity file, in either byte order and for every supported flow type and number of scalars, the reader returns one "
    "element with the grid of the file (uniform in x, Chebyshev in y over a height of two over delta star, uniform and centred in z), its time "
    "and dimensions, and velocities and scalars equal to the trigonometric sum of the stored Fourier coefficients at the grid points, with the "
    "sign of the wall-normal velocity reversed.",
    ["inputs", "configurations"],
    "all even x and z resolutions, all y resolutions, flow types, scalar counts, byte orders, and coefficients on the modes with positive "
    "spanwise wavenumber and nonzero streamwise wavenumber plus those with zero streamwise wavenumber (see known findings for the others)",
    "The test reads one file (absent here) and compares a few numbers of one flow type.",
    [SIM],
    [("readdns", SIM + ":readdns")],
    ["the mesh object returned by the reader"],
)
prop(
    "C13",
    "SIMSON plane files are decoded to the right coordinates and values",
    "For every plane file with one, two or three dimensions, in either byte order, the reader returns the coordinate arrays, the data array, the "
    "sizes and the number of dimensions, with every stored number at its place under column-major ordering.",
    ["inputs"],
    "one to three dimensions, all sizes, both byte orders, all doubles",
    "The test reads one 2D file (absent here); the 1D and 3D branches say they are untested.",
    [SIM],
    [("readplane", SIM + ":readplane")],
    ["returned tuple"],
)
prop(
    "C14",
    "Datasets hold every value of a Cartesian field at its coordinates",
    "Opening a field file of a Cartesian box as an xarray dataset gives sorted coordinates covering exactly the grid "
    "lines of the mesh, the time of the file, one variable per quantity in the file under its documented name, and at each coordinate the value "
    "that the field file stores at that grid point, whatever the order of the elements in the file and the number of elements per direction. A mesh whose "
    "elements are not boxes with their local axes along x, y and z is refused as not implemented.",
    ["inputs"],
    "all box decompositions (uniform or stretched, 2D-in-3D excluded), polynomial orders, element orders, element maps, variable sets, precisions; and "
    "deformed meshes",
    "Tests compare shapes and a few values on fixed files (absent here).",
    [DS],
    [("open_dataset", DS + ":open_dataset"), ("_NekDataStore", DS + ":_NekDataStore")],
    ["the xarray dataset"],
)
prop(
    "C15",
    "Every entry point opens the same dataset, and only for Nek file names",
    "A field file opened through the package's own function or through xarray with the package's engine, by explicit name or by guessing, gives "
    "identical datasets, and variables named to be dropped are absent while all others are unchanged. File names of the form name.f followed by "
    "five digits, or name.fld, are recognised, and other extensions are refused as not implemented.",
    ["inputs", "configurations"],
    "all file names over letters, digits and dots; all subsets of variables to drop; all entry points; string and path objects",
    "Tests check a few names and one engine call on a file that is absent here.",
    [DS],
    [("can_open_nek_dataset", DS + ":can_open_nek_dataset"), ("PymechXarrayBackend", DS + ":PymechXarrayBackend")],
    ["the xarray dataset", "exceptions"],
)
prop(
    "C16",
    "A time series opened as one dataset keeps every snapshot intact and in order",
    "Opening several field files of the same box together gives one dataset with a time dimension whose entries are the times of the files in the "
    "given order, and whose slice at each entry equals the dataset of that file alone in every variable and coordinate.",
    ["inputs", "histories"],
    "all sequences of snapshots (sorted names given by list or glob), times, variable sets and box decompositions",
    "Tests open one pair of files (absent here) and look at the length of the time axis.",
    [DS],
    [("open_mfdataset", DS + ":open_mfdataset")],
    ["the xarray dataset"],
)
prop(
    "C17",
    "Reported limits are the true extrema of the mesh and cannot be altered",
    "For every mesh, the reported limits of geometry, velocity, pressure, temperature and scalars are, per component, the smallest and the largest value "
    "over all points of all elements, as plain floats; they follow later changes of the data, cannot be assigned, and the textual summary of the mesh shows the "
    "coordinate limits. This holds for a mesh of one element as well.",
    ["inputs", "histories"],
    "all meshes (one to many elements, any variable set, precision and values)",
    "The test uses one data file (absent here).",
    [CORE],
    [("DataLims", CORE + ":DataLims"), ("HexaData.lims", CORE + ":HexaData")],
    ["the limits object", "textual representation"],
)
prop(
    "C18",
    "Element geometry queries agree with the element's corners",
    "For every element, the centre of each face is the mean of that face's four corners (two distinct ones in 2D) under Nek face numbering, the smallest edge is the "
    "least distance between the corners joined by an edge, and the centroid is the mean of its points; the point list of a mesh holds every point of "
    "every element, x running fastest, in element order.",
    ["inputs"],
    "all 2D and 3D hexahedra of any polynomial order, with arbitrary corner positions, orientations and sizes",
    "The existing tests use these only through connectivity on nearly square elements.",
    [CORE],
    [("Elem.face_center", CORE + ":Elem"), ("Elem.smallest_edge", CORE + ":Elem"), ("HexaData.get_points", CORE + ":HexaData")],
    ["returned values"],
)
prop(
    "C19",
    "The connectivity check accepts consistent meshes and rejects inconsistent ones",
    "On every mesh whose internal and periodic conditions are mutual and whose internally connected faces coincide, the connectivity check succeeds; if any single "
    "connection is altered (its type, target element, target face, in any field) or an element is moved away from a neighbour it is connected to, it raises a value "
    "error. The check for missing conditions raises a value error exactly when some face of some field has an empty condition, and neither check changes the mesh.",
    ["inputs", "fault_sequences"],
    "all structured, circular and extruded meshes with any element numbering and orientation, one to several fields, and every single fault of the listed kinds",
    "Tests assert only that valid meshes pass; a check that never fails would satisfy them.",
    [CORE],
    [("HexaData.check_connectivity", CORE + ":HexaData"), ("HexaData.check_bcs_present", CORE + ":HexaData")],
    ["exception or return value"],
)
prop(
    "C20",
    "Merging meshes appends one and glues exactly the coinciding boundary faces",
    "Merging a mesh into another keeps all elements of the first then all of the second with geometry, curvature and fields unchanged, and adds "
    "the counts; every pair of faces between the two that coincide within the tolerance and are not internal (nor, unless asked for, without a condition) becomes a mutual internal connection in all fields, all other conditions keep their type and "
    "are renumbered, partners of glued periodic faces are reconnected to each other, and the number of glued pairs is returned. The merged-in mesh is unchanged, "
    "and meshes of different dimension or order are refused.",
    ["inputs", "histories"],
    "all splits of a mesh into parts merged in any order, with or without internal conditions, with external and periodic conditions on the glued faces, and the option "
    "to leave conditions alone",
    "Tests merge a few fixed meshes and look at connectivity of the result.",
    [CORE],
    [("HexaData.merge", CORE + ":HexaData"), ("HexaData.offset_connectivity", CORE + ":HexaData")],
    ["the merged mesh", "return value"],
)
prop(
    "C21",
    "Keeping a subset of elements renumbers it consistently",
    "Reducing a mesh to a set of elements keeps exactly those, in increasing order, with their geometry, curvature and fields; connections between kept elements "
    "point to the renumbered elements, connections to removed ones become the requested replacement condition pointing nowhere, and other conditions are "
    "unchanged apart from their own element number. Element and curvature counts and the element map are updated, and an element number past the end "
    "is refused.",
    ["inputs"],
    "all subsets, given in any order, of structured, circular and extruded meshes, any replacement condition",
    "No test calls it directly.",
    [TOOLS],
    [("keep_elements", TOOLS + ":keep_elements")],
    ["the reduced mesh"],
)
prop(
    "C22",
    "Internal connections can be deleted and regenerated from geometry",
    "Deleting internal conditions empties exactly those faces, returns how many there were and leaves all other conditions alone. Generating internal conditions "
    "connects exactly the pairs of coinciding faces without a condition, mutually and in all fields, touches no face that already has one, and after a "
    "deletion restores the original connections of a conforming mesh; a mesh with an edge of zero length is refused.",
    ["inputs", "histories"],
    "all conforming meshes with any element numbering, orientation and aspect ratio, partial deletion, several fields, tolerances",
    "Tests check one or two fixed meshes for a count.",
    [TOOLS],
    [("generate_internal_bcs", TOOLS + ":generate_internal_bcs"), ("delete_internal_bcs", TOOLS + ":delete_internal_bcs")],
    ["the mesh", "return values"],
)
prop(
    "C23",
    "Extruding a 2D mesh stacks exact copies of it into a conforming 3D mesh",
    "Extruding a 2D mesh over a list of z values gives, for each interval, a copy of every 2D element between the two z values with its edge curvature on both sides "
    "(midpoints moved to the right z), side conditions of the 2D element, layers connected to each other, and the requested conditions or mutual "
    "periodicity at the ends, in every field. The result is a valid 3D mesh with geometry only and correct counts that passes the connectivity check, the 2D mesh is "
    "unchanged, and invalid input (3D or high-order mesh, no geometry, one-sided periodicity) is refused; without internal conditions none remain.",
    ["inputs", "configurations"],
    "all 2D meshes (boxes, circles, mapped, merged) with any curvature and conditions, all increasing z lists, end conditions per field, with or without internal conditions",
    "Tests extrude a few fixed meshes and check connectivity of the result, not its geometry, curvature or conditions.",
    [TOOLS],
    [("extrude", TOOLS + ":extrude")],
    ["the extruded mesh"],
)
prop(
    "C24",
    "Refined extrusion gives a conforming mesh filling the extruded volume",
    "Extruding with refinement zones gives a 3D mesh that fills exactly the 2D region between the first and last z value without gaps or overlaps, whose faces match one to one, "
    "with mutual internal connections on every interior face, the 2D conditions on the sides and the requested ones at the ends in every field, and curvature "
    "following the 2D mesh (an edge that divides an element bends as the mean of the two edges on either side). Without splitting functions it equals plain extrusion, missing parameters count as zeros, the 2D mesh is unchanged, and invalid meshes and inconsistent "
    "layer counts are refused.",
    ["inputs", "configurations"],
    "all split positions and directions on box and circle meshes, one or more splits, any index of the finest zone, layer counts, end conditions, with and without internal conditions",
    "Tests run two fixed configurations and only check connectivity.",
    [TOOLS],
    [("extrude_refine", TOOLS + ":extrude_refine"), ("extrude_mid", TOOLS + ":extrude_mid")],
    ["the extruded mesh"],
)
prop(
    "C25",
    "Generated boxes tile the rectangle with correct connectivity and conditions",
    "A generated box has nx times ny equal rectangular elements tiling the requested rectangle, x running fastest, mutual internal connections (if requested) on all interior faces, on each "
    "side and for each field the requested condition or by default periodicity with the opposite side, one condition field per velocity, temperature and scalar, and the requested "
    "variables. Every condition names its own element and face, and an empty or inverted rectangle is refused.",
    ["inputs", "configurations"],
    "all element counts including one, rectangles, variable lists, mixtures of conditions and periodicity per side and field",
    "The test samples one box with one field.",
    [TOOLS],
    [("gen_box", TOOLS + ":gen_box")],
    ["the generated mesh"],
)
prop(
    "C26",
    "Generated circles fill the disc with a conforming, right-handed mesh",
    "A generated circular mesh has ns*(ns+4*no) right-handed elements with all outer vertices on the circle of the requested radius, whose outer edges carry circular curvature of that radius and "
    "the requested condition in each field, and whose area with curvature is that of the disc; interior faces coincide pairwise and (if requested) are mutually connected. "
    "The inner square has the requested relative diagonal, the mesh is symmetric under quarter turns, and the curved side count is right. The given functions place the layers between square and circle and bend them; by default the layers grow geometrically from the cell size of the square.",
    ["inputs", "configurations"],
    "all radii, square sizes, element counts for which the first layer fits, admissible boundary layer and curvature functions, one to several fields",
    "The test builds one circle and only checks connectivity.",
    [TOOLS],
    [("gen_circle", TOOLS + ":gen_circle"), ("HexaData.merge", CORE + ":HexaData"), ("rotate_2d", TOOLS + ":rotate_2d")],
    ["the generated mesh"],
)
prop(
    "C27",
    "Mapping a 2D mesh moves vertices and edge midpoints by the transformation only",
    "Mapping a 2D mesh by a transformation returns a mesh whose vertices and curved-edge midpoints are the images of the original vertices and edge midpoints (on the arc for circular "
    "edges), with midpoint curvature on all edges, on boundary edges or only on already curved edges as requested, and everything else unchanged, including connections and conditions. The "
    "curved side count is right and the input mesh is not modified.",
    ["inputs", "configurations"],
    "all 2D meshes with any mixture of straight, circular and midpoint edges, all transformations, the four option combinations, repeated application",
    "The test maps one mesh and checks connectivity.",
    [TOOLS],
    [("map2D", TOOLS + ":map2D"), ("edge_mid", TOOLS + ":edge_mid")],
    ["the mapped mesh", "the input mesh"],
)
prop(
    "C28",
    "Rotating a mesh is a rigid rotation about the given axis",
    "Rotating a mesh about a point in the plane by an angle moves every grid point and every edge midpoint by that rotation about that point, leaves z, circular radii, conditions, fields and all "
    "metadata unchanged, and composes: rotating by two angles in turn equals rotating by their sum, and rotating back restores the mesh.",
    ["inputs", "histories"],
    "all meshes (2D, 3D, high order, curved), centres, angles and sequences of rotations",
    "Rotation is only tested through circle generation, about the origin by quarter turns.",
    [TOOLS],
    [("rotate_2d", TOOLS + ":rotate_2d")],
    ["the rotated mesh"],
)
prop(
    "C29",
    "The exponential refinement parameter solves its defining equation",
    "For every first spacing, total length and number of elements, the returned parameter alpha is positive and the spacings l0, alpha*l0, ..., alpha^(n-1)*l0 add up to the total length; it is one exactly when the "
    "total is n times the first spacing, greater than one when the total is larger and smaller when it is smaller, and does not depend on the unit of length.",
    ["inputs"],
    "element counts from 2 to 200, all ratios of total length to first spacing from just above one to a thousand times the number of elements",
    "No test calls it directly.",
    [TOOLS],
    [("exponential_refinement_parameter", TOOLS + ":exponential_refinement_parameter")],
    ["returned value"],
)
prop(
    "C30",
    "Edge midpoints and circle radii are consistent with the geometry",
    "The midpoint of an edge is the stored point for midpoint curvature, the middle of the chord for a straight edge, the point of the circular arc of the stored signed radius "
    "halfway between the ends for circular curvature, and the point of the sphere for spherical curvature, for each of the twelve edges. The circle found from a midpoint passes through both ends and the midpoint, its radius "
    "returns that midpoint again with the right sign, is zero for a straight edge, and neither query modifies the element.",
    ["inputs"],
    "all twelve edges, all element shapes and curvature types, radii down to the half chord and both signs",
    "No test calls either directly.",
    [TOOLS],
    [("edge_mid", TOOLS + ":edge_mid"), ("edge_circle", TOOLS + ":edge_circle")],
    ["returned values", "the element"],
)
prop(
    "C31",
    "Operations that return or write a result never modify or share their inputs",
    "Writing a mesh to any format, checking it, querying it, extruding, refining or mapping it, or merging it into another leaves the mesh bit for bit as it was, and modifying a result or "
    "a generated mesh afterwards changes neither the inputs nor what later calls return, and the elements of a result share no data with each other. Arguments such as lists of conditions, z values and variables are not modified either.",
    ["inputs", "histories"],
    "all meshes with all curvature types and conditions, all such operations in any order, followed by arbitrary modification of their results",
    "Tests use each mesh once and look only at the result.",
    [CORE, TOOLS, FIELD, MESH],
    [("copy.deepcopy", TOOLS + ":extrude, map2D, extrude_refine"), ("HexaData.merge", CORE + ":HexaData"), ("writers", FIELD + ", " + MESH)],
    ["deep comparison of inputs before and after"],
)
prop(
    "C32",
    "Any sequence of mesh operations leaves a valid, exportable mesh",
    "After every step of any sequence of generating, merging, reducing, mapping, rotating, extruding, deleting and regenerating internal conditions, and writing and rereading meshes, the mesh is "
    "structurally valid: counts match contents, the element map is a permutation, the curved side count is right, elements keep positive volume, internal connections join coinciding faces and are mutual, and the connectivity check passes. It can be "
    "written to re2 and rea and read back as the same mesh.",
    ["histories", "programs"],
    "all sequences of such operations with arbitrary admissible arguments",
    "Tests exercise each operation once from a fresh mesh; stale metadata only shows in a later operation.",
    [CORE, TOOLS, MESH],
    [("all of meshtools", TOOLS), ("HexaData", CORE + ":HexaData"), ("mesh IO", MESH)],
    ["the mesh after each step"],
)
prop(
    "C33",
    "VTK conversion keeps points, cells and data together",
    "Converting a 3D field to a VTK unstructured grid gives the points of the mesh, one hexahedral cell per sub-cell of the grid joining the eight surrounding points in VTK order, and "
    "velocity, pressure, temperature and scalar arrays holding at each point the value of the field there; downsampling keeps the corner points, one cell per element.",
    ["inputs", "configurations"],
    "all 3D fields of any orders, element counts and variable sets, with and without downsampling",
    "The optional VTK library is not installed, so the module is never run.",
    [VTK],
    [("hexa2vtk", VTK + ":hexa2vtk")],
    ["arrays handed to the VTK objects (recorded by a stand-in)"],
)

prop(
    "C34",
    "New meshes start empty and complete; renumbering and counting keep them right",
    "A newly constructed mesh or element has exactly the requested element count, orders, variable counts, number of condition fields and floating-point type, holds zeros, straight edges and empty "
    "conditions, an identity element map and default metadata, and shares no storage between its elements. Offsetting the connectivity from an element on changes exactly the numbers at or beyond it "
    "(targets of internal and periodic connections, and elements' own numbers), so that inserting or removing a block of elements and offsetting keeps the connectivity valid and round-trips; recounting "
    "curved edges gives their true number and changes nothing else.",
    ["inputs", "histories"],
    "all sizes, orders, variable counts, condition fields and types; all meshes, block sizes and insertion points; all patterns of curved edges",
    "The tests build meshes of one type and never insert, remove or recount elements on their own.",
    [CORE],
    [("HexaData", CORE + ":HexaData.__init__"), ("Elem", CORE + ":Elem.__init__"), ("offset_connectivity", CORE + ":HexaData.offset_connectivity"), ("update_ncurv", CORE + ":HexaData.update_ncurv")],
    ["arrays, conditions and metadata of a mesh"],
)

prop(
    "C35",
    "Mesh operations commute: a mesh built in parts or another order is the same",
    "Building a mesh in parts or in another order gives the same mesh up to the numbering of elements: extruding, mapping, rotating or writing and reading parts and then merging them equals doing it to the "
    "merged mesh; extruding or mapping a subset of elements equals taking the subset of the result; merging does not depend on order, grouping or element numbering; boxes made of abutting boxes, stacked "
    "extrusions, scaled circles and rotated, shifted or renumbered refined extrusions agree with those made in one go; connecting afterwards equals connecting at once; and no result depends on the unit of length.",
    ["inputs", "histories"],
    "all conforming 2D and 3D linear meshes with their conditions, periodicity and curvature, all splits into parts, all subsets, spacings, rotations and transformations in the domain of the single operations",
    "A test compares one result with one stored number; that two different routes agree has to hold for every mesh and every split.",
    [TOOLS, CORE],
    [("merge", CORE + ":HexaData.merge"), ("extrude", TOOLS + ":extrude"), ("extrude_refine", TOOLS + ":extrude_refine"), ("keep_elements", TOOLS + ":keep_elements"), ("map2D", TOOLS + ":map2D"),
     ("rotate_2d", TOOLS + ":rotate_2d"), ("gen_box", TOOLS + ":gen_box"), ("gen_circle", TOOLS + ":gen_circle"), ("generate_internal_bcs", TOOLS + ":generate_internal_bcs")],
    ["corners, conditions, connections and curvature of the two meshes"],
)
prop(
    "C36",
    "Reading and writing depend only on the arguments and the files as they are",
    "What a reader returns depends only on its arguments and on the present contents of the file, and what a writer puts into a file only on the object written: not on earlier reads and writes, "
    "successful or failed, of the same or other files, on what the file held before, on its time stamp, on how its path is given, or on other readers running at the same time. Reading changes no file, "
    "writing changes only the file named, and no file stays open.",
    ["histories", "schedules", "fault_sequences"],
    "all sequences of writing, overwriting, truncating, deleting, copying, moving and reading files of all supported formats under a few names, and any number of readers in parallel threads",
    "Tests read each file once in a fresh process; state kept between calls, or shared between threads, shows only in particular sequences.",
    [FIELD, MESH, MAP, DS, SIM],
    [("readnek, writenek, read_header", FIELD), ("readre2, writere2, readrea, writerea", MESH), ("readma2", MAP), ("open_dataset", DS), ("readdns, readplane", SIM)],
    ["results of the readers", "bytes of all files", "open file descriptors"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
