# property -> level note (what the check assures, assumes and trusts)
REAL = "Floats are treated as exact reals (rounding is outside the claim). "
CLAIMS = {
"C01": "Segments 1-3 wide with every bit pattern of every header field and vector component, and one 18 (thorough 26) wide with arbitrary header and components at listed places; both byte orders on reading. Trusts the Go SSA builder, the executor, its models of files and encoding/binary, and z3/cvc5.",
"C02": "Every cut point of a segment file of 1-8 points, every value of the flag and size fields, missing files. Write errors while a file is made are outside (the writer stops the program on them). Trusts the Go SSA builder, the executor, its models of files and encoding/binary, and z3/cvc5.",
"C03": "Spans 1-2 (thorough 1-3) per axis, full or projected along each axis, all five quantities, every bit pattern of header fields and samples; grids of about 17,000 samples with arbitrary ones at listed places. Errors while writing are outside. Trusts the Go SSA builder, the executor, its models of files and encoding/binary, and z3/cvc5.",
"C04": "Snapshots of 0-2 particles (thorough 3), both byte orders, id sizes and precisions, every header value; one of 3100 particles with arbitrary ones at listed places; positions within a box width of four listed boxes; scale factors 1, 1/4, 4 (every velocity) and 1/2 (listed velocities); every cut point. Trusts the Go SSA builder, the executor, its models of files and encoding/binary, and z3/cvc5.",
"C05": "4 (thorough 5) particles in every order of ids, 4 (quick) with arbitrary and repeated ids, cut into batches in every way, with and without flushes between; streams of 40 (thorough 120) with every capacity and batch lengths 1-9; arbitrary positions and velocities. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C06": "The program itself run on snapshot files of 1-4 (thorough 6; listed 11 and 17) particles per side in three id orders, 1-3 files per snapshot, both id sizes, every cell count; one particle's velocity and the cosmology arbitrary, unit factors listed, two snapshots in one run. Trusts the executor's models of files, flags and the configuration parser. " + REAL,
"C07": "The program itself run on snapshots of 2-3 (thorough 4) particles per side: a patch of particles anywhere along each axis, cut by the box edge between any two planes, one particle anywhere near its place, one anywhere along an axis (segments wider than half the box); velocities of every pair of particles of a 2x2x2 snapshot arbitrary. " + REAL,
"C08": "Widths 2-257 (listed) and skips 1-64 with every anchor; tiling of whole sheets of 1 and 8 cubes (also subsampled) for every point; every centred direction. Exact integer and rational arithmetic. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C09": "Sheets 1-4 and 6 (thorough 8) cubes wide, subsampling 1-8, 1-7 (thorough 16) workers starting anywhere, arbitrary site velocities (which tell the tetrahedra apart); whole renders of 8 segments of 2 or 4 cubes with 1-4 workers, first-to-last and last-to-first, and every order of up to 4 workers for single segments. The random draws are a fixed stream. " + REAL,
"C10": "Every triple of draws, every tetrahedron with corners within 100; batches of up to two points. " + REAL,
"C11": "Boxes 5-6 pixels wide (thorough 6): every region and segment placement and every pixel along one axis against three listed placements on the others, arbitrary position in the pixel, arbitrary point weights, prior image contents and velocities; up to three points. Whole segments with a particle anywhere near its place conserve mass, in the whole box, in regions that are thin along one or two axes and hold all of the segment, and in three images of different resolutions rendered together. Exercises the segment and domain overlaps through Box.Overlap, ScaleVecs, Interpolate and Add. " + REAL,
"C12": "A box 6 pixels wide: every region and segment placement along one axis, three or four points at arbitrary places of two pixels per axis (some of them inside of the region on every axis), the same segment known by a tight and by a large bounding box; up to five workers in listed orders. " + REAL,
"C13": "Boxes of 1, 2, 3, 7, 8 and 50 pixels and four widths; the region's ends in every pixel along one axis (listed pixels for 7 or more), at the start of the pixel or at least 1/1024 of a pixel inside it; every quantity and projection. " + REAL,
"C14": "Grids of 1-1000 cells (listed), every pair of origins and widths; positions: every cell and place in the cell, listed box widths. " + REAL,
"C15": "Wrapping bit-exact for every float within a box width of the box and every box width in [2^-10, 2^20]; everything else over the reals. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C16": "Listed shapes, every origin within 5000, every index and coordinate. Exact integer arithmetic. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C17": "Grids 3-7 wide along the axis and 1-2 along the others, every coefficient, spacing and prior output. " + REAL,
"C18": "Grids of 3x3x3, 3x5x4 and 5x5x5 cells with arbitrary fields, every option set (nil included), sequences of two calls. " + REAL,
"C19": "Buffers of whole and partial grids of 125-180 cells with arbitrary sums and 0-3 points in seven (thorough: all) cells, one cell with 1-1000 points; histories of filling, finalising, cutting, clearing and refilling; derivatives compared with those of the grid, which C17 and C18 decide. " + REAL,
"C20": "Every value of each numeric field of box, ball, render and histogram configurations (widths up to 1e6; one or two fields at a time bad), every subset of missing fields. Parsing of configuration text is modelled. " + REAL,
"C21": "The program itself run on one segment with an arbitrary cosmology: every quantity and projection for one region, pixels and points given in every way, three regions (a ball among them) from two files; header construction for every origin, span, pixel width, cosmology and setting; pixel and point numbers for every region and setting in the stated ranges. " + REAL,
"C22": "Every Hubble constant, matter and vacuum fraction and redshift in the stated ranges; math.Sqrt exact. " + REAL,
"C23": "Bit-exact: every internal state of the xorshift and Tausworthe generators, every range limit within stated magnitudes, bulk lengths up to 6 (quick). The golang generator is modelled as an arbitrary stream of values in [0,1). Trusts the Go SSA builder, the executor and z3/cvc5.",
"C24": "All dimensions the generator supports; aligned blocks up to 2^k points as stated in the harness, every starting index of a single step. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C25": "Every array up to the stated length (5-6 fully symbolic; longer ones with one arbitrary element), finite values. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C26": "Every array up to 5 (quick) or 6 (thorough) elements with finite values, longer ones with one arbitrary element. Trusts the Go SSA builder, the executor and z3/cvc5.",
"C27": "All shapes up to 3x3 (quick) or 4x4 (thorough), and listed larger ones (up to 33x18 and 70x1), with every value of the entries. " + REAL + "Trusts the Go SSA builder, the executor and z3/cvc5.",
"C28": "n <= 3, diagonally dominant matrices in every row order (so every sequence of row exchanges; inverses written over matrices with arbitrary contents), plus every 2x2 matrix with |det| > 0.01. " + REAL + "Trusts the Go SSA builder, the executor and z3/cvc5.",
"C29": "Linear tables of 2-5 nodes with arbitrary spacing and values; bilinear and trilinear grids on the listed axes (uniform, uneven, increasing, decreasing) or symbolic uniform grids with arbitrary values, every point. The ends of uniform tables bit-exactly for every float and two (thorough four) listed tables. " + REAL,
"C30": "Splines of 2-6 knots on the listed axes and of 2-3 knots with arbitrary spacing, arbitrary values, every point of every cell; bi- and tricubic grids up to 3x5 and 3x2x3, histories of up to two earlier evaluations. " + REAL,
"C31": "Every kernel constructor at widths up to 11 (convolution: up to 7 on data up to 5 longer, plus arbitrary weights up to width 5), every boundary rule, arbitrary data. math.Exp is an uninterpreted positive function. " + REAL,
"C32": "Uniform tables of 3-8 points with arbitrary start and step, 3-4 points with arbitrary spacing, listed uneven tables; arbitrary polynomial coefficients. " + REAL,
"C33": "Two samples with arbitrary values, limits and up to 3 (thorough 5) bins; any single float bit-exact for listed limits; every pair of intervals. Whole histograms of one segment of 1-2 cubes per side at listed places with arbitrary plane positions and densities, listed regions and grids, 1-3 workers; the program itself on two segments and three regions. The random draws are a fixed stream. " + REAL,
"C34": "Two halos anywhere along an axis of a box of 1-3 (thorough 5) cells with arbitrary radii (sum at most the box width, listed places on the other axes), three halos on a plane with listed radii but one and two radius factors; rows of listed halos whose radii are in any order; a second search with the same finder; halos of listed cells, wrapped once, in the grid; sphere bounds for every radius up to the box width. " + REAL,
"C35": "Every mass, radius and cosmology in the stated ranges, arrays of two. Cube roots exact. " + REAL,
"C38": "Renders of 1-8 sheets (every quantity, up to two images, subsampling 1 or 2) by 2-3 (thorough 4) workers and histograms of 1-2 sheets and regions by 2-4 workers: first-to-last and last-to-first, and every order for a single sheet with 2-3 workers; arbitrary velocities of a sheet and densities of pixels. Conflicts are decided by happens-before over the accesses of an explored schedule with symbolic path conditions and places, so interleavings within a worker need not be enumerated. Races inside of the Go library or on files are outside. A conflict is a violation only if the Go race detector confirms it on the replayed input. The random draws are a fixed stream. " + REAL,
"C39": "Catalogs of up to 3 halos whose masses and radii are arbitrary, every column (marked by its own values), every number of halos kept; files cut at each byte of the header and of the last 8. The text table library is replaced by a stand-in that hands out columns. " + REAL,
"C40": "Membership and places: boxes up to 5000 cells wide, every bounds and every cell, exact integers. Tightness: every sphere whose diameter is less than the box width, boxes of 1-5 cells. Shared cells: two spheres of listed radii anywhere in listed cells of a box of 6. " + REAL,
"C41": "The program itself run: every subset of the four mode flags, with and without a bounds file; 10-16 listed configurations per mode with a setting missing, bad or unknown; the four example files (the paths filled in) on a one-cube sheet of arbitrary cosmology or a snapshot of 8 particles per side; iterations starting at 0-2, of 0-3 snapshots, one of them with an arbitrary position, with or without a later one after a gap, without an end or with one 0-4 later. Trusts the models of files, flags and the configuration parser (which the replays and witnesses run natively). " + REAL,
"C37": "Grids of spans 1-3 (listed shapes), full or projected along each axis, all five quantities (those computed from derivatives on a 5x5x6 grid of zeros), every value of the header fields and every finite sample; sheets 1-2 (thorough 3) particles wide with every bit pattern. The Python modules are executed symbolically by harness/C37/reader.py on the symbolic bytes the Go writers leave in the file, with stand-ins for struct, array, open and numpy's readers. Python 3 on a little-endian machine. Trusts that interpreter, the Go SSA builder, the executor and z3/cvc5.",
"C36": "Volume and barycentre: every tetrahedron. Containment: five listed tetrahedra of both orientations with every point at least 1/256 (in barycentric weight) from a face, and every tetrahedron with listed points. Cell bounds: every placement along each axis over the reals, and every pair of floats within 8192 bit-exact. " + REAL,
}
NA = {
}
