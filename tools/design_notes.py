# property -> (what is specified, enumerated and compared against, why beyond tests, cost)
NOTES = {
"C01": ("segments are written by WriteSheet into the file model and read by all three readers; every header field and vector component is a symbolic bit pattern (NaNs included) and must come back as the same bits. A second oracle writes the documented layout byte by byte by itself, in both byte orders, and compares bytes and readings. Overwriting an older, longer file and wrong buffer lengths are separate harnesses.",
        "a test cannot try every bit pattern; the swapped-order reader and the grid-width/segment-width mix-ups show only for particular values.", "3 s"),
"C02": ("a good file with symbolic contents is cut at every byte; every reader must fail exactly when bytes it needs are missing, also into a header buffer used before. Flag and size fields take every 32-bit value; files of arbitrary bytes must give an error or data that is in the file, never a panic.",
        "every cut point and every flag value are covered, not a few.", "5 s"),
"C03": ("grids of every quantity, span and projection with symbolic samples are written by WriteBuffer and read by ReadGridHeader and ReadGrid; samples, header fields and the number of bytes are compared.",
        "all sample bit patterns and all projections; truncation at every byte.", "5 s"),
"C04": ("the snapshot (header block, position, velocity and id blocks with their record marks) is built byte by byte by the harness from symbolic values in either byte order and precision; ids, wrapped positions, scaled velocities and header are compared, and every cut and every wrong block size must be refused.",
        "the byte order, id size and precision combinations multiply with every value; wrapping is decided bit-exactly.", "17 s"),
"C05": ("batches with every permutation of ids (and repeated ids) cut in every way are appended to the buffer, and the whole-simulation arrays are compared with an assignment loop.",
        "the history of appends and flushes is symbolic.", "6 s"),
"C06": ("main() itself converts snapshot files; every particle of every sheet file is compared with the particle whose id is its Lagrangian site; one particle's velocity is symbolic, names and unit factors are checked, and refused decompositions must stop with an error and no file.",
        "observes the whole conversion, over many decompositions and id orders at once.", "45 s"),
"C07": ("main() converts snapshots in which a particle is anywhere near its place; for each sheet file and axis the solver is asked for a particle outside the stored box (modulo the box) or a box wider than the spread.",
        "particles at every place relative to the box edge and to each other.", "85 s"),
"C08": ("all corners returned by TetraIdxs.Init* for a symbolic anchor are checked to be corners of the cube and in the grid; signed volumes add up to the cube, and a symbolic point strictly inside one tetrahedron of a sheet is strictly inside no other and each point is in one.",
        "every anchor and every point of the sheet, not a sampled few.", "3 s"),
"C09": ("Manager and HistManager render segments with a fixed draw stream and symbolic site velocities as labels: the image must equal, as a polynomial in the labels, the sum over cubes computed by the harness; goroutines run in every order (or first-to-last and back).",
        "one polynomial identity covers all labels: a cube rendered twice or never cannot cancel.", "75 s"),
"C10": ("on each linear piece the fold's matrix is read off symbolically; its determinant must be +-1, its image inside the unit simplex, and the pieces six; affine maps and one-step samplers must agree with it for symbolic draws and corners.",
        "uniformity is a statement about all draws.", "8 s"),
"C11": ("points with symbolic position in a pixel, weight and prior image are deposited through Box.Overlap; exactly the pixel that contains the point's periodic image may change, by its weight. Sheets: Manager renders one segment with a displaced particle and the image's sum must be the mass inside.",
        "every placement of region, segment and point across the box edge along an axis.", "70 s"),
"C12": ("the same symbolic points are deposited directly and through a private segment buffer merged by Add; the images must be equal, also when the segment's bounding box is larger, and in any merge order.",
        "as C11.", "60 s"),
"C13": ("NewBox with symbolic region ends; the four inequalities on origin and span, cell width, and each sample's nominal position.",
        "covers region ends exactly at and just beside pixel faces.", "6 s"),
"C14": ("symbolic periodic cell intervals against the definition (exists a shared cell, by cases); relative coordinates against modular arithmetic.",
        "all pairs of intervals of a grid, including wrapped and whole-box ones.", "16 s"),
"C15": ("ModAt bit-exactly in IEEE arithmetic for every float: inside [0, width), same point; SubAt: equivalent and of least magnitude; linear operations component-wise with aliasing.",
        "the defect found (a tiny negative number wraps to the width) is one float in billions.", "7 s"),
"C16": ("symbolic coordinates and indices in grids of listed shapes with symbolic origin; bijection, order, bounds, and grids initialised twice.",
        "every origin and index.", "1 s"),
"C17": ("fields are polynomials with symbolic coefficients (or arbitrary values, periodic); derivatives must equal the exact derivative at every cell including edges, for every operation on the prior output.",
        "identity in the coefficients, so exactness for all polynomials at once.", "5 s"),
"C18": ("gradient, divergence and curl of arbitrary symbolic fields against the combination of Deriv calls; options and field compared before and after, two calls in sequence.",
        "arbitrary fields; call histories.", "4 s"),
"C19": ("buffers are filled with symbolic sums and counts, finalised twice, cut, cleared, refilled; results against the definition of each quantity.",
        "histories of operations.", "4 s"),
"C20": ("CheckInit and validators on configurations with symbolic fields (IEEE, NaN included): accepted exactly when in the documented range; the ball's cube must enclose it.",
        "every float value of every field.", "15 s"),
"C21": ("main() renders sheet files; the output's header fields are compared with expressions of the configuration and of the symbolic cosmology; header constructors for symbolic arguments.",
        "joint behaviour of configuration, pixelisation and output over all settings.", "22 s"),
"C22": ("identities of the Friedmann relation over reals.", "all cosmologies.", "1 s"),
"C23": ("generators from an arbitrary internal state bit-exactly; range and stream claims; a step never leads to the stuck state.",
        "one bad state in 2^32 is found; tests draw a few thousand numbers.", "50 s"),
"C24": ("direction numbers from the code, then Next from a symbolic index: the standard recurrence; distinctness of two symbolic indices in an aligned block; whole blocks for small k.",
        "holds for every index, hence every block.", "8 s"),
"C25": ("arrays of symbolic values, all comparisons forked: output sorted and a permutation (counted per element).", "all orders and ties up to the length, through both algorithms' branches.", "18 s"),
"C26": ("as C25, against the rank definition (counting smaller and equal elements), caller's data unchanged.", "ties and all ranks.", "7 s"),
"C27": ("entries symbolic, textbook sums; larger shapes (33x18, 70x1) for blocked code.", "all entries; shapes beyond what tests use.", "6 s"),
"C28": ("symbolic matrices with forked pivot choices: A x = b, A inv = 1, Leibniz determinant, reuse of factors and storage.", "every sequence of row exchanges.", "6 s"),
"C29": ("symbolic tables, symbolic point: node values, bilinear forms, range and refusal.", "every point and spacing.", "12 s"),
"C30": ("symbolic values: continuity of value, first and second derivative at knots as identities, exact integral by antiderivative of the derived polynomial, histories.", "identities in the data.", "12 s"),
"C31": ("weights and convolution as polynomial identities in symbolic data against the definition with explicitly continued data.", "all data, all boundary rules.", "3 s"),
"C32": ("polynomials with symbolic coefficients on symbolic spacings.", "all polynomials at once.", "1 s"),
"C33": ("bin limits in exact arithmetic for symbolic sample and limits; intervals against the definition; HistManager and main() with symbolic plane positions against counting by the harness.", "samples at bin edges, intervals that meet, the box edge.", "75-105 s"),
"C34": ("halos with symbolic coordinate and radii in the grid; links against the periodic distance test, both directions.", "pairs across box edges and grid rows at every distance.", "220 s"),
"C35": ("inverse relations as identities with exact cube roots.", "all masses and redshifts.", "2 s"),
"C36": ("volume, barycentre as identities; containment against barycentric weights; bounds over reals and bit-exactly.", "every point and orientation.", "8 s"),
"C37": ("WriteBuffer and WriteSheet are executed symbolically; the bytes of the file, as terms over the symbolic header and samples, are handed to the real Python module, which runs under the ordinary interpreter with `struct`, `array`, `open` and numpy's file readers replaced by versions that work on symbolic bytes (branches on symbolic values are enumerated); the fields and arrays it returns come back as terms and must equal what was written. Replays and witnesses run the unmodified module on the real file.", "every header value and sample, in every projection; two readers had never been run against a file under Python 3.", "9 s"),
"C38": ("every access that a worker, or the program while workers run, makes to memory that more than one of them can reach is recorded with its vector clock (starts, channels, mutexes, wait groups, once, atomics), the condition of its path and its symbolic place; two accesses that neither happens before are a race if the solver finds inputs for which both conditions hold and the places are equal. It is replayed in a build with the Go race detector.", "two accesses conflict for any interleaving that the explored order implies, without the unlucky schedule having to occur, and for every value that decides the places (the bins of a histogram).", "60 s"),
"C41": ("main itself is executed on command lines and configuration files in a modelled file system; refusal is log.Fatal, a flag error or an error exit. The oracle counts the flags, knows which settings are required from the documentation in the example files, and lists which files may exist afterwards.", "every combination of flags and every missing setting; three of them were silently accepted.", "55 s"),
"C39": ("catalogs with symbolic masses; each column carries its halo's own mark, so any mix-up is visible after sorting.", "every order of masses.", "2 s"),
"C40": ("bounds and cell numbers are symbolic integers; membership and place against arithmetic modulo the width of the box; the composed blanking loop against the set of shared cells.", "every combination of edges crossed; found that cells beyond the edge were converted to places outside of the grid.", "15 s"),
}
# seeded change -> remark
FIRST = {
"velocity-offset": "missed at first: the executor stopped at a symbolic Seek; now modelled",
"short-header": "missed at first; header buffers used before were added",
"bounds-cache": "missed at first; grids initialised twice were added",
"out-stride": "missed at first; larger shapes were added",
"hoisted-bounds": "missed at first: all images of a run had the same resolution; several resolutions in one run were added",
"large-batch": "missed at first: only three particles with repeated ids; there are four now",
"half-box": "missed at first: particles spanned less than half the box; one anywhere along an axis was added",
"direct-truncate": "missed at first: no point of the harness lay inside of the region on every axis; moved",
"dirty-inverse": "missed at first; inverses over used matrices were added",
"velocity-only": "missed at first: curls and divergences were not rendered by way of the Manager; added",
"rank-cells": "missed at first; radii that do not decrease with rank were added (this also exposed fix 356eaee)",
}
ORDER_FIXES = []
