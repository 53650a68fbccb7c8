#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Sheet files round-trip bit for bit",
  "A density-sheet segment written to disk and read back returns exactly the same header, positions and velocities, bit for bit, through every reader entry point (header only, positions, velocities) and into preallocated slices of the right length. Values are stored at the documented offsets in the byte order the file's flag announces, files in either byte order are read, the particle count of the header is the cube of the particle count per side, and writing does not alter the caller's data.",
  ["inputs"], "every header field value, every grid width and every 32-bit pattern of every vector component",
  "No test touches the io package; a round trip must hold for every bit pattern (NaNs, negative zero, extreme counts), not for sample values.",
  ["render/io/io.go"],
  [("sheet writer", "render/io/io.go:WriteSheet"), ("sheet readers", "render/io/io.go:ReadSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt"), ("vector (de)serialisation", "render/io/io.go:readVecAsByte, writeVecAsByte")],
  ["render/io.WriteSheet", "render/io.ReadSheetHeaderAt", "render/io.ReadSheetPositionsAt", "render/io.ReadSheetVelocitiesAt"])
p("C02", "Damaged or truncated sheet files are reported, never silently accepted",
  "Reading a sheet segment whose file is missing, cut short at any byte, or whose byte order flag or stored header size is wrong, yields an error (not a crash) from every reader that needs the missing part; data is only ever returned as good if every byte of it came from the file. Buffers of the wrong length are errors too.",
  ["inputs", "crash_points"], "every truncation length of a segment file (a crash or full disk while writing) and every value of the size field",
  "No test feeds a damaged file; the guarantee is about every cut point.",
  ["render/io/io.go"],
  [("size check", "render/io/io.go:loadSheetHeader"), ("readers", "render/io/io.go:ReadSheetPositionsAt, ReadSheetVelocitiesAt")],
  ["render/io.ReadSheetHeaderAt", "render/io.ReadSheetPositionsAt", "render/io.ReadSheetVelocitiesAt"])
p("C03", "Output grids written by the renderer are read back unchanged",
  "A grid file written for any rendered quantity, scalar or vector, full or projected, in any region, is read back with the same header (including whether it is a vector grid, its spans, origin, cosmology and render settings) and exactly the same samples in the same order, and the amount of data in the file is exactly what its header announces. Missing and truncated grid files are errors, and a vector grid is not read as a scalar one.",
  ["inputs", "configurations"], "every quantity, region shape, projection axis, header value and sample bit pattern",
  "There is no test of the output format; a test would cover one grid.",
  ["render/io/output.go", "render/io/buffer.go"],
  [("grid writer", "render/io/output.go:WriteBuffer"), ("grid readers", "render/io/output.go:ReadGridHeader, ReadGrid")],
  ["render/io.WriteBuffer", "render/io.ReadGridHeader", "render/io.ReadGrid"])
p("C04", "Gadget snapshots are decoded faithfully",
  "Reading a Gadget snapshot returns, for every particle, the stored id, the stored position wrapped into the box and the stored velocity times the square root of the scale factor, and a header with the stored cosmology, independent of the byte order the file was written in; truncated snapshots, blocks whose size does not fit the header and buffers of the wrong length are refused, never silently decoded into particles.",
  ["inputs", "configurations"], "every byte pattern of header and particle blocks, both byte orders",
  "No test reads a Gadget file; byte-order and short-read faults show up only for particular bytes or lengths.",
  ["render/io/io.go"],
  [("header decoding", "render/io/io.go:ReadGadgetHeader, Standardize"), ("particle decoding", "render/io/io.go:ReadGadgetParticlesAt"), ("wrap", "render/io/io.go:WrapDistance")],
  ["render/io.ReadGadgetHeader", "render/io.ReadGadgetParticlesAt"])
p("C05", "Particle batching does not change the stream",
  "However a stream of particles is cut into batches, and whatever the order of their ids, the particle buffer places the position and velocity of each particle at index id-1 of the whole-simulation arrays, with nothing dropped, duplicated or misplaced and the caller's batches unchanged; when an id comes again the later particle wins.",
  ["histories"], "every sequence of appends and flushes within the bound, every buffer capacity",
  "Depends on histories of calls and on batch boundaries; no test exists.",
  ["render/io/buffer.go"],
  [("particle buffer", "render/io/buffer.go:ParticleBuffer")],
  ["render/io.ParticleBuffer"])
p("C06", "Sheet segmentation puts every particle in its place",
  "Converting a snapshot into sheet segments stores each particle of the simulation at its Lagrangian place: each segment holds its own sites plus the one-site overlap shared with its neighbours (periodic across the box), every site is stored in some segment, and distinct segments go to distinct files. Units are converted (positions and box width, velocities, mass). A decomposition that would lose particles (a cell count which does not divide the particles per side, a particle count which is no cube) is refused.",
  ["inputs", "configurations"], "every particle grid width, every segment index and every number of segments per side within the bound",
  "The conversion runs only in the command-line program, without tests; layout mistakes appear at particular segments (last one on an axis, more than ten per side).",
  ["render/main/main.go"],
  [("segment copy", "render/main/main.go:copyToSegment, writeGrids")],
  ["render/main: files written by -Mode ConvertSnapshot"])
p("C07", "Segment bounding boxes cover their particles periodically",
  "The origin and width stored with each sheet segment describe a box that starts inside the simulation box and contains every particle of the segment, up to periodic wrapping, and the velocity bounds contain every velocity of the segment and are no wider than the velocities; for a segment whose particles span less than half the box on each axis the box is no wider than the particles are spread.",
  ["inputs"], "every arrangement of particle positions in the box and every velocity",
  "Wrap-around cases at box edges arise only for particular positions; untested.",
  ["render/main/main.go"],
  [("bounding boxes", "render/main/main.go:runningMinMax, boundingBox")],
  ["sheet headers written by render/main"])
p("C08", "The tetrahedra tile the particle sheet",
  "For every Lagrangian cube the six tetrahedra use only corners of that cube, all of them inside the segment grid, have disjoint interiors and together fill the cube exactly once, so that neighbouring cubes tile the sheet without gap or overlap; the eight tetrahedra centred on a particle fill the octant each around it and are refused exactly when a corner would leave the grid.",
  ["inputs", "configurations"], "every cube index, every grid width, every subsampling length and every direction",
  "A tiling is a statement about every point of a cube and every cube of the grid.",
  ["render/geom/tetra.go"],
  [("corner tables", "render/geom/tetra.go:Dirs, centers, TetraIdxs.Init, InitCartesian, InitCentered")],
  ["render/geom.TetraIdxs"])
p("C09", "Parallel work covers every sheet cube exactly once",
  "When a sheet segment is rendered, each cube of the (possibly subsampled) particle grid is processed by exactly one worker, whatever the number of workers and whatever order they run in, so the result does not depend on the thread count. A uniform sheet is rendered with uniform density and velocity, whichever quantity is made of them. Subsampling lengths that do not divide the segment are refused.",
  ["schedules", "configurations"], "every worker count, segment width, subsampling length and completion order within the bound",
  "Coverage of an index set for every worker count and schedule cannot be sampled by one run; no test exists.",
  ["render/render.go", "render/hist.go"],
  [("density worker split", "render/render.go:Manager.RenderDensity..., chanInterpolate"), ("histogram worker split", "render/hist.go:chanHistogram")],
  ["render.Manager", "render.HistManager"])
p("C10", "Monte Carlo points are inside their tetrahedron and uniform",
  "Points sampled in a tetrahedron are convex combinations of its four corners for every random draw, and the map from the unit cube of random draws to the tetrahedron is a volume-preserving fold: each piece is one of the six unimodular affine maps of Rocchini and Cignoni's fold, so every target is hit equally often. The one-step, two-step, single and double precision variants agree on the same draws, and the barycentre that corners are taken relative to is their mean.",
  ["inputs"], "every triple of random numbers in the unit cube, every tetrahedron",
  "Uniformity is a property of the map over its whole domain, which a finite sample of draws can only suggest.",
  ["render/geom/tetra.go"],
  [("cube-to-tetrahedron fold", "render/geom/tetra.go:DistributeUnit, Distribute, RandomSample"), ("affine map", "render/geom/tetra.go:DistributeTetra, DistributeTetra64")],
  ["render/geom.Tetra.DistributeUnit, DistributeTetra, DistributeTetra64"])
p("C11", "Deposition conserves mass",
  "The density deposited for a sheet adds up to the mass of its particles that fall in the rendered region: deposition adds each sampled point's weight to exactly the one cell that contains it. Points outside the region contribute nothing to it and no other cell is altered. Other regions rendered in the same run, of whatever resolution, make no difference.",
  ["inputs", "configurations"], "every point position, weight, region offset and region shape, at and across the periodic boundary",
  "Conservation must hold for every point position, notably at cell and box edges.",
  ["render/density/interpolator.go", "render/box.go"],
  [("mass weighting", "render/density/interpolator.go:mcarlo"), ("region overlap deposit", "render/box.go:Interpolate, Add")],
  ["render overlap Interpolate/Add", "density.MonteCarlo"])
p("C12", "Segment-local and domain deposition agree",
  "Depositing the points of a segment into a private segment buffer and adding it to the image gives the same image as depositing them directly, for two- and three-dimensional renders, scalar and vector quantities; the merge order of workers does not matter.",
  ["inputs", "configurations", "schedules"], "every segment position relative to the region incl. periodic wraps, every point",
  "The two code paths are chosen by a memory heuristic, so tests would exercise one of them.",
  ["render/box.go", "render/render.go"],
  [("overlaps", "render/box.go:segmentOverlap2D, segmentOverlap3D, domainOverlap2D, domainOverlap3D")],
  ["render overlap Interpolate/Add"])
p("C13", "The rendered pixel grid covers the requested region",
  "For every requested region and resolution the pixel grid starts at or before the region's origin, ends at or after its end, exceeds it by less than a pixel at the start and by at most a pixel at the end, keeps cell width, and places each sample at its nominal position; a projected image collapses exactly the requested axis.",
  ["configurations"], "every origin, width, box size and pixel count",
  "Off-by-one pixels occur only at particular alignments (including origin zero and negative origins).",
  ["render/box.go"],
  [("pixelisation", "render/box.go:NewBox, box2D, box3D")],
  ["render.NewBox: CellOrigin, CellSpan, CellWidth, Points"])
p("C14", "Periodic overlap tests never miss an overlap",
  "Two cell regions that share at least one cell in the periodic grid are always reported as intersecting, regions that share none are reported as disjoint, and positions are mapped to coordinates relative to a segment or a region so that a position is below the segment's width exactly when its cell belongs to the segment.",
  ["inputs"], "every pair of origins in the box (one of them possibly up to a box below) and every width up to the grid width; every position in the box",
  "A missed overlap drops part of a sheet only for particular wraps; no test covers it.",
  ["render/geom/grid.go", "render/geom/tetra.go"],
  [("intersection", "render/geom/grid.go:CellBounds.Intersect, IntersectUnbounded"), ("relative coordinates", "render/geom/grid.go:ScaleVecsSegment, ScaleVecsDomain")],
  ["render/geom.CellBounds.Intersect"])
p("C15", "Periodic vector arithmetic stays in the box and finds nearest images",
  "Wrapping a vector gives the equivalent point inside the box, strictly below its width; periodic subtraction gives the equivalent displacement of smallest magnitude per axis; addition, scaling and their in-place forms compute component-wise results without disturbing the other operand.",
  ["inputs"], "every pair of positions less than two and a half box widths apart, every floating-point value including tiny negative numbers, every box width",
  "Rounding at the box edge happens for specific floats only.",
  ["render/geom/vec.go"],
  [("periodic wrap", "render/geom/vec.go:ModAt, SubAt")],
  ["render/geom.Vec"])
p("C16", "Grid indices and coordinates are a bijection",
  "Within a grid's bounds, converting coordinates to a flat index and back is the identity, each index in range is hit exactly once, with x varying fastest, and coordinates outside the bounds are recognised.",
  ["inputs"], "every origin, width and coordinate triple",
  "Bijection over all indices and all shapes.",
  ["render/geom/grid.go"],
  [("grid", "render/geom/grid.go:Grid.Idx, Coords, BoundsCheck, IdxCheck")],
  ["render/geom.Grid"])
p("C17", "Grid derivatives are exact on polynomials and respect boundaries",
  "A finite-difference derivative along any axis, of order two or four, one-sided at region edges or periodic, differentiates exactly every field it is documented to (polynomials up to the scheme's degree along that axis), scales with cell width, touches only its axis' neighbours, combines with the output by the requested operation, and is never computed on a grid too narrow for its stencil.",
  ["inputs", "configurations"], "every field value, axis, order, boundary mode, output operation and grid shape within the bound",
  "A wrong coefficient or stride on one axis or one edge shows only for particular fields; the one test there does not compile.",
  ["render/geom/deriv.go"],
  [("stencils", "render/geom/deriv.go:Deriv, wrapDeriv, edgesDeriv, innerDeriv")],
  ["render/geom.GridLocation.Deriv"])
p("C18", "Curl, divergence and gradient combine the right derivatives",
  "Gradient, divergence and curl of a field are exactly the textbook combinations of the axis derivatives computed with the same options, and calling them changes neither the options passed in, the library defaults, nor the input field.",
  ["inputs", "configurations", "histories"], "every field, option set and sequence of calls",
  "State leaks between calls appear only in sequences of calls.",
  ["render/geom/deriv.go"],
  [("vector operators", "render/geom/deriv.go:Curl, Divergence, Gradient")],
  ["render/geom.GridLocation.Curl, Divergence, Gradient"])
p("C19", "Accumulated buffers finalise to the quantity they are named for",
  "Every quantity's accumulation buffer turns what was deposited into the physical quantity of that name (density, its gradient, the mean velocity of the points in a cell, its divergence, its curl), with empty cells counting as zero; finalising changes nothing, buffers can be cut to any length and back, are empty once cleared and can then be used again; every quantity name converts to its quantity and back, whatever its case, and other names are refused.",
  ["inputs", "histories"], "every deposited weight and velocity, every quantity",
  "Empty cells, reuse after clearing and every quantity are outside the few density tests, which do not compile.",
  ["render/density/buffer.go", "render/density/quantity.go"],
  [("buffers", "render/density/buffer.go"), ("names", "render/density/quantity.go")],
  ["density.NewBuffer(...).FinalizedScalarBuffer/FinalizedVectorBuffer", "density.QuantityFromString"])
p("C20", "Every accepted configuration can be rendered and bad ones are refused",
  "A region or render configuration accepted by validation lies inside the periodic box with positive size and a usable subsampling length, so nothing later fails on it; a configuration outside its documented range is refused with an error. A ball converts to the cube that encloses it, wrapped into the box, with the projection it was given. Not-a-number values are refused; subsampling lengths are powers of two; every documented quantity name is accepted whatever its case.",
  ["configurations"], "every numeric field value of box, ball and render configurations",
  "Validation must be right for every combination of values; no test exists.",
  ["render/io/config.go"],
  [("validation", "render/io/config.go: CheckInit, Valid*"), ("ball to box", "render/io/config.go:BallConfig.Box")],
  ["render/io config types"])
p("C21", "The header written with a render describes that render",
  "Every region of a render gets its own output file, named after it, whose header reports the quantity, the cosmology, box width and densities of the simulation, the pixels across the box, points per tetrahedron and subsampling actually used, the projected axis, the pixel width and the region in pixels and in units of length; exactly as many samples follow as that says, and they are those of that region. The numbers of pixels and points used are those the configuration asks for, directly or through ImagePixels, ProjectionDepth or AutoParticles. (The suggested minimum projection depth, which is documented as broken, is not covered.)",
  ["configurations"], "every region and render setting",
  "Runs only from the command-line program without tests.",
  ["render/io/output.go", "render/main/main.go", "render/box.go"],
  [("header construction", "render/io/output.go:NewRenderInfo, NewLocationInfo, NewCosmoInfo")],
  ["render/io.GridHeader"])
p("C22", "Cosmological densities are consistent",
  "The critical and mean densities returned for any cosmology and redshift satisfy the Friedmann relation: matter density scales as the cube of one plus redshift, the average density equals the matter fraction at redshift zero times critical density scaled to that redshift, and a flat universe keeps the fractions summing to one.",
  ["inputs"], "every Hubble constant, matter and vacuum fraction and redshift",
  "An identity over all cosmologies; no test exists.",
  ["cosmo/param.go", "cosmo/const.go"],
  [("densities", "cosmo/param.go")],
  ["cosmo.HubbleFrac, RhoCritical, RhoAverage"])
p("C23", "Random generators stay in range and streams are consistent",
  "Every random generator yields numbers in the half-open unit interval from every internal state, integer and ranged draws stay inside the requested range, drawing one at a time or in bulk gives the same stream, and the generator never gets stuck in a degenerate state.",
  ["inputs", "histories"], "every internal state, every requested range",
  "A value of exactly one appears for a handful of 2^64 states; sampling will not find it.",
  ["math/rand/rand.go", "math/rand/xorshift.go", "math/rand/tausworthe.go", "math/rand/golang.go"],
  [("generators", "math/rand/tausworthe.go, xorshift.go"), ("ranged draws", "math/rand/rand.go")],
  ["math/rand.Generator"])
p("C24", "Sobol sequences are well distributed in every dimension",
  "Every dimension of the quasi-random sequence takes each of the 2^k equal sub-intervals exactly once in every aligned block of 2^k points, points lie in the unit cube, successive points follow the standard direction-number recurrence, and the sequence restarts identically after re-initialisation.",
  ["histories", "inputs"], "every position in the sequence (symbolic index), every supported dimension",
  "Stratification is a statement about every aligned block of the sequence.",
  ["math/rand/sobol.go"],
  [("Sobol generator", "math/rand/sobol.go:Init, Next")],
  ["math/rand.SobolSequence"])
p("C25", "Sorting sorts",
  "The sorting routines return their input's elements, each as often as it occurred, in increasing order, and reversing returns the elements in opposite order.",
  ["inputs"], "every array of every length within the bound, with duplicates",
  "The tests sort random arrays; correctness is for every arrangement.",
  ["math/sort/quick.go", "math/sort/shell.go", "math/sort/sort.go"],
  [("sorts", "math/sort/quick.go:Quick, math/sort/shell.go:Shell, sort.go:Reverse")],
  ["math/sort.Quick, Shell, Reverse"])
p("C26", "Order statistics select the right element",
  "Median, n-th largest and percentile queries return the element of the data with the rank they are documented to, for every array with or without duplicates, and leave the caller's data unchanged unless they are the documented in-place forms.",
  ["inputs"], "every array within the bound, every rank",
  "Odd lengths, duplicates and extreme ranks are outside the single random test.",
  ["math/sort/median.go", "math/sort/quick.go"],
  [("selection", "math/sort/median.go")],
  ["math/sort.Median, NthLargest, Percentile"])
p("C27", "Matrix products and transposes are exact linear algebra",
  "Matrix multiplication (in both precisions), transposition and matrix-vector products (in double precision), in their in-place forms too, equal the textbook definition for every shape, and mismatched shapes are refused.",
  ["inputs"], "every matrix entry, every shape within the bound",
  "The tests use fixed square matrices.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("product, transpose", "math/mat/mat.go, mat32.go")],
  ["math/mat.Matrix.Mult, Transpose"])
p("C28", "Linear solves satisfy the equations they solve",
  "For every invertible matrix, the solution returned for a right-hand side satisfies the equations, the inverse times the matrix is the identity, the determinant is the Leibniz determinant, and a factorisation can be reused for any number of right-hand sides, in both precisions and whatever row exchanges pivoting makes.",
  ["inputs"], "every invertible matrix up to the bound, every right-hand side",
  "Row-exchange patterns are combinatorial and depend on entry magnitudes; tests use a few matrices.",
  ["math/mat/mat.go", "math/mat/mat32.go"],
  [("LU", "math/mat/mat.go:LU, LUFactors.SolveVector, InvertAt, Determinant")],
  ["math/mat.Matrix.LU, Invert, Determinant, LUFactors.SolveVector/SolveMatrix"])
p("C29", "Linear interpolators reproduce their data and linear functions",
  "Linear, bilinear and trilinear interpolation return the tabulated value at every node, are exact for every function linear along each axis, never leave the range of the surrounding nodes, work on uniform and non-uniform, increasing and decreasing tables, and refuse points outside the table.",
  ["inputs"], "every table within the bound, every evaluation point",
  "Axis mix-ups show only on non-cubic tables; no test of these.",
  ["math/interpolate/linear_interpolators.go", "math/interpolate/search.go"],
  [("interpolators", "math/interpolate/linear_interpolators.go"), ("cell search", "math/interpolate/search.go")],
  ["math/interpolate.Linear, BiLinear, TriLinear"])
p("C30", "Cubic splines interpolate, and derivatives and integrals agree",
  "A cubic spline passes through its data, is twice continuously differentiable at every knot, reproduces linear data exactly; its derivatives are the derivatives of its values, and its integral over any interval equals the exact area, additive and antisymmetric in the limits. Bi- and tricubic versions pass through their nodes, are splines of splines, and give values that do not depend on what was evaluated before. The tridiagonal solver behind it satisfies its equations.",
  ["inputs"], "every table within the bound, increasing or decreasing, every point and interval",
  "The tests plot curves.",
  ["math/interpolate/spline.go", "math/interpolate/cubic_interpolators.go"],
  [("spline", "math/interpolate/spline.go"), ("2D/3D", "math/interpolate/cubic_interpolators.go")],
  ["math/interpolate.Spline, BiCubic, TriCubic"])
p("C31", "Smoothing kernels are normalised and respect boundary rules",
  "Smoothing kernels have unit sum and symmetric weights, Savitzky-Golay smoothing reproduces polynomials up to its order, and convolution equals the definition with the data continued beyond its ends by the selected boundary rule (extension, reflection or periodic), for any kernel narrower than the data.",
  ["inputs", "configurations"], "every data value, kernel width, order and boundary rule within the bound",
  "Tests check one kernel's coefficients.",
  ["math/interpolate/filter.go"],
  [("kernels", "math/interpolate/filter.go")],
  ["math/interpolate.Kernel"])
p("C32", "Numerical derivatives of tables are exact where promised",
  "Differentiating a tabulated function returns, at order zero, the function itself, and at order two or four, values exact for every polynomial up to that degree at any spacing of the points, including the first and last points; unsupported orders and mismatched tables are refused.",
  ["inputs"], "every table within the bound",
  "No test exists.",
  ["math/calc/deriv.go"],
  [("derivative", "math/calc/deriv.go:Deriv")],
  ["math/calc.Deriv"])
p("C33", "Density histograms count every sample once",
  "Each sampled value inside the histogram's range increments exactly one bin, the one whose limits enclose it (linearly or logarithmically spaced), values outside are not counted, and bin centres are halfway between limits. A tetrahedron histogram counts, for every region, every point drawn from every cube of every segment (at every subsampling) whose place is inside the region and the density grid exactly once, with the density of the pixel it falls in, also across the edge of the box and for every number of workers; periodic interval tests used to select segments never miss an overlapping segment, and the program writes the counts of each region to its own file.",
  ["inputs"], "every sample value, bin count, range and segment position",
  "Edge values and wraps; no test exists.",
  ["render/hist.go"],
  [("histogram", "render/hist.go")],
  ["render.Histogram"])
p("C34", "Subhalo search finds exactly the contained haloes",
  "For haloes given in order of decreasing mass, the subhalo finder links two haloes as host and subhalo exactly when their spheres overlap, with distances measured periodically: the earlier one is the host, each pair is reported once, on both sides, no halo is linked with itself, and searching again with the same finder gives what a new finder gives.",
  ["inputs"], "every set of halo positions and radii within the bound",
  "Periodic edges and cell boundaries; no test and the package does not build here.",
  ["render/halo/grid.go", "render/halo/finder.go"],
  [("grid", "render/halo/grid.go"), ("subhalo search", "render/halo/finder.go")],
  ["render/halo.SubhaloFinder"])
p("C35", "Mass and radius definitions are inverse to each other",
  "For each supported overdensity definition, converting a mass to a radius and back returns the mass; the mean physical density within a (comoving) radius equals the definition's threshold times the critical or the mean density at that redshift; conversions leave their input alone and work in place; names convert to definitions and back, whatever their case, and other names are refused; catalog columns are those of the definition.",
  ["inputs"], "every mass, radius, redshift and cosmology",
  "Identity over all inputs; no test exists.",
  ["render/halo/radius.go"],
  [("radius", "render/halo/radius.go")],
  ["render/halo.Radius"])
p("C39", "Halo catalogs keep every halo's data together",
  "Converting a halo catalog to the binary format and reading it gives what reading the text catalog gives, column by column, with lengths in Mpc and radii that follow from the masses; keeping the N most massive halos keeps exactly those, each with all of its own values; whole catalogs are read in order of decreasing radius with every halo's id, place, mass and radius together; missing and truncated catalogs give errors.",
  ["inputs"], "every catalog of a few halos, every column",
  "Needs the text table library, which is not available here, and every order of masses; no test exists.",
  ["render/halo/io.go"],
  [("conversion", "render/halo/io.go:RockstarConvert, RockstarConvertTopN"), ("reading", "render/halo/io.go:readRockstarVals, ReadRockstar")],
  ["render/halo.RockstarConvert", "render/halo.ReadBinaryRockstarVals", "render/halo.ReadRockstar"])
p("C36", "Tetrahedron geometry is exact",
  "The volume, barycentre, containment test and integer bounds of a tetrahedron agree with geometry: volume is a sixth of the absolute triple product, every point strictly inside is contained and every point outside is not, in both orientations, the barycentre is the mean of the four corners, and the cell bounds contain every corner and no superfluous layer.",
  ["inputs"], "every tetrahedron and every point",
  "Containment needs all four faces and both orientations; the tests sample little and do not compile.",
  ["render/geom/tetra.go"],
  [("geometry", "render/geom/tetra.go:Volume, Contains, Barycenter, CellBoundsAt")],
  ["render/geom.Tetra"])
p("C37", "The Python readers agree with the Go writers",
  "python/gotetra.py reads every grid file the renderer writes (every quantity, scalar or vector, full or projected along any axis) and python/gtet.py every particle sheet: each header field has the value that was written, under its own name; grids have the shape of the region with the last index that of x (sheets: a fourth index for the component), and every sample and particle is at its own place with the value in the file.",
  ["inputs"], "every header value and every sample; spans 1-3 per axis, sheets 1-3 particles wide",
  "There is no test of the Python modules, and they must agree with the Go code for every header, quantity, projection and value.",
  ["python/gotetra.py", "python/gtet.py", "render/io/output.go", "render/io/io.go"],
  [("grids", "python/gotetra.py:read_header, read_grid"), ("sheets", "python/gtet.py:File"), ("writers", "render/io/output.go:WriteBuffer, render/io/io.go:WriteSheet")],
  ["python/gotetra.py", "python/gtet.py", "render/io.WriteBuffer", "render/io.WriteSheet"])
p("C38", "Workers never race on shared data",
  "While images are rendered or histograms made by several workers, no memory location is written by one of them while another worker, or the program that starts them and adds up their results, reads or writes it.",
  ["schedules", "inputs"], "2-4 workers, one or more images and sheets, every quantity",
  "A race shows under particular interleavings only, and often as a slightly wrong image or not at all; no test starts a worker.",
  ["render/render.go", "render/hist.go", "render/density/interpolator.go", "render/density/buffer.go"],
  [("workers", "render/render.go:RenderDensityFromFile, chanInterpolate; render/hist.go:HistFromFile, chanHistogram"), ("their buffers", "render/render.go:initWorkspaces; render/density/interpolator.go:mcarlo")],
  ["render.Manager", "render.HistManager"])
p("C41", "The program runs what it is asked for, or refuses",
  "gotetra runs exactly the mode whose flag is given, and refuses none, several, or a mode without its bounds file. A configuration that lacks a required setting, or has one that makes no sense, is refused before anything is written. The example files that it prints are accepted as they are, apart from the directories, and their values are used. An iterated conversion converts every snapshot from IterationStart to IterationEnd or, if that is not set, up to the first that is not there, each into its own directory; it stops with an error if one that was asked for is missing.",
  ["inputs", "histories"], "every set of mode flags, every required setting missing or bad, iterations of 0-3 snapshots from 0-2 with and without gaps and ends",
  "The program is never run by a test, and each combination of flags, settings and directories takes a different way through it.",
  ["render/main/main.go", "render/io/config.go"],
  [("modes", "render/main/main.go:main, getModeName"), ("iterations", "render/main/main.go:lGadget2Main"), ("examples", "render/io/config.go:Example*File")],
  ["render/main"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
p("C40", "The cells around a sphere are the same from every side of the box",
  "The cell bounds of a sphere in a periodic box contain every cell that the sphere reaches and, unless it is as wide as the box, no layer that it does not; a cell counts as inside of bounds exactly if it is one of their cells, whether it is given by its number in the box or by that beyond the box's edge; and the place of such a cell in the grid of the bounds counts from their first cell, so that it is in the grid and every shared cell of two spheres is found at its own place.",
  ["inputs"], "every position and radius, bounds anywhere in the box, every cell number up to twice the box's",
  "Only cells across the edge of the box are affected, on each axis on its own; no test, and the package does not build here.",
  ["render/halo/finder.go"],
  [("bounds", "render/halo/finder.go:SphereBounds, Inside, ConvertIndices")],
  ["render/halo.Bounds"])
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
