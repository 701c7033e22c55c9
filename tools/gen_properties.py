#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
C = "eisvogel/core/impl/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

# ------------------------------------------------------------------ storage
prop("S01", "A distributed array returns exactly what was written into it",
     "After any sequence of registering non-overlapping chunks, appending slices to chunks, flushing and reading, every element of the distributed array has exactly the value last written to it, whether it is read one element at a time, as a rectangular block or by iterating over the array. This does not depend on the number of chunks the in-memory cache can hold (including none), on the initial size of the cache entries, or on the granularity used for the on-disk format. An append that is refused with an error, as one of a slice that does not fit its chunk always is, changes nothing. The reported shape is the extent of the array when the chunks tile it without gaps and zero otherwise.",
     ["histories", "inputs", "configurations"],
     "All histories of register / append / read / block-read / iterate / flush operations over arrays of 1 to 3 dimensions, with all cache sizes, serialization granularities, value patterns (dense, sparse, zero) and chunk arrangements.",
     "testDistributedNDVecArray writes a handful of fixed layouts with one or two cache sizes and prints, rather than fails on, most differences; interactions between eviction, pending appends and re-reads depend on the operation order.",
     [C+"DistributedNDVecArray.hxx", C+"DistributedNDVecArray.hh", C+"Cache.hxx", C+"NDVecArrayStreamer.hxx"],
     [("write-back cache with serialize/append states", C+"DistributedNDVecArray.hxx"), ("spatial chunk index", C+"RStarTree.hxx"), ("LRU eviction", C+"Cache.hxx")],
     ["element access", "FillArray", "index_loop_over_elements", "GetShape"],
     [("pending operation of a cached chunk", "whether the cached data still has to be written or appended to disk", C+"DistributedNDVecArray.hh")])

prop("S02", "Stored arrays survive closing, reopening and moving, and can be extended",
     "An array that is flushed or closed and then reopened from its directory, any number of times and with any cache size, reports the same shape and the same value for every element. Chunks registered, slices appended or arrays imported after reopening leave everything stored earlier intact and are themselves readable immediately and after the next reopen. Moving an array to another directory keeps its contents and it can be used and reopened there.",
     ["histories", "inputs"],
     "All histories that interleave writes, reads, flushes, closes, reopens, moves and imports over generated arrays.",
     "The existing tests reopen an array at most once, read-only, with one fixed content; identity clashes between chunks of different sessions only show after reopen-then-write histories.",
     [C+"DistributedNDVecArray.hxx", C+"DefaultSerializationTraits.hxx"],
     [("index file load and flush", C+"DistributedNDVecArray.hxx"), ("library move / import", C+"DistributedNDVecArray.hxx")],
     ["directory contents through a new object", "element access", "GetShape"],
     [("next chunk id", "identity given to newly registered or imported chunks", C+"DistributedNDVecArray.hh")])

prop("S16", "Reading leaves a stored array untouched and works side by side",
     "Opening a stored array or Green's function, reading from it in any way (elements, regions, shape, iteration, field values), flushing and closing it changes nothing in its directory: no file is written, created or removed, whatever the cache size and the order of the reads, so it also works without the permission to write. Several readers, in one or in several processes, may use the same array at the same time and each obtains the correct values. A reader that was opened before a writer extended the array keeps returning what was stored then, and closing it does not undo what the writer stored.",
     ["histories", "schedules", "inputs"],
     "All stored arrays (any history of writes, chunks, overlaps, dropped chunks) and all interleavings of opening, reading, flushing and closing several readers, with or without one writer that goes on registering chunks, appending slices and importing arrays.",
     "The existing tests never have two objects on one directory; a write by a reader only does harm when another process reads or writes at that moment.",
     [C+"DistributedNDVecArray.hxx", C+"GreensFunction.hxx"],
     [("writing of the chunk index", C+"DistributedNDVecArray.hxx"), ("destruction of index, cache and library", C+"DistributedNDVecArray.hxx")],
     ["file-system events in the directory", "bytes of all files", "values through several objects"],
     [("index modified flag", "whether the on-disk index has to be rewritten", C+"DistributedNDVecArray.hh")])
prop("S03", "Rechunking, partial rechunking and importing never change array contents",
     "Rebuilding an array with any requested chunk shape and any overlap leaves its shape and the value of every element unchanged and leaves no chunk files behind that do not belong to it. Rebuilding a region into another directory produces exactly that region's elements, shifted to the requested output position, whatever the region, chunk shape, overlap or source chunking; pieces rebuilt separately and imported (by copy or by move) into one array together reproduce the original.",
     ["inputs", "histories"],
     "All source chunkings, regions, output positions, requested chunk shapes, overlaps, optimisation hints and partitions of the array into pieces, including repeated rebuilds.",
     "The tests rebuild one array with a few chunk shapes that mostly divide it evenly; partial regions with shifted output and copied imports are not exercised in combination.",
     [C+"DistributedNDVecArray.hxx", C+"IteratorUtils.hh", C+"VectorView.hh"],
     [("chunk rebuilder", C+"DistributedNDVecArray.hxx"), ("import of chunk files and index", C+"DistributedNDVecArray.hxx")],
     ["element access on rebuilt array", "output directory listing"])

prop("S04", "Overlap samples of rebuilt chunks agree with neighbours and boundary rule",
     "After rebuilding with overlap, each stored chunk carries around its own elements a rim of the requested width whose samples inside the array equal the array's own elements and whose samples outside are exactly those given by the supplied boundary rule for that index. With the cylindrical rule, a sample at negative radius equals the element at the mirrored radius (same height and time) and a sample outside the array in any other direction is zero.",
     ["inputs", "configurations"],
     "All array shapes and contents, requested chunk shapes, overlap widths, both kinds of boundary rule (chunk-local and array-global), and all rim positions including edges and corners.",
     "No test reads the rim samples of stored chunks directly; errors there only show as small interpolation artefacts at particular positions.",
     [C+"DistributedNDVecArray.hxx", C+"Symmetry.hxx"],
     [("boundary iteration of extended chunks", C+"DistributedNDVecArray.hxx"), ("cylindrical boundary rule", C+"Symmetry.hxx")],
     ["stored chunk data including overlap"])

prop("S05", "Dropping all-zero chunks from storage is invisible to readers",
     "Writing or rebuilding an array with the storage optimisation enabled gives an array that is indistinguishable through reads, block reads, iteration, rechunking, axis swapping, import, move and reopen from the same array written without it. Chunks that contain any non-zero value are never dropped.",
     ["inputs", "histories", "configurations"],
     "All arrays and chunkings in which some, all or none of the chunks are entirely zero, including chunks whose only non-zero sample is in a corner or in the overlap, and all read paths and later maintenance operations.",
     "The tests enable the optimisation in one layout; which chunks are null depends on content and chunking.",
     [C+"DistributedNDVecArray.hxx", C+"NDVecArray.hxx"],
     [("all-null chunk type", C+"DistributedNDVecArray.hh"), ("null detection", C+"NDVecArray.hxx")],
     ["element access", "FillArray", "index_loop_over_elements", "chunk files on disk"])

prop("S06", "Array streaming round-trips for every mode, granularity and append history",
     "An array written to a stream in dense or null-suppressed mode, with any on-disk granularity (including automatic along some axes), is read back with identical shape and values into any target array. Appending a slice along any axis, in either mode and with any thickness, is either carried out, so that the stream then reads back as the concatenation, or refused with an error, leaving what is stored unchanged; it is always refused for slices of incompatible shape and for arrays marked as final. Whole granules along the leading axis are always accepted.",
     ["inputs", "histories"],
     "All shapes (1 to 3 dimensions, 1 to 3 components), value patterns from all-zero to dense, granularities, positions in the file, and append histories mixing axes, modes and thicknesses.",
     "Tests use a few fixed shapes whose extent is a multiple of the granularity; run-length edge cases depend on where zero runs begin and end relative to chunk borders.",
     [C+"NDVecArrayStreamer.hxx", C+"NDVecArraySerialization.hh", C+"DefaultSerializationTraits.hxx"],
     [("chunked serialization and append", C+"NDVecArrayStreamer.hxx"), ("zero suppression", C+"NDVecArraySerialization.hh")],
     ["deserialize", "append_slice", "stream position"])

prop("S07", "Binary serialization of values and containers round-trips",
     "Every supported value or container (integers, floating-point numbers, strings, lists, fixed-size arrays and vectors, maps and nested combinations) written to a stream is read back equal, and reading consumes exactly the bytes that were written, so that any sequence of heterogeneous values round-trips in order.",
     ["inputs"],
     "All sequences of supported values with all contents, lengths (including empty) and nestings.",
     "testSerialization-style tests cover one instance of a few types; off-by-one consumption only shows in sequences.",
     [C+"DefaultSerializationTraits.hxx", C+"Serialization.hxx", C+"NDVecArray.hh", C+"Vector.hh"],
     [("serialization traits", C+"DefaultSerializationTraits.hxx")],
     ["stream contents", "deserialized values"])

prop("S08", "The spatial index finds exactly the stored boxes",
     "For any history of insertions of boxes, growth of a stored box, bulk reorganisation and clearing, a point query returns a stored box that contains the point and returns nothing exactly when no stored box contains it; a region query returns exactly the set of stored boxes that overlap the region, each once. Listing and visiting entries yields every stored entry exactly once, and the overall bounding box is the tight bound of all stored boxes.",
     ["histories", "inputs"],
     "All histories of insert / grow / rebuild / clear / query over disjoint or overlapping boxes, in all insertion orders and sizes large enough to force node splits and forced reinsertion at several tree levels.",
     "testRStarTree inserts regular grids; splits, reinsertion and box updates depend on order and geometry.",
     [C+"RStarTree.hxx", C+"RStarTree.hh", C+"MemoryUtils.hh"],
     [("R*-tree insertion, split, reinsertion", C+"RStarTree.hxx"), ("bounding box update", C+"RStarTree.hxx")],
     ["Search(point)", "Search(region)", "GetAllEntries", "Apply", "GetBoundingBox"])

prop("S09", "In-memory array operations match element-wise semantics",
     "Filling, copying blocks between arrays, resizing, copying and assigning, concatenating, swapping axes, taking rectangular views and iterating on an in-memory array have exactly the element-wise effect on the addressed elements and leave all others untouched. Null tests report true exactly when every component of the addressed element(s) is zero.",
     ["inputs", "histories"],
     "All shapes of 1 to 3 dimensions, component counts, block positions including single elements and whole arrays, views of arrays and views of views, and sequences of such operations.",
     "testNDVecArray checks a handful of fixed shapes; stride and offset errors only show for particular combinations.",
     [C+"NDVecArray.hxx", C+"NDVecArray.hh", C+"VectorView.hh", C+"NDVecArrayOperations.hxx"],
     [("strided storage with offset", C+"NDVecArray.hh")],
     ["operator[]", "loop_over_elements", "IsNull / IsAllNull", "GetShape / GetNumberElements"])

prop("S10", "The chunk cache behaves as a bounded least-recently-used map",
     "For any history of insertions, look-ups and evictions the cache contains exactly the entries a bounded map with least-recently-used replacement contains, each with its last stored payload. Evicting from a full cache always removes the entry whose last use lies furthest back; a look-up counts as use.",
     ["histories"],
     "All histories of insert / look-up / targeted evict / evict-oldest over capacities from one upwards.",
     "testCache runs one short script; the linked-list bookkeeping has separate paths for front, back and middle entries.",
     [C+"Cache.hxx", C+"Cache.hh"],
     [("LRU list in slot vector", C+"Cache.hxx")],
     ["contains", "get", "evict", "evict_oldest_from_full_cache", "loop_over_elements_*", "contained_elements"])

prop("S11", "Downsampling in pieces equals downsampling the whole",
     "Downsampling keeps exactly the elements whose global index is a multiple of the downsampling factor along every axis. Downsampling each piece of any rectangular partition of an array and placing each result at the reported position gives the same array as downsampling it in one go, and the reported shape always equals the number of elements kept.",
     ["inputs"],
     "All array shapes, global start indices, per-axis downsampling factors and rectangular partitions.",
     "testDownsampling uses one shape and one partition.",
     [C+"NDVecArrayOperations.hxx", C+"NDVecArrayOperations.hh"],
     [("global-index-aligned subsampling", C+"NDVecArrayOperations.hxx")],
     ["downsampled array", "returned start index", "get_downsampled_shape"])

prop("S12", "Index iteration covers each region exactly once",
     "Iterating over a rectangular index region, over an array, or over its division into chunks of a given size visits each index exactly once, in row-major order within the iterated range, and nothing outside; the chunks handed out are non-empty, no larger than requested and together tile the region. Containment and overlap computations on regions agree with the sets of indices the regions contain.",
     ["inputs"],
     "All signed and unsigned regions in 1 to 4 dimensions, chunk sizes larger or smaller than the region, and pairs of regions that are disjoint, touching, nested or crossing.",
     "These helpers are only exercised indirectly, on a few shapes.",
     [C+"IteratorUtils.hh", C+"ChunkUtils.hh", C+"VectorView.hh"],
     [("index odometer", C+"IteratorUtils.hh"), ("region overlap", C+"ChunkUtils.hh")],
     ["callback sequence", "overlap result"])

prop("S13", "Swapping two axes of a stored array transposes it",
     "Swapping two axes of a distributed array gives an array whose element at an index equals the previous element at the index with those two coordinates exchanged, with the shape exchanged accordingly, for every chunking, overlap, cache size and combination of pending writes. Swapping again restores the original, and the result can be read, rebuilt, extended and reopened like any other array.",
     ["inputs", "histories", "configurations"],
     "All arrays, chunk arrangements, pairs of axes, cache sizes and null-chunk patterns, followed by any maintenance operation or reopen.",
     "The tests swap one pair of axes on one array.",
     [C+"DistributedNDVecArray.hxx", C+"NDVecArray.hxx"],
     [("per-chunk transposition and index rebuild", C+"DistributedNDVecArray.hxx")],
     ["element access", "GetShape", "reopened array"])

prop("S14", "NumPy export describes the array faithfully",
     "Exporting an in-memory array writes a file that a NumPy reader accepts and that has the array's shape (followed by the component axis), element type and element values in row-major order.",
     ["inputs"],
     "All shapes, component counts and values.",
     "No test reads an exported file back.",
     [C+"NDVecArraySerialization.hh", C+"NDVecArray.hh"],
     [("numpy header and payload writer", C+"NDVecArray.hh")],
     ["bytes of the .npy stream"])

prop("S15", "Fixed-size vectors behave component by component",
     "Arithmetic, comparison, conversion, minimum and maximum, rounding and inner product of fixed-size vectors, and reads and writes through a view of part of a larger buffer, equal the same operation applied to each component separately and touch nothing else. Minimum and maximum of signed and unsigned values compare their mathematical values, and in-place and ordinary forms agree.",
     ["inputs"],
     "All vectors of 1 to 4 components of integral and floating-point type, all operand combinations, and views at any position of a buffer.",
     "No test covers these operations directly; mixed-sign comparisons only matter at negative indices.",
     [C+"Vector.hh", C+"Vector.hxx", C+"VectorView.hh"],
     [("element-wise operators", C+"Vector.hh"), ("signed / unsigned minimum and maximum", C+"Vector.hxx")],
     ["returned vectors", "viewed buffer"])

prop("S17", "Storage failures are reported, never silent",
     "When data cannot be written completely to disk (no space left, no permission to write), this does not pass unnoticed: one of the operations up to and including the next explicit flush of the array, the construction of the Green's function or the export of the signal reports an exception; as long as none does, everything that was written is on disk and reads back correctly. Destroying an object never ends the program because of such a failure. Conversely, data that are missing on disk are never made up: a truncated index, missing or truncated Green's function metadata and a missing Green's function are refused when the object is opened, and every read (element, region, iteration, field evaluation) that needs a missing or truncated chunk file raises an exception, each time it is attempted, while all other chunks remain readable and a chunk whose file is put back can be read again.",
     ["faults", "histories", "inputs"],
     "All histories of registering, appending, reading, flushing, importing, rebuilding, swapping axes and reopening with the failure of writing beginning at any point and at any number of bytes, and all stored arrays and Green's functions with any chunk file, index or metadata file cut off at any byte or any chunk or metadata file removed.",
     "No existing test lets an input or output operation fail; where in the file the failure occurs and which buffered write meets it depends on the history and on the sizes.",
     [C+"DistributedNDVecArray.hxx", C+"NDVecArrayStreamer.hxx", C+"GreensFunction.hxx", C+"SignalExport.hxx"],
     [("writing and reading of chunk files", C+"DistributedNDVecArray.hxx"), ("index file load and flush", C+"DistributedNDVecArray.hxx"), ("Green's function metadata", C+"GreensFunction.hxx"), ("signal export", C+"SignalExport.hxx")],
     ["exceptions", "values after reopening", "exported file", "program termination"],
     [("stream state", "whether all data were transferred", C+"DistributedNDVecArray.hxx")])

# ------------------------------------------------------------------ numerics
prop("P01", "Interpolation reproduces its kernel for every position",
     "Interpolating a sampled field at any in-range positions gives, up to rounding, the tensor-product kernel sum over the neighbouring samples: linear interpolation is exact for fields linear in each coordinate, cubic interpolation is exact for fields quadratic in each coordinate, and both return the sample itself at grid points. Results depend on the sample position only, not on how many positions are evaluated together, at which start offset, or with which spacing, and evaluation adds to the result array without disturbing other entries.",
     ["inputs"],
     "All arrays, interpolation positions inside the valid range (including grid points and the last valid cell), starts, spacings and batch lengths.",
     "testNDVecArrayInterpolation evaluates two functions on one grid.",
     [C+"Interpolation.hxx", C+"Interpolation.hh"],
     [("separable kernel evaluation with per-cell batching", C+"Interpolation.hxx")],
     ["interpolated 1-D array"])

prop("P02", "Green's function values do not depend on how it is stored",
     "Evaluating a stored Green's function along a time line, with any interpolation kernel, gives up to rounding the same samples regardless of the chunking, the order of chunks, the cache size, null-chunk optimisation, reopening or moving of the store, or the split of the time range into separate evaluations. The samples equal direct interpolation of the underlying regular grid with mirrored values at negative radius and zeros beyond the other edges.",
     ["inputs", "configurations"],
     "All grids, sampled fields, chunk shapes, stored overlaps, cache sizes, null patterns, evaluation positions (including on the axis and on chunk borders), start times, spacings and sample counts.",
     "testGreensFunction checks one analytic field with a single chunking and loose output-only comparisons.",
     [C+"GreensFunction.hxx", C+"GreensFunction.hh", C+"Interpolation.hxx", C+"Symmetry.hxx"],
     [("chunk walk along the time axis", C+"GreensFunction.hxx"), ("metadata file", C+"GreensFunction.hxx")],
     ["accumulate_inner_product result"])

prop("P03", "Bulk extraction of a Green's function equals pointwise evaluation",
     "Filling a regular block with samples of a stored Green's function gives at each block position the same field components as evaluating the function at that position, for every block start, extent, sampling density and chunking.",
     ["inputs", "configurations"],
     "All stored functions, block start and end positions inside the domain, numbers of samples per axis, kernels and chunkings.",
     "No test calls the bulk extraction.",
     [C+"GreensFunction.hxx"],
     [("chunk-wise block filling", C+"GreensFunction.hxx")],
     ["filled array"])

prop("P04", "Computed signals equal the retarded line integral of the source",
     "The signal of a straight current segment is, up to rounding and the stated quadrature step, the weighted line integral of current dotted with the Green's function at retarded time, where only times not before the emission contribute. It therefore vanishes exactly before the first emission and is independent of earlier results already in the output except by addition.",
     ["inputs"],
     "All segments inside the domain in all orientations and speeds, charges, durations (shorter and much longer than the quadrature block), observation windows and both interpolation kernels.",
     "testGreensFunction and testCoulomb/testAskaryan simulate one or two tracks and only print results.",
     [C+"GreensFunction.hxx", C+"Quadrature.hh", C+"SignalCalculator.hxx"],
     [("blocked quadrature with causal start", C+"GreensFunction.hxx"), ("trapezoidal weights", C+"Quadrature.hh")],
     ["accumulated signal buffer"])

prop("P05", "Signals are linear in the source and accumulate",
     "The signal scales linearly with charge and with the supplied weight, an opposite charge gives the opposite signal, the signals of several segments add up in any order, and calculating into a buffer adds to what the buffer already holds.",
     ["inputs", "histories"],
     "All segments, charges, weights, orders of accumulation and initial buffer contents.",
     "No test compares two related calculations.",
     [C+"GreensFunction.hxx", C+"SignalCalculator.hxx"],
     [("accumulation into the output buffer", C+"GreensFunction.hxx")],
     ["accumulated signal buffer"])

prop("P06", "Signal samples do not depend on the requested sampling window",
     "Each signal sample depends, up to rounding, only on its time: calculating any sub-window, any split of a window into consecutive pieces, or a coarser grid of times gives the same values at common times, including windows that start before the emission or contain a single sample.",
     ["inputs", "configurations"],
     "All segments, sampling windows, sampling intervals, splits of windows and sample counts from one upwards, including windows longer than the internal evaluation block.",
     "Tests compute one window; block edges fall inside windows only for particular lengths.",
     [C+"GreensFunction.hxx"],
     [("sample blocking and causal restart", C+"GreensFunction.hxx")],
     ["accumulated signal buffer"])

prop("P07", "Signals respect time translation and rotation about the antenna axis",
     "Shifting a segment and the observation times by the same amount leaves the signal unchanged, and rotating or mirroring a segment about the symmetry axis of the Green's function leaves the signal unchanged, up to rounding.",
     ["inputs"],
     "All segments, time shifts and rotation angles, including segments crossing or touching the axis.",
     "No test compares rotated or shifted tracks.",
     [C+"GreensFunction.hxx", C+"Vector.hxx"],
     [("conversion of position and current to cylindrical components", C+"Vector.hxx")],
     ["accumulated signal buffer"])

prop("P08", "Positions outside the stored domain are ignored or rejected as requested",
     "When the caller asks to ignore out-of-domain parts, a segment or evaluation that lies partly or entirely outside the stored domain contributes exactly what its inside part contributes and nothing else. When the caller asks for errors, an evaluation outside the domain raises an error instead of returning values, and evaluation inside the domain never does.",
     ["inputs", "configurations"],
     "All positions and tracks relative to the domain (inside, outside on each side, crossing), all times before and after the stored time range, both modes and kernels.",
     "No test leaves the domain.",
     [C+"GreensFunction.hxx", C+"GreensFunction.hh"],
     [("out-of-bounds handling modes", C+"GreensFunction.hh")],
     ["accumulated signal", "exception"])

prop("P09", "Analytic dipole Green's functions match their closed form everywhere",
     "The Green's function produced for an electric dipole in a homogeneous medium equals, at every stored grid point outside the excluded inner region, the closed-form filtered dipole field for the requested refractive index and filter, independent of the chunk size used while producing it. The stored grid covers the requested region and time range with the requested oversampling, and it can be opened for signal calculation.",
     ["inputs", "configurations"],
     "All regions, end times, refractive indices, filter peak times and orders, oversampling factors, exclusion radii and chunk sizes.",
     "testCoulomb uses a single configuration and compares one derived signal by eye.",
     [C+"AnalyticGreensFunctionCalculator.hxx", C+"MathUtils.hxx"],
     [("closed-form field evaluation on a chunked grid", C+"AnalyticGreensFunctionCalculator.hxx")],
     ["accumulate_inner_product on the produced store"])

prop("P10", "Special functions and quadrature weights are accurate on their domain",
     "The upper incomplete gamma function agrees with its mathematical value to the requested relative tolerance for every positive integer order and non-negative argument in its range, and refuses negative ones with an error. Trapezoidal weights integrate every linear function exactly, are positive, and the same weights result when the interval's nodes are generated in any consecutive blocks; integer helper functions agree with exact arithmetic.",
     ["inputs"],
     "All orders and arguments in range, tolerances, interval counts and block splits, and integer pairs.",
     "No test covers these functions.",
     [C+"MathUtils.hxx", C+"MathUtils.hh", C+"Quadrature.hh"],
     [("series / continued fraction evaluation", C+"MathUtils.hxx"), ("weight generator", C+"Quadrature.hh")],
     ["returned values"])

prop("P11", "Exported signals list every sample in order with the requested precision",
     "Exporting a signal writes one row with time and value per sample, in order, and reading the rows back gives the times and values to the requested number of digits. Exporting again to the same file replaces its contents.",
     ["inputs"],
     "All sample counts, magnitudes, signs and precisions.",
     "No test reads an exported file.",
     [C+"SignalExport.hxx"],
     [("row writer", C+"SignalExport.hxx")],
     ["CSV file"])

prop("P12", "Invalid segments and geometries are rejected, valid ones kept unchanged",
     "A current segment whose end time is not after its start time, and a cylindrical region with negative or inverted bounds, is refused with an error; every valid one is accepted and reports back exactly the values it was built with. Region containment and emptiness agree with the bounds, and conversions between simulation and user coordinates are inverse to each other.",
     ["inputs"],
     "All segment times and all combinations of region bounds, points and geometry extents.",
     "No test constructs invalid segments or regions.",
     [C+"Current.hxx", "eisvogel/core/Current.hh", C+"Geometry.hxx", "eisvogel/core/Geometry.hh"],
     [("constructor validation", C+"Current.hxx"), ("region checks", C+"Geometry.hxx")],
     ["exceptions", "accessors"])

prop("P13", "Particle showers are reproduced as contiguous, conserved current segments",
     "A shower built from a stored profile yields contiguous straight segments along the shower axis whose times increase at the speed of light, whose positions follow the requested direction from the requested start, and whose charge is the stored charge excess interpolated at the traversed grammage and scaled to the requested energy. The profile used is the requested one, or otherwise a random one, of those with matching particle type and closest energy, and every stored profile can be selected; a profile number that does not exist, a particle type without stored profiles, and a missing or truncated profile file are refused with an exception. The reported dimensions are the radial and vertical range that the shower covers.",
     ["inputs", "configurations"],
     "All profile files (any number of records and samples), energies, directions, particle types, requested profile numbers and step sizes.",
     "No test loads a profile file.",
     ["extern/shower_profile/shower_creator/shower_creator.cpp", "extern/shower_profile/shower_1D/shower_1D.cpp", "extern/shower_profile/charge_excess_profile/charge_excess_profile.cpp", "extern/shower_profile/environment/ice_profile.cpp"],
     [("profile selection", "extern/shower_profile/shower_creator/shower_creator.cpp"), ("grammage integration", "extern/shower_profile/shower_1D/shower_1D.cpp")],
     ["segments", "sampled shower"])

prop("P14", "Field-simulation output is stored faithfully, however it is computed",
     "The Green's function stored from a field simulation equals the simulated fields at the kept grid points and times (sub-sampled as requested, with values below the requested dynamic range suppressed to zero and all others within the requested accuracy), regardless of how the simulation volume is divided into chunks, which storage chunk shape is requested, or how many processes take part. Only the requested region is stored, and a non-empty output directory is refused rather than overwritten.",
     ["inputs", "configurations"],
     "All simulated fields, simulation chunk layouts, storage regions, sub-sampling factors, dynamic-range settings, requested chunk sizes and process counts.",
     "The field solver is not available to the tests, so none of this code runs in them.",
     ["eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx", "eisvogel/meep/MEEPCylindricalGreensFunctionCalculator.hh", C+"Antenna.hxx", C+"Geometry.hxx"],
     [("per-chunk storage, merge and transposition", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx")],
     ["stored Green's function", "output directory"])

prop("P16", "Antennas drive the simulation with the negative of their impulse response",
     "An antenna placed in a simulation becomes a single current source for the vertical field, at one and a half voxels from the axis and at the height of the antenna. Its current equals the negative of the impulse response at that time, times the chosen scale, while the antenna is active (beginning and end included), and zero at all other times, no matter whether the antenna, a copy of it or the placed source is asked.",
     ["inputs", "histories"],
     "All active periods, positions, responses, scales, times and resolutions.",
     "The field solver is not available to the tests, so no antenna is ever constructed.",
     [C+"Antenna.hxx", "eisvogel/core/Antenna.hh"],
     [("source current", C+"Antenna.hxx"), ("placement", C+"Antenna.hxx")],
     ["source current", "source position"])

prop("P15", "The CORSIKA interface computes the same signals as the core library",
     "The signal calculated through the CORSIKA 8 interface for a track step equals, up to rounding, the double-precision signal of the corresponding segment with the given charge and weight, with parts outside the stored domain ignored, and it is added to the supplied buffer. Steps of zero or negative duration are rejected.",
     ["inputs"],
     "All track steps inside, outside and crossing the domain, charges, weights, windows and prior buffer contents.",
     "The interface is not built by the tests.",
     ["extern/corsika/impl/C8SignalCalculator.hxx", "extern/corsika/include/Eisvogel/C8SignalCalculator.hh"],
     [("wrapper over the Green's function", "extern/corsika/impl/C8SignalCalculator.hxx")],
     ["signal buffer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
