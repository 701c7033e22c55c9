# One entry per claimed property: harness source, case budgets per tier and build, and the rule that makes a case non-trivial.
CHECKS = {}

CHECKS["S10"] = dict(
    src="S10.cc",
    quick=dict(opt=1000000, asan=200000), thorough=dict(opt=20000000, asan=4000000),
    rule="random histories of insert / update / look-up / evict / evict-oldest on caches of capacity 1..9; non-trivial: at least one LRU eviction and one hit",
)

CHECKS["S09"] = dict(
    src="S09.cc",
    quick=dict(opt=1000000, asan=150000), thorough=dict(opt=20000000, asan=3000000),
    rule="random histories of element-wise operations on three arrays of 1..4 dimensions against a flat reference model; non-trivial: at least 3 operations including a copy, append, transposition or view",
)

CHECKS["S12"] = dict(
    src="S12.cc", quick=dict(opt=1500000, asan=150000), thorough=dict(opt=30000000, asan=2000000),
    rule="random signed and unsigned regions (also empty, far from the origin), chunk sizes below, equal to and above the extent, and pairs of regions in all relative positions, against index-set enumeration; non-trivial: region of more than 3 indices, more than one chunk, or a region pair",
)
CHECKS["S15"] = dict(
    src="S15.cc", quick=dict(opt=2000000, asan=200000), thorough=dict(opt=40000000, asan=3000000),
    rule="random vectors of 1..4 components (float, double, int, size_t) and views into buffers against per-component arithmetic; non-trivial: operands differ / view smaller than its buffer",
)
CHECKS["S16"] = dict(
    src="S16.cc", quick=dict(opt=60000, asan=8000), thorough=dict(opt=1000000, asan=120000),
    rule="random stored arrays and Green's functions, up to four readers opened, used and closed in any order (also from read-only directories, beside a writer that goes on extending the array, and from several processes), with every write in the directory observed; non-trivial: at least two chunks and a read",
)
CHECKS["S17"] = dict(
    src="S17.cc", quick=dict(opt=120000, asan=1500), thorough=dict(opt=2500000, asan=40000),
    rule="random histories of writing during which space or permission runs out, and stored arrays, Green's functions and signals with missing or truncated files; non-trivial: a failure was injected and met (or nothing needed the failing resource although there was data to store)",
)
CHECKS["S11"] = dict(
    src="S11.cc", quick=dict(opt=1500000, asan=150000), thorough=dict(opt=8000000, asan=800000),
    rule="random arrays, start indices, per-axis factors and random rectangular partitions against an index scan; non-trivial: more than one piece and more than one element kept",
)
CHECKS["S07"] = dict(
    src="S07.cc", quick=dict(opt=400000, asan=60000), thorough=dict(opt=2000000, asan=300000),
    rule="random sequences of up to 12 values of 20 supported types written to one file and read back, with byte positions compared; non-trivial: at least two items",
)
CHECKS["S14"] = dict(
    src="S14.cc", quick=dict(opt=150000, asan=20000), thorough=dict(opt=2000000, asan=300000),
    rule="random arrays (also after resizing, appending, copying from views) exported and parsed by an independent .npy reader; non-trivial: more than two elements",
)
CHECKS["S08"] = dict(
    src="S08.cc", quick=dict(opt=500000, asan=60000), thorough=dict(opt=2000000, asan=300000),
    rule="random histories of bulk insertion (tiles in order / scattered, random, slabs, clusters), growth, reorganisation, clearing and point / region queries on boxes in 1..3 dimensions against a flat list; non-trivial: more than one tree node and at least one query",
)
CHECKS["S06"] = dict(
    src="S06.cc", quick=dict(opt=600000, asan=70000), thorough=dict(opt=8000000, asan=800000),
    rule="random arrays and array windows of 1..3 dimensions and 1..3 components, granularities (automatic, divisors, non-divisors, larger than the array), both modes, several arrays per file, and append histories over all axes, against element-wise concatenation; non-trivial: more than three elements",
)
CHECKS["S01"] = dict(
    src="S01.cc", quick=dict(opt=200000, asan=25000), thorough=dict(opt=4000000, asan=500000),
    rule="random histories of registering chunks (grid cells in any order, parts of cells, far away, with overlap), appending slices along any axis, flushing and reading in 1..3 dimensions, with random cache size, cache entry size and on-disk granularity, against a map from index to value; non-trivial: at least two chunks and one append",
)
CHECKS["S02"] = dict(
    src="S02.cc", quick=dict(opt=120000, asan=15000), thorough=dict(opt=3000000, asan=300000),
    rule="random histories of registering, appending, flushing, closing and reopening (with other cache sizes and granularities), second readers, moving, and importing other arrays by copy or move, against a map from index to value; non-trivial: at least two chunks and two reopenings",
)
CHECKS["S03"] = dict(
    src="S03.cc", quick=dict(opt=150000, asan=16000), thorough=dict(opt=2000000, asan=200000),
    rule="random tiled arrays (any start index, registered with and without overlap), random sequences of full and partial rebuilds (chunk shape, overlap, output position), joining of separately rebuilt pieces, reopening, moving and axis swaps, against a map from index to value plus the set of files on disk; non-trivial: more than three elements and at least one rebuild",
)
CHECKS["S04"] = dict(
    src="S04.cc", quick=dict(opt=200000, asan=20000), thorough=dict(opt=2000000, asan=200000),
    rule="random tiled arrays rebuilt (entirely or in part) with overlap 0..4 and three kinds of boundary rule plus the cylindrical one; every sample of every stored chunk file, rim included, is compared with array and rule; non-trivial: overlap of at least one",
)
CHECKS["S05"] = dict(
    src="S05.cc", quick=dict(opt=200000, asan=20000), thorough=dict(opt=2000000, asan=200000),
    rule="random histories on arrays with many zero chunks written and rebuilt with the storage optimisation (reads, block reads, iteration, rechunking, axis swap, import, move, reopen), against a map from index to value; non-trivial: some but not all chunks dropped",
)
CHECKS["S13"] = dict(
    src="S13.cc", quick=dict(opt=160000, asan=16000), thorough=dict(opt=3000000, asan=300000),
    rule="random histories mixing axis swaps with registering, appending, rebuilding, importing, reopening and reading in 2 and 3 dimensions, against a map from index to value; non-trivial: at least one swap and two chunks",
)
CHECKS["P01"] = dict(
    src="P01.cc", quick=dict(opt=3000000, asan=400000), thorough=dict(opt=60000000, asan=6000000),
    rule="random fields and batches of positions (grid points, dyadic and arbitrary fractions, last valid cell) for both kernels and 1..3 components against a double-precision kernel sum, polynomial reproduction, and re-batched evaluation; non-trivial: several positions off the grid",
)
CHECKS["P02"] = dict(
    src="P02.cc", asan_flags=["-O2"], quick=dict(opt=50000, asan=3500), thorough=dict(opt=2000000, asan=200000),
    rule="random grids, fields, storage histories (chunk shapes, order, axis swap, repeated rebuilds, overlap, null optimisation), moves, cache sizes and time lines (splits, prior contents) against a double-precision kernel sum on the regular grid; non-trivial: more than four samples of a non-zero field",
)
CHECKS["P04"] = dict(
    src="P04.cc", asan_flags=["-O2"], quick=dict(opt=28000, asan=3000), thorough=dict(opt=2000000, asan=150000),
    rule="random stored Green's functions and segments (all orientations, at rest, through the axis, one to several hundred quadrature steps), windows (before, at and after the emission, one to several hundred samples), prior contents, both kernels and result types, against a double-precision retarded line integral with error bounds; non-trivial: more than three contributing terms",
)
CHECKS["P05"] = dict(
    src="P05.cc", asan_flags=["-O2"], quick=dict(opt=22000, asan=1500), thorough=dict(opt=1000000, asan=100000),
    rule="random segments on random stored Green's functions: scaled charge and weight, sums of up to five segments in shuffled order into prefilled buffers (also through the signal calculator), and segments cut at a quadrature node, compared with the separately computed signals; non-trivial: more than three contributing terms of a non-zero field",
)
CHECKS["P06"] = dict(
    src="P06.cc", asan_flags=["-O2"], quick=dict(opt=30000, asan=2000), thorough=dict(opt=1000000, asan=100000),
    rule="random segments and windows, recomputed as sub-windows, splits, single samples, coarser grids and windows begun earlier, compared at the common times; non-trivial: more than two common samples with a non-zero signal",
)
CHECKS["P07"] = dict(
    src="P07.cc", asan_flags=["-O2"], quick=dict(opt=30000, asan=2000), thorough=dict(opt=1000000, asan=100000),
    rule="random segments recomputed after time shifts, rotations, reflections and exchange of x and y, compared sample by sample; non-trivial: at least one comparison with more than three contributing terms",
)
CHECKS["P08"] = dict(
    src="P08.cc", asan_flags=["-O2"], quick=dict(opt=40000, asan=3000), thorough=dict(opt=1500000, asan=150000),
    rule="random tracks and time lines inside, outside and across every side of the stored domain (also far away and before the stored time range) in both modes, against the double-precision reference restricted to the inside part; non-trivial: something outside, and something inside or an error raised",
)
CHECKS["P15"] = dict(
    src="P15.cc", inc=["extern/corsika/include", "extern/corsika/impl", "extern/corsika/src"], asan_flags=["-O2"], quick=dict(opt=20000, asan=2000), thorough=dict(opt=1000000, asan=100000),
    rule="random track steps (inside, outside, crossing the domain) with charges, weights, windows and prior buffer contents through the CORSIKA 8 class against the double-precision line integral and the core library; non-trivial: more than three contributing terms, or a refused step",
)
CHECKS["P03"] = dict(
    src="P03.cc", asan_flags=["-O2"], quick=dict(opt=60000, asan=5000), thorough=dict(opt=2000000, asan=200000),
    rule="random blocks (starts, extents including zero, one to thirty samples per axis, aligned and not aligned with grid and chunks) of random stored Green's functions against a double-precision kernel sum and pointwise evaluation; non-trivial: more than one sample of a non-zero field",
)
CHECKS["P10"] = dict(
    src="P10.cc", quick=dict(opt=8000000, asan=1500000), thorough=dict(opt=60000000, asan=5000000),
    rule="orders 1..34 with arguments 0..1e6 (dense where the two expansions meet) and tolerances 1e-6..1e-2 against the closed-form sum in double precision; node counts 1..60 in random consecutive blocks; non-trivial: positive argument with a value that does not vanish, two or more nodes",
)
CHECKS["P11"] = dict(
    src="P11.cc", quick=dict(opt=200000, asan=20000), thorough=dict(opt=4000000, asan=400000),
    rule="random signals of 0..3000 samples over the range of single precision, 0..10 and 0..18 requested digits, one to three exports to the same (possibly existing) file, read back by an independent parser; non-trivial: an export of more than one sample",
)
CHECKS["P09"] = dict(
    src="P09.cc", asan_flags=["-O2"], quick=dict(opt=40000, asan=2500), thorough=dict(opt=200000, asan=20000),
    rule="random regions, refractive indices, filters, inner radii, oversampling factors and chunk sizes; every stored grid point against the closed form in double precision; non-trivial: at least four non-vanishing samples",
)
CHECKS["P14"] = dict(
    src="P14.cc", inc=["@verif/harness/stub", "eisvogel/meep", "eisvogel/meep/impl", "extern/corsika/include", "extern/corsika/impl", "extern/corsika/src"], asan_flags=["-O2"], libs=["-lpthread"], quick=dict(opt=40000, asan=3000), thorough=dict(opt=800000, asan=80000),
    rule="random simulated fields, volumes, divisions of the volume among one to four processes, storage regions, sub-sampling, dynamic ranges, chunk sizes, overlaps and leftovers of earlier runs, with the field solver replaced by prescribed fields; every sample of every stored chunk file is compared with the fields; non-trivial: more than three samples kept, or a refused configuration",
)
CHECKS["P12"] = dict(
    src="P12.cc", inc=["@verif/harness/stub"], quick=dict(opt=4000000, asan=400000), thorough=dict(opt=60000000, asan=6000000),
    rule="random segments, regions (built and changed repeatedly), geometries and points, with repeated, neighbouring and extreme coordinates, against the stated conditions; every case constructs at least one object",
)
CHECKS["P16"] = dict(
    src="P16.cc", inc=["@verif/harness/stub"], quick=dict(opt=20000000, asan=2000000), thorough=dict(opt=200000000, asan=20000000),
    rule="random histories of changing the scale, cloning, placing the antenna in simulations (solver replaced by a recorder) and looking at its current before, during, after and exactly at the ends of its active time; non-trivial: at least one current looked at or source placed",
)
CHECKS["P13"] = dict(
    src="P13.cc", inc=["extern/shower_profile/shower_1D", "extern/shower_profile/environment", "extern/shower_profile/charge_excess_profile", "extern/shower_profile/shower_creator", "extern/utilities"], quick=dict(opt=300000, asan=30000), thorough=dict(opt=4000000, asan=400000),
    rule="random profile files (both particle types, several energies, one to eight samples), requested energies, directions, positions, profile numbers and step sizes against the interpolated profile along the axis in double precision; unreadable files and requests that cannot be served; non-trivial: a shower of at least two segments, or a refusal",
)
