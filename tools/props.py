"""The properties, their anchors and how each of them is decided.  tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

I = "eisvogel/core/impl/"

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))

PROPS = [
P("C01", "A chunked array returns exactly what was stored, whatever the history",
  "For any sequence of registering chunks, appending slices (along the slowest axis, or any other that the serialisation chunks allow), reading elements, copying regions, looping over elements and flushing, "
  "every read of a stored position returns bit-exactly the value most recently stored there and the reported shape is that of the stored content. "
  "This does not depend on the cache depth (including no cache at all), on the order in which chunks are registered or read, or on whether chunks are handed over as arrays or as views of larger arrays. "
  "Copying a region writes the stored values to the requested place in the output and leaves every other output element untouched.",
  ["histories", "inputs", "configurations"], "all operation histories over one array, all chunk partitions (also with gaps and with overlap), all cache depths, all finite values",
  "testDistributedNDVecArray runs one fixed registration order with one cache depth per case; eviction orders, appends to evicted chunks and region copies across many chunks are histories it never forms.",
  [I+"DistributedNDVecArray.hxx", I+"Cache.hxx", I+"NDVecArrayStreamer.hxx"],
  [("chunk cache with per-slot status and write-back on eviction", I+"DistributedNDVecArray.hxx ChunkCache"), ("chunk index lookup", I+"DistributedNDVecArray.hxx ChunkIndex::GetChunk"), ("region copy", I+"DistributedNDVecArray.hxx ChunkLibrary::FillArray")],
  [("cache slot status", "whether a cached chunk still has to be written, or appended, to its file", I+"DistributedNDVecArray.hh CacheStatus"), ("chunk metadata", "range, overlap, type, id and file of a chunk", I+"DistributedNDVecArray.hh ChunkMetadata")],
  ["RegisterChunk", "AppendSlice", "operator[]", "FillArray", "GetShape", "index_loop_over_elements", "Flush"]),
P("C02", "Stored contents survive flushing, closing and reopening",
  "Everything stored in a chunked array before a flush or an orderly close is read back unchanged by any array later opened on the same directory, with any cache depth. "
  "A copy of the directory taken right after a flush, while the array is still open, holds the complete content. "
  "A reopened array can be extended with further chunks and slices, and reopened again, without changing or losing anything stored before.",
  ["histories", "configurations"], "all interleavings of storing, flushing, closing, reopening and extending, all cache depths before and after",
  "The tests reopen an array at most once and never extend a reopened one.",
  [I+"DistributedNDVecArray.hxx"],
  [("index and chunks are written on flush and on destruction", I+"DistributedNDVecArray.hxx ChunkLibrary::FlushLibrary, ChunkIndex::FlushIndex"), ("index is loaded on construction", I+"DistributedNDVecArray.hxx ChunkIndex::load_and_rebuild_index")],
  [("index.bin", "serialised chunk metadata", I+"DistributedNDVecArray.hxx ChunkIndex"), ("next chunk id", "must stay unique across reopening", I+"DistributedNDVecArray.hxx ChunkIndex::m_next_chunk_id")],
  ["Flush", "destructor", "constructor on an existing directory"]),
P("C03", "Rechunking keeps every element and fills overlaps from the true neighbours",
  "Rebuilding a contiguous array (or a sub-range of it, into a new location) with any chunk shape and overlap leaves every element with its value, and every rebuilt chunk obeys the requested chunk shape and overlap. "
  "The overlap of each stored chunk holds the neighbouring elements of the array where these exist and the value given by the boundary rule elsewhere: for the cylindrical rule, the element mirrored at the axis for negative radial index, and zero outside otherwise. "
  "Rebuilding a sub-range into a new place does not change the source, no temporary directory or chunk file that does not belong to the array is left behind, and other files in the directory given for temporary use are left alone.",
  ["inputs", "configurations"], "all array extents, initial and requested chunk shapes, overlaps, sub-ranges, boundary rules, sparsity hints and cache depths",
  "testDistributedNDVecArray rebuilds two cubic chunkings and never looks at the overlap regions as stored.",
  [I+"DistributedNDVecArray.hxx", I+"Symmetry.hxx"],
  [("chunk rebuild loop", I+"DistributedNDVecArray.hxx RebuildChunks, RebuildChunksPartial"), ("cylindrical boundary rule", I+"Symmetry.hxx boundary_evaluator")],
  [], ["RebuildChunks", "RebuildChunksPartial", "stored chunk contents"]),
P("C04", "Swapping axes transposes the contents and nothing else",
  "After swapping two axes of a chunked array, the element at any index equals the element that was stored before the swap at the index with these two components exchanged, and the shape is exchanged likewise. "
  "Swaps compose and can be mixed with further storing, reading, flushing, rechunking and reopening in any order; swapping twice restores the array.",
  ["histories", "inputs"], "all sequences of swaps mixed with the other operations, all chunk partitions and cache depths",
  "The test swaps one axis pair of one array once, with all chunks flushed.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArray.hxx"],
  [("per-chunk axis swap with metadata", I+"DistributedNDVecArray.hxx SwapAxes"), ("array axis swap", I+"NDVecArray.hxx SwapAxes")],
  [], ["SwapAxes", "operator[]", "GetShape"]),
P("C05", "Moving, importing and merging arrays loses nothing",
  "After moving an array to another directory, importing the chunks of another array (by copy or by move) or merging several arrays, every element of all participating arrays is readable at its index with its value, from the open array and after reopening. "
  "Importing by copy leaves the source array intact; a moved array no longer exists at its old location and is complete at the new one as soon as the move has returned. "
  "This holds also across file systems and for chunks that were null, unflushed or appended to.",
  ["histories", "configurations"], "all sequences of moves, imports and merges mixed with storing, reading and reopening; same and different file systems",
  "The tests import one small library once on one file system.",
  [I+"DistributedNDVecArray.hxx"],
  [("import of chunk files under fresh ids", I+"DistributedNDVecArray.hxx ChunkIndex::ImportIndex, ChunkLibrary::ImportLibrary"), ("move of the library directory", I+"DistributedNDVecArray.hxx ChunkLibrary::MoveLibrary")],
  [], ["Move", "Import", "constructor"]),
P("C06", "The array file format round-trips every array",
  "Serialising an array of normal finite numbers, dense or null-suppressed, with any well-formed serialisation chunk shape and reading it back gives the same shape and the same values bit by bit (a negative zero may come back as zero), whether the array owns its data or is a view, and whether the target array was empty or used before. "
  "Appending slices on disk, along the slowest axis or any other along which this is accepted, gives the same result as storing the concatenated array, and the codec never produces more data than the dense form plus a bounded overhead. "
  "Once marked final, or once a partial chunk was written, further appending is refused with an error and leaves the file readable and unchanged.",
  ["inputs", "histories"], "all shapes, value patterns (including alternating, leading and trailing nulls), serialisation chunk shapes, storage modes and append sequences",
  "testCompression checks random values with one chunk shape per case and never mixes modes or appends after partial chunks.",
  [I+"NDVecArrayStreamer.hxx", I+"NDVecArraySerialization.hh", I+"DefaultSerializationTraits.hxx"],
  [("null suppression", I+"NDVecArraySerialization.hh nullsup"), ("streamer with per-file access mode", I+"NDVecArrayStreamer.hxx")],
  [("access mode", "whether a file may still be appended to", I+"NDVecArrayStreamer.hh AccessMode")], ["serialize", "deserialize", "append_slice", "mark_as_final"]),
P("C07", "Sparsity hints never change what is read or calculated",
  "Registering or rebuilding with the optimisation hint that stores all-null chunks as a mere marker gives the same element values, shapes, region copies and Green's function results as without the hint, before and after rechunking, axis swaps and reopening. "
  "Results of signal calculations over regions in which some chunks are entirely null are those obtained from explicitly stored zeros, at the right output samples.",
  ["inputs", "histories", "configurations"], "all placements of null chunks relative to requests, all histories of rechunking and swapping",
  "No test evaluates a Green's function across null chunks or compares hinted with unhinted storage.",
  [I+"DistributedNDVecArray.hxx", I+"GreensFunction.hxx"],
  [("chunk type marker", I+"DistributedNDVecArray.hh ChunkType"), ("null chunks are synthesised on retrieval and skipped in evaluation", I+"DistributedNDVecArray.hxx ChunkCache::RetrieveChunk; GreensFunction.hxx accumulate_inner_product")],
  [], ["RegisterChunk with hints", "RebuildChunks with hints", "accumulate_inner_product"]),
P("C08", "The spatial index agrees with a brute-force search",
  "For any set of boxes inserted in any order (or bulk-rebuilt), a point query finds an inserted box containing the point exactly when one exists, a range query returns exactly the inserted boxes overlapping the range, each once, and an empty index answers that nothing is found. "
  "Clearing and rebuilding keep exactly the current entries, the tree reports its bounding box correctly, and node occupancy and bounding-box nesting are never violated.",
  ["inputs", "histories"], "all insertion orders, box geometries (disjoint, touching, skewed, clustered), dimensions, node capacities and query shapes",
  "testRStarTree inserts one regular arrangement with one node capacity.",
  [I+"RStarTree.hxx", I+"RStarTree.hh"],
  [("R*-tree insertion with forced reinsertion and split", I+"RStarTree.hxx"), ("sort-tile bulk rebuild", I+"RStarTree.hxx RebuildSTR")],
  [("tree nodes", "bounding boxes enclosing their children", I+"RStarTree.hh")], ["InsertElement", "Search", "RebuildSTR", "GetBoundingBox"]),
P("C09", "The cache keeps the most recently used entries and never mixes them up",
  "For any sequence of insertions, lookups and evictions within its capacity of at least one entry, the cache contains exactly the entries inserted and not yet evicted, returns for each the payload stored for it, evicts from a full cache the least recently inserted-or-accessed entry, and iterates in recency order.",
  ["histories"], "all operation sequences, all capacities, all key patterns",
  "No test addresses the cache on its own; it is only reached through two array tests.",
  [I+"Cache.hxx", I+"Cache.hh"], [("doubly linked recency list with an index map", I+"Cache.hxx")], [], ["insert_no_overwrite", "get", "evict", "evict_oldest_from_full_cache", "loop_over_elements_*"]),
P("C10", "Array operations equal their element-wise definition",
  "Element access, views, sub-range fills, copies, concatenation and appending, axis swaps, reshaping, clearing, null tests, loops, and slicing of in-memory arrays give for every shape, sub-range and view nesting the same elements as the element-by-element definition on the logical index space. "
  "Writing through a view changes exactly the viewed elements of the parent and copies are independent of their source.",
  ["inputs", "histories"], "all shapes, strides (views of views), sub-ranges, offsets and operation sequences",
  "testNDVecArray checks a handful of fixed arrays, none of them nested views with operations across memory layouts.",
  [I+"NDVecArray.hxx", I+"NDVecArray.hh", I+"IteratorUtils.hh"], [("strided views over shared storage", I+"NDVecArray.hxx")], [], ["NDVecArray public operations"]),
P("C11", "Interpolation reproduces samples and polynomials of its order",
  "Interpolating at grid positions returns the stored samples; between them, the linear kernel is exact for multilinear data and the cubic convolution kernel exact for data that is quadratic along each axis, each with weights that sum to one. "
  "Interpolating a column of samples in one request gives the same as interpolating them one by one, and depends only on samples within the kernel support.",
  ["inputs"], "all positions, spacings, sample counts, array shapes and data",
  "testNDVecArrayInterpolation evaluates one function at one spacing with a loose tolerance.",
  [I+"Interpolation.hxx"], [("separable kernels", I+"Interpolation.hxx Kernel::Linear, Kernel::Keys")], [], ["interpolate", "kern"]),
P("C12", "Green's function evaluation does not depend on chunking or caching",
  "Evaluating a Green's function (inner products, signals and grid exports) gives, up to floating-point rounding, the separable interpolation of the sampled data with mirror symmetry on the axis and zeros outside, for every chunk shape, cache depth, sample spacing and request range. "
  "In particular requests that start, end or step exactly on chunk borders, cross many chunks, or use spacings larger than a chunk give the same samples as a single-chunk Green's function.",
  ["inputs", "configurations"], "all data, chunkings, cache depths, kernels, positions, start times, spacings and sample counts inside the domain",
  "testGreensFunction uses one smooth function, one chunking and a loose tolerance.",
  [I+"GreensFunction.hxx", I+"Interpolation.hxx", I+"DistributedNDVecArray.hxx"], [("chunk-by-chunk accumulation", I+"GreensFunction.hxx accumulate_inner_product"), ("grid export", I+"GreensFunction.hxx fill_array")], [], ["accumulate_inner_product", "apply_accumulate", "fill_array"]),
P("C13", "Signals superpose linearly and accumulate",
  "The signal of a current segment is proportional to its charge and to the weight, adds to what the output already holds, and the signals of several segments calculated one after another equal the sum of those calculated separately, in any order. "
  "Splitting a straight segment at a multiple of the integration step does not change the total signal beyond rounding, and the number of requested samples does not affect the individual samples.",
  ["inputs", "histories"], "all segments, weights, charges, initial outputs, orders and sample counts in the domain",
  "The physics tests compare two complete tracks with reference curves at 1 % level.",
  [I+"GreensFunction.hxx", I+"SignalCalculator.hxx"], [("accumulation into the output vector", I+"GreensFunction.hxx apply_accumulate")], [], ["apply_accumulate", "AccumulateSignal"]),
P("C14", "Signals are causal and time-translation invariant",
  "No output sample at or before the time at which the current starts to flow receives any contribution beyond the boundary sample itself, and each sample depends only on the part of the track traversed before it. "
  "Shifting the segment in time together with the output window leaves the samples unchanged up to rounding; shifting only the window by whole samples shifts the samples.",
  ["inputs"], "all segments, windows (starting before, during and after the segment), shifts and spacings",
  "The tests use one output window per track and do not look at samples before arrival.",
  [I+"GreensFunction.hxx"], [("causality cut and sample index arithmetic", I+"GreensFunction.hxx apply_accumulate")], [], ["apply_accumulate"]),
P("C15", "Signals respect the cylindrical symmetry",
  "Rotating a segment about the symmetry axis by any angle, or reflecting it in a plane containing the axis, leaves the signal unchanged up to rounding. "
  "Purely azimuthal motion at fixed radius and height contributes nothing, and on the axis only the vertical component contributes.",
  ["inputs"], "all segments, rotation angles, and mirror planes, including segments crossing or touching the axis",
  "All test tracks lie at one azimuth parallel to the axis.",
  [I+"GreensFunction.hxx"], [("cartesian-to-cylindrical conversion of position and current", I+"GreensFunction.hxx coord_cart_to_cyl, field_cart_to_cyl")], [], ["apply_accumulate"]),
P("C16", "Out-of-domain requests follow the selected policy",
  "A position or time for which the Green's function holds no data raises a catchable error under the raising policy and contributes nothing under the ignoring policy, for coordinates below as well as above the stored range; it never reads other data and never disturbs samples that are inside the domain. The domain reported for a Green's function read back from disk is the one it was stored with. "
  "After such an error the Green's function and the calculator remain usable and give correct results.",
  ["inputs", "histories"], "all positions and times outside the stored range in any direction, both policies, mixtures with valid requests",
  "No test leaves the domain.",
  [I+"GreensFunction.hxx", I+"RStarTree.hxx"], [("chunk lookup failure handling", I+"GreensFunction.hxx accumulate_inner_product")], [], ["accumulate_inner_product", "apply_accumulate"]),
P("C17", "A segment's signal is the trapezoidal line integral along it",
  "The signal of a segment equals minus the trapezoidal quadrature, over equal time steps of at most one time unit including both end points, of the scalar product of current and interpolated Green's function at the retarded convolution time, for any segment duration (less than one step up to many hundred steps), window length and sample spacing. "
  "The result does not depend on how the calculation is blocked internally.",
  ["inputs"], "all segments, durations, window lengths, sample spacings; durations and windows around the internal block size and multiples of it",
  "The tests exercise long tracks with a percent-level comparison, in which single missing or doubled quadrature points are invisible.",
  [I+"GreensFunction.hxx", I+"Quadrature.hh"], [("blocked quadrature loop", I+"GreensFunction.hxx apply_accumulate"), ("quadrature weights", I+"Quadrature.hh")], [], ["apply_accumulate"]),
P("C18", "Grid exports equal pointwise evaluation",
  "Exporting a Green's function on a regular grid between two corners gives, at each grid point including both corners, the value obtained by evaluating it at that point alone, for every number of samples per axis (including one) and every chunking, and leaves no grid point of the output unset.",
  ["inputs", "configurations"], "all corner positions in the domain (also exactly on chunk borders and domain borders), sample counts, chunkings",
  "One test exports one interior region.",
  [I+"GreensFunction.hxx"], [("per-chunk output ranges", I+"GreensFunction.hxx fill_array")], [], ["fill_array"]),
P("C19", "Downsampling commutes with splitting into blocks",
  "Downsampling a block of a larger array keeps exactly the elements whose global index is a multiple of the downsampling factor along every axis, with their values, at the corresponding downsampled index. "
  "Hence downsampling the blocks of any partition and assembling them gives the downsampled array, without gaps or duplicates, also for blocks that contain no kept element.",
  ["inputs"], "all block partitions, offsets, factors and shapes",
  "testDownsampling uses one array with one partition.",
  [I+"NDVecArrayOperations.hxx"], [("first/last kept index arithmetic", I+"NDVecArrayOperations.hxx")], [], ["downsample", "get_downsampled_shape"]),
P("C20", "The analytic dipole Green's function matches its closed form",
  "The Green's function generated for an electric dipole in a homogeneous medium holds, at each of its sample points outside the excluded inner radius, the closed-form filtered dipole field for the given refractive index, filter order and peak time, within single-precision accuracy. "
  "Its sampling covers exactly the requested domain with an integer number of steps and is at least as fine as the requested oversampling demands up to that rounding; the result does not depend on the chunk size used to generate it: the chunks carry the overlap that interpolation needs, filled with the neighbouring samples (mirrored at the axis, zero beyond the domain). A Green's function that exists at the given path is replaced.",
  ["inputs", "configurations"], "all domains, refractive indices, filter orders and peak times, oversampling factors, chunk sizes",
  "The physics tests check end results for one medium and filter at percent level.",
  [I+"AnalyticGreensFunctionCalculator.hxx", I+"MathUtils.hxx"], [("closed form evaluation on a grid", I+"AnalyticGreensFunctionCalculator.hxx")], [], ["ElectricDipole", "evaluation of the result"]),
P("C21", "No memory error or undefined behaviour on valid use",
  "No sequence of valid operations on arrays, chunked arrays, the spatial index, caches, serialisation and Green's functions reads or writes outside its storage, uses freed memory, leaks an unbounded amount, or executes undefined behaviour, and no internal consistency assertion fails.",
  ["inputs", "histories", "configurations"], "all workloads of the other properties",
  "The tests run uninstrumented, so silent overreads, aliasing errors and uninitialised reads pass.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArray.hxx", I+"Interpolation.hxx", I+"GreensFunction.hxx", I+"RStarTree.hxx", I+"NDVecArraySerialization.hh"],
  [("bounds by construction of indices; assertions", "throughout")], [], ["sanitizer reports, assertion failures"]),
P("C22", "Results are deterministic and do not depend on uninitialised memory",
  "Repeating the same operations on the same inputs gives bit-identical results and stored chunk data whatever the previous content of heap memory, the directory used and the cache depth; no value read by the user or written to disk as array data derives from uninitialised memory.",
  ["inputs", "histories", "configurations"], "all workloads of the other properties, run under different heap contents, directories and processes",
  "A test sees one heap content, usually fresh zero pages.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArray.hxx", I+"MemoryUtils.hh", I+"GreensFunction.hxx"], [("storage without default initialisation must be filled before use", I+"MemoryUtils.hh no_init_alloc")], [], ["observable outputs and stored chunk data"]),
P("C23", "Exported signals and arrays are faithful",
  "An exported signal file holds one line per sample, in order, with time and value parsing back to the exported numbers within the requested precision. "
  "Arrays exported for other programs have the documented header and hold the same shape and values in the declared order.",
  ["inputs"], "all lengths, values (large, small, negative, zero), precisions; all array shapes",
  "The tests never read back an exported file.",
  [I+"SignalExport.hxx", I+"NDVecArraySerialization.hh", I+"NDVecArrayStreamer.hxx"], [("text export", I+"SignalExport.hxx")], [], ["ExportSignal", "array export"]),
P("C24", "A crash never corrupts or loses what was flushed before",
  "If the process dies, or an input/output operation fails, at any point during later operations (storing further chunks, flushing, closing, opening and reading), reopening the directory gives all chunks that had been flushed before and were not themselves being extended, with their values; anything else that had been stored is returned with its values or reported by an error as missing or incomplete; wrong values are never returned. "
  "Opening an array for reading and closing it again never endangers its content.",
  ["crash_points", "fault_sequences", "histories"], "every system call that changes the file system as crash point, for all histories of storing, flushing, closing and reading",
  "No test interrupts the program.",
  [I+"DistributedNDVecArray.hxx"], [("index file is written on flush and destruction", I+"DistributedNDVecArray.hxx ChunkIndex::FlushIndex")], [("index.bin", "the only record of which chunk files exist", I+"DistributedNDVecArray.hxx")], ["directory content after the crash"]),
P("C25", "Shower models produce the documented charge and track distributions",
  "The tracks generated for a shower start and end on the shower axis at the specified positions, advance at the speed of light, and carry at each step the charge excess obtained by interpolating the loaded profile at the depth traversed in the ice, scaled with the shower energy; every track is contiguous with its neighbours in position and time. "
  "Reading a profile gives exactly the profiles in the file, selecting one by index gives that one, and a file that is missing or incomplete is refused with an error.",
  ["inputs"], "all profile files, energies, directions, start positions, step sizes and delays",
  "There is no test of the shower model.",
  ["extern/shower_profile/shower_1D/shower_1D.cpp", "extern/shower_profile/shower_creator/shower_creator.cpp", "extern/shower_profile/environment/ice_profile.cpp"],
  [("track construction", "extern/shower_profile/shower_1D/shower_1D.cpp fill_track")], [], ["get_shower", "create_shower", "read of profile files"]),
P("C26", "The field simulation driver stores each simulated sample at its place",
  "Whatever the decomposition of the simulation volume into processes and blocks, downsampling factors, chunk sizes and stored sub-range, each sample of the Green's function written by the field simulation driver equals the field that the simulation produced "
  "in the cell whose lower corner lies at the advertised position of the sample, at the first simulation step that is not before its advertised time. "
  "Samples are zero exactly where the field was suppressed: where its magnitude stayed below the absolute minimum everywhere in the block so far, or is below the largest magnitude seen so far in its neighbourhood divided by the configured dynamic range; samples above these thresholds are never zeroed or changed. "
  "The advertised grid spacing and time step are the downsampling factor times the cell size and the distance of the stored time slices, no time slice up to the end of the simulation is missing, the stored region covers the requested one to within one cell, "
  "and the overlap of the stored chunks holds the simulated values beyond their region where these exist. "
  "What an interrupted earlier run left behind in the working directories does not enter the result, and a run leaves no files of its own there.",
  ["inputs", "configurations", "schedules", "histories"], "all volumes, decompositions, downsamplings, chunk shapes, dynamic ranges and field histories",
  "The driver is not built, hence not tested, without the simulation package.",
  ["eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx", I+"NDVecArrayOperations.hxx", I+"DistributedNDVecArray.hxx"],
  [("per-step storage of field slices, merging of per-process arrays, rechunking", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx")],
  [], ["Calculate with a stand-in for the simulation package"]),
P("C27", "The air-shower interface gives the same signals as the core",
  "Calculating a signal through the interface for the air-shower simulation adds to the given samples the same signal as the core evaluation of the Green's function with linear interpolation does, times the given weight, for every track, charge and output window, including several tracks accumulated in double precision one after another; the parts of tracks that lie outside of the domain contribute nothing and raise no error.",
  ["inputs"], "all tracks, charges, weights, windows, Green's functions and cache depths",
  "The interface has no test.",
  ["extern/corsika/impl/C8SignalCalculator.hxx", "extern/corsika/src/C8.cxx"], [("forwarding of tracks, windows and weights", "extern/corsika/impl/C8SignalCalculator.hxx")], [], ["C8SignalCalculator"]),
P("C28", "Invalid requests are refused without damage",
  "Requests that violate a documented precondition - segments without duration, unphysical geometries, appending to finalised data or where no chunk ends, incompatible slice or array shapes, malformed serialisation chunks, unknown storage modes, moving or importing a library onto or into itself or from where there is none, opening a Green's function without its metadata - raise a catchable error, and everything stored before stays readable and correct; subsequent valid requests succeed.",
  ["inputs", "histories"], "all kinds of invalid requests at any point of a history",
  "The tests contain hardly any negative case.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArrayStreamer.hxx", I+"Current.hxx", I+"Geometry.hxx"], [("precondition checks that throw", "throughout")], [], ["the thrown errors and later reads"]),
P("C29", "Antenna and geometry map coordinates and currents faithfully",
  "Converting coordinates between the simulation's and Eisvogel's frame and back is the identity, the permittivity seen by the simulation is the user's function at the converted position, and regions are contained in a geometry exactly when all their points are. "
  "The antenna injects minus the scaled impulse response inside its time range and nothing outside, placed at its height.",
  ["inputs"], "all geometries, regions, positions, times, impulse responses",
  "Not built, hence not tested, without the simulation package.",
  [I+"Geometry.hxx", I+"Antenna.hxx"], [("frame shift by the lower z edge", I+"Geometry.hxx"), ("windowed current", I+"Antenna.hxx")], [], ["Geometry and Antenna methods with a stand-in for the simulation package"]),
P("C30", "Numeric building blocks match their mathematical definition",
  "The incomplete gamma function agrees with its definition within single-precision accuracy for all orders and arguments in use, is monotonic in its argument, and rejects negative arguments with a catchable error. "
  "Quadrature weights of any split of the sample range into blocks concatenate to the weights of the whole range and integrate linear functions exactly, and element-wise vector operations act component by component.",
  ["inputs"], "all orders, arguments, tolerances; all splits of the quadrature range; all vectors",
  "The numeric helpers have no direct test.",
  [I+"MathUtils.hxx", I+"Quadrature.hh", I+"Vector.hh", I+"Vector.hxx"], [("series and continued-fraction expansions", I+"MathUtils.hxx"), ("trapezoidal weights", I+"Quadrature.hh")], [], ["incomplete_gamma", "fill_weights", "Vector operators"]),
P("C31", "Generated Green's function and signal calculation together give the physical signal",
  "The signal that a moving charge induces according to a Green's function generated for the electric dipole converges, with increasing oversampling, to the exact line integral of the closed-form field along the track: for any track that stays away from the singularity and below the speed of light in the medium, any charge, refractive index, filter, orientation and output window, with the sign, time and length conventions of the generator and of the calculation agreeing.",
  ["inputs"], "all tracks inside the sampled domain, media, filters, windows, chunk sizes and cache depths, at sufficient oversampling",
  "The tests compare signals with the analytic one only for a few tracks and with generous margins.",
  [I+"SignalCalculator.hxx", I+"GreensFunction.hxx", I+"AnalyticGreensFunctionCalculator.hxx", I+"Interpolation.hxx", I+"Quadrature.hh"],
  [("conventions shared between generator and calculation", I+"GreensFunction.hxx")], [], ["SignalCalculator::AccumulateSignal on ElectricDipole"]),
P("C32", "Memory, open files and disk space stay within bounds",
  "Working on a chunked array or Green's function - registering, appending, reading, copying, looping, flushing, rechunking, axis swaps, moving, importing, opening, closing, calculating signals - takes memory for as many chunks as the cache holds and some temporary ones, whatever the number of chunks of the array, apart from the entries of the chunk index. "
  "No operation leaves files open. On disk there is, after an orderly close, one file for each chunk with contents, none for all-null chunks stored as markers, none left over from earlier states, and not substantially more space than the dense contents take.",
  ["inputs", "histories"], "all histories, array sizes, chunk shapes, sparsities and cache depths",
  "The tests never measure resources.",
  [I+"DistributedNDVecArray.hxx", I+"Cache.hxx", I+"NDVecArrayStreamer.hxx", I+"GreensFunction.hxx"],
  [("eviction from the chunk cache, replacement and removal of chunk files", I+"DistributedNDVecArray.hxx"), ("streaming append", I+"NDVecArrayStreamer.hxx")], [], ["DistributedNDVecArray", "GreensFunction"]),
P("C33", "Several processes can use one library at the same time",
  "Any number of processes can read the same chunked array or Green's function at the same time, with the values and signals each of them would obtain alone, whatever the order in which they open, read and close it, also when some of them are killed; reading leaves the files of the library as they are. "
  "While one process extends an array, others that opened it before keep reading what they opened, and nothing the writer flushed is lost when they close. Processes that rechunk different arrays with the same existing directory for temporary use do not disturb each other. "
  "Threads that work on objects of their own obtain the same results as without other threads, without data races.",
  ["schedules", "histories", "crash points"], "all interleavings of file operations of readers, writers and rechunking neighbours; all thread schedules on distinct objects",
  "The tests use one process and one thread.",
  [I+"DistributedNDVecArray.hxx", I+"DistributedNDVecArray.hh", I+"GreensFunction.hxx", "eisvogel/core/MemoryUtils.hh"],
  [("writing the chunk index at close", I+"DistributedNDVecArray.hxx"), ("unique names of chunk files and temporary directories", I+"DistributedNDVecArray.hxx")],
  [], ["DistributedNDVecArray and GreensFunction in several processes and threads"]),
]
