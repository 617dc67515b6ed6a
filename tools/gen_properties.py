#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
I = "eisvogel/core/impl/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Chunk lookup agrees with a linear search over all inserted boxes",
  "After any history of inserting entries with rectangular index ranges (half-open boxes), updating their bounds, rebuilding, clearing and re-using the spatial index, a point query returns an inserted entry if and only if some inserted box contains the point (and then one that does), a region query returns exactly the entries whose boxes intersect the region, each once, a listing returns every entry exactly once, and the reported bounding box is the tight hull of all boxes. This holds for any number of entries (empty, below, at and far above the node capacity), any insertion order and any box geometry.",
  ["histories", "inputs"], "All insertion orders and op sequences up to the stated depth on small grids of boxes, plus all families of regular and skewed tilings up to several hundred boxes (multi-level trees, node splits, forced re-insertions, pool growth).",
  "testRStarTree inserts one regular 100^3 tiling in scan order and asks one query per cell; it never changes order, geometry, overlap between boxes, never clears or re-uses the tree, and asks no region spanning several boxes.",
  [I+"RStarTree.hh", I+"RStarTree.hxx", I+"MemoryUtils.hh"],
  [("insertion, choose-subtree, split, forced re-insertion", I+"RStarTree.hxx"), ("STR bulk rebuild", I+"RStarTree.hxx"), ("slot memory pools", I+"RStarTree.hh")],
  [("node and entry pools", "index-linked storage for tree nodes", I+"RStarTree.hh")], ["Search(point)", "Search(region)", "GetBoundingBox", "iteration over entries"])

p("C02", "The payload cache is a bounded least-recently-used map",
  "A cache of depth d always holds the d most recently used distinct keys of its history (a key counts as used when it is inserted or retrieved), returns for a contained key exactly the payload most recently stored under it, and never reports a key that was evicted or is absent. Eviction hands back exactly the least recently used entry, once, and emptying the cache hands back every remaining entry exactly once.",
  ["histories"], "All operation sequences up to the depth bound over a small key alphabet, for every cache depth from 1 to one more than the number of keys.",
  "No test drives the cache directly; the distributed-array test only uses depths 1 and 5 through one access pattern.",
  [I+"Cache.hh", I+"Cache.hxx"], [("doubly linked slot list + key map", I+"Cache.hxx")],
  [("slot list", "LRU order, oldest/newest ends", I+"Cache.hh")], ["contains / get / insert / evict operations of the cache"])

p("C03", "In-memory vector arrays behave like mathematical arrays",
  "For every shape, an in-memory array stores and returns per index exactly the vector last written there: construction, element and range assignment, clearing, resizing, copying (from whole arrays and from views), views of sub-ranges (which alias the original), filling from another array with offset, appending along an axis, swapping axes and null tests all agree with an index-to-value map. No operation touches elements outside the addressed range.",
  ["inputs", "histories"], "All shapes with 1-3 axes and extents up to 3-4, all sub-ranges, offsets, axis pairs and null patterns within those shapes, and short sequences of such operations.",
  "testNDVecArray checks a handful of fixed shapes and one view; sub-range corner cases, views of views, and offsets are never enumerated.",
  [I+"NDVecArray.hh", I+"NDVecArray.hxx", I+"Vector.hh", I+"VectorView.hh"], [("stride/offset indexing shared between owner and view", I+"NDVecArray.hxx")],
  [("strides, offset, shared data", "addressing of views", I+"NDVecArray.hh")], ["operator[]", "View", "fill_from", "Append", "SwapAxes", "copy"])

p("C04", "Serialized arrays read back exactly, in every mode and chunking",
  "Writing an array and reading it back reproduces the shape and every value bit for bit (values that compare equal to zero may lose their sign), for every array shape, every admissible serialization chunk shape, dense and null-suppressed mode, any pattern of zeros, any position in the stream, and whether or not the stream has been finalized. Appending a slice along an axis to a serialized array yields a stream that reads back as the concatenation, as often as slices are appended; where the layout does not admit appending, the attempt is reported as an error and does not alter what can be read back.",
  ["inputs", "histories"], "All array shapes up to 3 per axis in 1-3 dimensions x all serialization chunk shapes x both modes x all/structured null patterns x all append sequences up to the depth bound.",
  "testCompression writes one constant 400^3 array with one serialization chunk shape and only prints mismatches.",
  [I+"NDVecArrayStreamer.hh", I+"NDVecArrayStreamer.hxx", I+"NDVecArraySerialization.hh", I+"Serialization.hxx"],
  [("chunked (de)serialization, append_slice, mark_as_final", I+"NDVecArrayStreamer.hxx"), ("run-length null suppression", I+"NDVecArraySerialization.hh")], (),
  ["NDVecArrayStreamer::serialize / append_slice / mark_as_final / deserialize"])

p("C05", "A distributed array reads as the logical array for any history and cache size",
  "After any sequence of registering chunks, appending slices to a chunk, reading single elements, extracting regions, iterating, swapping axes and flushing, every element of a distributed array reads as the value most recently written for its index, reads outside all chunks are reported as errors, and the reported shape is the extent of the registered domain. A slice that does not continue an existing chunk exactly at its end, or that the chunk cannot take, is refused with an error and changes nothing. None of this depends on the depth of the chunk cache, on the order in which chunks are registered or accessed, on how chunks are laid out, or on when data is written to disk.",
  ["histories", "configurations"], "All operation sequences up to the depth bound over small chunk layouts, for cache depths 0..3, with and without intermediate flushes, and slices of every small shape offered at every place near a chunk, in comparison with an index-to-value map.",
  "testDistributedNDVecArray runs one fixed script with cache depth 1 and a regular tiling; interleavings of appends, reads, evictions and axis swaps are not explored.",
  [I+"DistributedNDVecArray.hh", I+"DistributedNDVecArray.hxx", I+"Cache.hxx", I+"NDVecArrayStreamer.hxx", I+"RStarTree.hxx"],
  [("write-back chunk cache with pending serialize/append operations", I+"DistributedNDVecArray.hxx"), ("chunk index", I+"DistributedNDVecArray.hxx")],
  [("cache entry status and pending append", "what has to be written when the entry leaves the cache", I+"DistributedNDVecArray.hh"), ("chunk index", "chunk metadata by location", I+"DistributedNDVecArray.hh")],
  ["operator[]", "FillArray", "index_loop_over_elements", "GetShape"])

p("C06", "Closing and reopening a distributed array loses and mixes up nothing",
  "At every point of a history a distributed array can be closed (destroyed) and opened again from its directory, with the same or a different cache depth, and the continued history behaves as if it had never been closed: all elements, the shape and further registering, appending, reading and axis swapping agree with the uninterrupted array. Flushed data is visible to an independent reader of the directory while the writer stays open.",
  ["histories", "configurations"], "All operation sequences up to the depth bound with a close/reopen or an independent reader at every position.",
  "The tests reopen an array once, after everything has been written, and only read from it; nothing is ever written after reopening.",
  [I+"DistributedNDVecArray.hh", I+"DistributedNDVecArray.hxx", I+"NDVecArrayStreamer.hxx", I+"Serialization.hxx"],
  [("index file, one metadata record per chunk", I+"DistributedNDVecArray.hxx"), ("load and rebuild of the index", I+"DistributedNDVecArray.hxx")],
  [("next chunk id", "unique key of a chunk in the cache", I+"DistributedNDVecArray.hh"), ("index file", "metadata on disk", I+"DistributedNDVecArray.hxx")],
  ["constructor on an existing directory", "operator[]", "FillArray"])

p("C07", "Moving, importing and clearing libraries preserve exactly the right data",
  "Importing one distributed array into another makes the union of both readable with the values of each, at any mixture of empty, flushed, cached and previously imported content, and leaves the imported directory intact unless its removal was requested; moving an array keeps its full content readable through the same object and from the new location; clearing leaves an empty array that can be filled anew and removes only files of that array.",
  ["histories", "configurations"], "All sequences up to the depth bound of register/flush/import(copy or move)/move/clear/reopen over two or three libraries.",
  "Only one import sequence of freshly written, disjoint directories is tested; moving and clearing are not tested at all.",
  [I+"DistributedNDVecArray.hh", I+"DistributedNDVecArray.hxx"], [("ImportLibrary, MoveLibrary, ClearLibrary", I+"DistributedNDVecArray.hxx"), ("unique chunk file names", I+"DistributedNDVecArray.hxx")], (),
  ["Import", "Move", "Clear", "directory content"])

p("C08", "Rechunking keeps every value and gives each chunk its exact overlap",
  "Rebuilding the chunks of a distributed array whose chunks cover a contiguous domain (starting anywhere) onto any requested chunk size, with any overlap, changes no readable element and no shape; afterwards the chunks tile the domain exactly in pieces of the requested size (smaller only at the far edges), and the overlap margin of each chunk holds the neighbouring elements of the logical array where they exist and the value supplied by the boundary evaluator, called with the correct index, where they do not. An array with gaps, for which no such chunks exist, is refused with an error and keeps its contents. Nothing else that is stored in the temporary directory is used, changed or removed, and nothing is left behind there.",
  ["inputs", "configurations"], "All small domain shapes x source tilings x requested chunk sizes x overlaps (including chunk sizes larger than the domain and overlaps larger than a chunk) x cache depths.",
  "testDistributedNDVecArray rebuilds one 120x120x150-sized array onto 40^3 with overlap 1 and 2 and never looks at the overlap values.",
  [I+"DistributedNDVecArray.hxx", I+"ChunkUtils.hh", I+"IteratorUtils.hh", I+"Vector.hxx"], [("RebuildChunks with boundary evaluator", I+"DistributedNDVecArray.hxx"), ("index loops over chunks and margins", I+"IteratorUtils.hh")], (),
  ["operator[] after RebuildChunks", "map over chunks with overlap", "boundary evaluator calls"])

p("C09", "Rechunking split over independent jobs and merged equals rechunking at once",
  "Partitioning the domain of a distributed array in any way, rebuilding each partition separately into its own directory (optionally shifting its output start index) and importing the results in any order into a new array yields the same elements, shape and overlap contents as rebuilding the whole array at once. The source array is left unchanged.",
  ["configurations", "schedules", "histories"], "All small domains x partitions x chunk sizes x overlaps x all completion/import orders of the jobs.",
  "The test merges one partitioning of one array in one order and does not look at overlaps or output offsets.",
  [I+"DistributedNDVecArray.hxx", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx"], [("RebuildChunksPartial", I+"DistributedNDVecArray.hxx"), ("Import", I+"DistributedNDVecArray.hxx")], (),
  ["operator[] of the merged array", "overlap contents"])

p("C10", "Null-chunk optimization is invisible to readers",
  "Registering, appending to, rebuilding or importing chunks with the all-zero optimization enabled yields the same readable elements, shapes, rebuilt overlaps and Green's function results as without it, for every pattern of zero and nonzero chunks and every history of these operations. An operation that the optimization does not support (appending to a chunk that is held as all-zero, or appending with the optimization enabled) is refused with an error and changes nothing that can be read.",
  ["histories", "configurations", "inputs"], "All zero/nonzero patterns over small chunk layouts x op sequences with hints on and off, compared pairwise and against the logical array.",
  "The tests never enable the optimization.",
  [I+"DistributedNDVecArray.hh", I+"DistributedNDVecArray.hxx", I+"GreensFunction.hxx"], [("chunk type all_null vs specified", I+"DistributedNDVecArray.hxx"), ("null chunks skipped when evaluating", I+"GreensFunction.hxx")], (),
  ["operator[]", "FillArray", "RebuildChunks", "accumulate_inner_product", "fill_array"])

p("C11", "Green's function inner products are independent of storage and call splitting",
  "For a query inside the stored domain, the inner product of a Green's function with a source over a run of time samples equals, sample by sample, the kernel interpolation of the logical sampled field (to rounding), scaled by the weight and added to what the output already held. The result does not depend on the chunk size, the cache depth, earlier queries, null chunks, or on whether the samples are requested in one call or several, and nothing outside the requested output samples is modified.",
  ["inputs", "configurations", "histories"], "All small domain/chunk-size combinations x both kernels x a grid of positions, start times and sampling steps that hit, straddle and skip chunk boundaries x all call splittings.",
  "testGreensFunction evaluates one point of one array and prints deviations without failing.",
  [I+"GreensFunction.hh", I+"GreensFunction.hxx", I+"Interpolation.hxx", I+"DistributedNDVecArray.hxx"], [("chunk-by-chunk interpolation loop", I+"GreensFunction.hxx"), ("chunk-local coordinates and overlap", I+"GreensFunction.hxx")], (),
  ["accumulate_inner_product"])

p("C12", "Out-of-domain Green's function queries are ignored or raised, never garbage",
  "In ignore mode the samples of a query that fall outside the stored domain contribute nothing while all samples inside contribute as usual; in raise mode a query that needs a sample outside the domain ends in a reported error. Results depend only on stored data (up to one cell beyond the first and last sample it is the zero or mirrored margin stored with the chunks; farther away is outside), and no other output samples are changed.",
  ["inputs", "configurations"], "All positions and time windows on a grid that extends beyond every side of small domains, for both modes and kernels.",
  "No test queries outside the domain.",
  [I+"GreensFunction.hxx"], [("out-of-bounds mode handling", I+"GreensFunction.hxx")], (), ["accumulate_inner_product", "apply_accumulate"])

p("C13", "Line-current signals equal the causal convolution quadrature",
  "The signal computed for a line current segment equals, at every output sample, the trapezoidal sum over the segment's integration points of charge times velocity contracted with the interpolated Green's function at the delayed time, counting only integration points that are not later than the sample. It is accumulated onto the existing signal, is linear in charge and weight, and does not depend on the internal blocking of samples and integration points or on how a signal window is split into several calls.",
  ["inputs", "configurations"], "Families of segments (through, beside and on the axis, short and longer than one integration block) x sample windows (before, straddling and after the segment, shorter and longer than one sample block) x chunkings, all compared with a direct double sum.",
  "testGreensFunction only prints; the physics tests compare a few signals with 8e-5 relative tolerance to the peak and a single window.",
  [I+"GreensFunction.hxx", I+"Quadrature.hh", I+"Current.hxx"], [("blocked quadrature with causal clamp", I+"GreensFunction.hxx"), ("trapezoidal weights per block", I+"Quadrature.hh")], (), ["apply_accumulate"])

p("C14", "Sampling a Green's function onto a grid equals pointwise interpolation",
  "Filling an output array over any coordinate box inside the domain with any number of samples per axis gives at each grid point the interpolated value of the logical field at that coordinate, whatever the chunking, overlap, cache depth or null chunks, including boxes that start, end or lie within a single cell or exactly on chunk and domain boundaries.",
  ["inputs", "configurations"], "All small domain/chunk-size combinations x all start/end positions on a sub-cell grid x small sample counts per axis, both kernels.",
  "No test calls this function; only an example program does.",
  [I+"GreensFunction.hxx", I+"Vector.hxx"], [("per-chunk output index ranges", I+"GreensFunction.hxx")], (), ["CylindricalGreensFunction::fill_array"])

p("C15", "Interpolation reproduces nodes, constants and polynomials at every position",
  "For both kernels, the interpolated value equals the tensor-product kernel sum of the surrounding samples; it equals the sample exactly on grid nodes, reproduces constants and linear data (and quadratics for the cubic kernel), and treats all vector components and outer axes alike. The result of a run of samples does not depend on where the run starts or how long it is.",
  ["inputs"], "Every node and a fine lattice of fractional positions in all three axes x unit-impulse data at every position of the support x batch lengths and start offsets.",
  "testNDVecArrayInterpolation interpolates linear data at integer outer positions and only prints deviations.",
  [I+"Interpolation.hh", I+"Interpolation.hxx"], [("Linear and Keys kernels", I+"Interpolation.hxx"), ("tensor-product loop", I+"Interpolation.hxx")], (), ["Interpolation::interpolate"])

p("C16", "Downsampling picks the same global lattice for every tile",
  "Downsampling an array that starts at any global index returns exactly the elements whose global index is a multiple of the factor on every axis, in order, together with the matching downsampled start index and the announced shape; hence downsampling the tiles of any tiling separately and placing them at their downsampled start indices reproduces the downsampled whole without gaps or overlaps.",
  ["inputs", "configurations"], "All start indices, shapes and factors up to the bound per axis (including tiles that contain no lattice point) and all tilings of small domains.",
  "testDownsampling runs a single shape, start index and factor.",
  [I+"NDVecArrayOperations.hh", I+"NDVecArrayOperations.hxx"], [("downsample, get_downsampled_shape", I+"NDVecArrayOperations.hxx")], (), ["Downsampling::downsample"])

p("C17", "Index loops visit every index exactly once, in bounds and in order",
  "Iterating over the indices of any range or array visits each index exactly once with the last axis fastest; iterating over chunks of a range visits boxes that tile the range exactly (disjoint, in bounds, of the requested size except at the far edge); iterating over array elements visits each stored element with its own index. Empty ranges are visited zero times.",
  ["inputs"], "All ranges with 1-4 axes and extents up to 3-5, all chunk shapes, all starts up to the bound.",
  "The loops are used by every test but their coverage for empty, single-element or non-dividing ranges is never asserted.",
  [I+"IteratorUtils.hh", I+"NDVecArray.hxx"], [("index counters and chunk loops", I+"IteratorUtils.hh")], (), ["IteratorUtils::index_loop_*"])

p("C18", "Stored values and containers deserialize to what was serialized",
  "For every supported value type (integers, floating-point numbers, strings, vectors, fixed arrays, pairs/maps, fixed-length vectors and metadata records), deserializing what was serialized gives an equal value, consumes exactly the bytes that were produced, and therefore sequences of values of mixed types read back in order; this includes empty containers and lengths below, at and beyond the internal block size.",
  ["inputs", "histories"], "All sequences up to the depth bound over an alphabet of typed values with boundary values and lengths.",
  "Serialization is only exercised indirectly with small metadata.",
  [I+"Serialization.hh", I+"Serialization.hxx", I+"DefaultSerializationTraits.hxx", I+"Vector.hxx"], [("stor::Traits specializations", I+"DefaultSerializationTraits.hxx")], (), ["stor::Traits<T>::serialize / deserialize"])

p("C19", "Region arithmetic agrees with sets of indices",
  "Containment of an index in a box, overlap of two boxes, the common part of two overlapping boxes, and the element-wise minimum, maximum, comparison, rounding and arithmetic of index and coordinate vectors agree with the definition on sets of indices, for signed and unsigned indices and any mixture of both.",
  ["inputs"], "All pairs of boxes with starts and extents up to the bound in 1-3 dimensions; all pairs of small signed/unsigned/extreme values.",
  "There is no test of these helpers.",
  [I+"ChunkUtils.hh", I+"Vector.hh", I+"Vector.hxx"], [("ChunkUtils", I+"ChunkUtils.hh"), ("VectorUtils", I+"Vector.hxx")], (), ["ChunkUtils::contains / overlaps / get_chunk_overlap", "VectorUtils::*"])

p("C20", "Cylindrical margins mirror the axis and vanish elsewhere",
  "When a Green's function array is rechunked with the cylindrical boundary rule, the overlap of chunks at r=0 holds at negative radius -r the value stored at radius +r, and zero beyond every other side of the domain, for every chunk size, overlap and domain shape; interpolation near the axis and the domain edges therefore agrees with the mirrored, zero-padded field.",
  ["inputs", "configurations"], "All small domains x chunk sizes x overlaps 0..2, every element of every margin, and evaluations in the first and last cells.",
  "The tests never inspect margins and evaluate nothing near the axis.",
  [I+"Symmetry.hh", I+"Symmetry.hxx", I+"DistributedNDVecArray.hxx"], [("Cylindrical::boundary_evaluator", I+"Symmetry.hxx")], (), ["overlap contents after RebuildChunks", "accumulate_inner_product near r=0"])

p("C21", "Arrays exported for numpy decode to the same array",
  "The exported byte stream of any array is a valid NumPy file: the header decodes to the element type, C order and the array's shape with the vector axis last, is padded as the format requires, and the payload has exactly that many elements, in order, with the same values, also for copies of views of larger arrays.",
  ["inputs"], "All shapes with 1-3 axes and extents up to the bound (including multi-digit extents that change the header length) and sub-views.",
  "No test calls the export.",
  [I+"NDVecArray.hh", I+"NDVecArray.hxx"], [("serialize_to_numpy", I+"NDVecArray.hxx")], (), ["Traits<NDVecArray>::serialize_to_numpy"])

p("C22", "Analytic Green's function files do not depend on chunking and cover the domain",
  "The analytic dipole Green's function stored for a requested domain holds at each grid point the analytic field value at that point's coordinate, whatever the chunk size; it starts and ends at the requested coordinates, evaluates identically for all chunk sizes, and is causal (zero before the light travel time). A file in its place is replaced, and nothing else in the scratch directory is touched.",
  ["inputs", "configurations"], "Small domains x all chunk sizes from 1 to beyond the domain, every grid point compared across chunk sizes and with a direct evaluation of the formula.",
  "The physics tests use one chunk size and compare only a derived signal.",
  [I+"AnalyticGreensFunctionCalculator.hxx", I+"MathUtils.hxx"], [("chunk-wise evaluation and rechunking", I+"AnalyticGreensFunctionCalculator.hxx")], (), ["GreensFunctionCalculator::Analytic::ElectricDipole", "fill_array", "accumulate_inner_product"])

p("C23", "Front ends return the same signal as the Green's function itself",
  "The signal calculators offered to users (the plain one and the CORSIKA one) add to the caller's buffer exactly the signal of the underlying Green's function for the same track, window and weight, call after call and for every cache depth; tracks of zero or negative duration are rejected with an error; exported signal files contain one line per sample with time and value in the requested precision.",
  ["inputs", "histories"], "All sequences up to the depth bound of calls over a small alphabet of tracks, windows, weights and cache depths; all degenerate track time orders; exports of all short signals over an alphabet of values.",
  "The CORSIKA front end and the exporter are untested; the plain front end is called twice with one track.",
  [I+"SignalCalculator.hxx", I+"SignalExport.hxx", I+"Current.hxx", "extern/corsika/impl/C8SignalCalculator.hxx"], [("SignalCalculator, C8SignalCalculator", I+"SignalCalculator.hxx")], (), ["AccumulateSignal", "calculate", "ExportSignal"])

p("C24", "The parallel MEEP pipeline stores the simulated field for every job layout",
  "The Green's function produced from a field simulation holds, for every stored grid point and time step, the simulated field components of that point (up to the requested truncation of the dynamic range), on the downsampled lattice and requested storage region; it does not depend on the number of parallel jobs, on how the simulation domain is divided into chunks among them, or on the relative speed of the jobs between synchronization points. Stored coordinates agree with the simulated ones to within one stored sample, scratch directories are left without leftovers, and requests that cannot be met (an output directory that already has content, which is left alone; a storage region smaller than one voxel) are refused with an error.",
  ["configurations", "schedules", "inputs"], "All divisions of small simulation domains into chunks x job counts x downsampling factors x storage regions x job interleavings at synchronization points, with a stand-in field solver returning a known field.",
  "MEEP is not available to the tests and this code is not built by them.",
  ["eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx", I+"Geometry.hxx", I+"Antenna.hxx", I+"DistributedNDVecArray.hxx"],
  [("per-job storage, merge, rechunk stages separated by barriers", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx")], (), ["Calculate() and the resulting Green's function directory"])

p("C25", "Reading a stored array never alters it, whoever else is using it",
  "A process that only reads a stored array or Green's function (extracts elements or regions, iterates, evaluates signals, imports a copy elsewhere, flushes without having changed anything; also one that wrote earlier, has flushed all of its changes and only reads from then on) never changes a stored file, at no moment: several readers can work on the same directory at the same time and all see the full contents, a reader that is killed at any point destroys nothing, and closing a reader never undoes what somebody else added after it was opened.",
  ["histories", "schedules", "crash_points"], "All sequences of reading operations with the stored bytes compared before and after every file operation (the points where a kill or another process can get in), all schedules of two or three readers with bounded interruptions at file operations, and all merged histories of a writer and readers.",
  "The tests use one process and one array object at a time; the moments in which a file is incomplete are never observed.",
  [I+"DistributedNDVecArray.hxx", I+"GreensFunction.hxx", I+"SignalCalculator.hxx"], [("ChunkIndex::FlushIndex, ChunkCache", I+"DistributedNDVecArray.hxx")], (), ["directory contents during reading", "operator[], FillArray, accumulate_inner_product of concurrent readers", "contents after reopening"])

p("C26", "Showers are picked, scaled and traced exactly as stored in the shower file",
  "For every shower file and request: the shower used is the stored one with the requested index (in file order) among those of the requested kind at the stored energy closest to the requested one; a negative index picks one of these at random, each of them possible and nothing else. Its points start at the requested position at time zero and move at the speed of light along the requested zenith and azimuth in the given time steps, until the grammage traversed in ice (917 kg per cubic metre) reaches the last one of the stored profile; the charge at each point, the first one included, is the stored profile interpolated linearly at the grammage traversed so far, times the ratio of requested and stored energy. The line segments made of it connect these points seamlessly in space (divided by the speed of light) and time, carry the charge of their start, and are added behind whatever the output holds; the announced field size is the extent of the points. Missing or incomplete files and requests for which nothing is stored are reported as errors.",
  ["inputs"], "All small files over a menu of kinds, energies and profiles x all requests, all values of the random source from a dense set, all profiles x directions x positions x energies x steps, and all places at which a file can be cut.",
  "No test touches the shower code.",
  ["extern/shower_profile/shower_creator/shower_creator.cpp", "extern/shower_profile/shower_1D/shower_1D.cpp"], [("ShowerCreator::create_shower, Shower1D::get_shower", "extern/shower_profile/shower_1D/shower_1D.cpp")], (), ["ShowerCreator::create_shower", "Shower1D::get_shower", "fill_tracks", "print_dimensions"])

p("C27", "What is simulated is what has been described",
  "For every geometry, antenna and setting the field simulation that is run is the described one: a domain of exactly the given radius and depth with the requested resolution, absorber and courant factor, the described permittivity at every point (simulated coordinates correspond to the described ones by an offset along z only), and at the antenna's place, on the axis, a vertical current that is the described response during the active time, negated and scaled, and zero at all other times. This holds for every job, for repeated calculations with the same objects, and for the front end for air shower simulations, which gives the same Green's function as the calculator itself. Regions report the limits they were given; limits that describe no region, storage regions outside the domain or without extent, and domains that do not consist of whole voxels are refused with an error and leave everything as it was.",
  ["inputs", "histories", "configurations"], "All regions over a menu of limits and histories of changes to them, all geometries x storage regions, points, antennas x times x histories of scale factors and copies, settings x places x job counts, histories of calculations with the same objects, and sizes in voxels; a stand-in field solver records what it is asked for.",
  "MEEP is not available to the tests and this code is not built by them.",
  [I+"Geometry.hxx", I+"Antenna.hxx", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx", "extern/corsika/impl/C8GreensFunctionCalculator.hxx"],
  [("CylinderRegion, CylinderGeometry, InfEDipoleAntenna", I+"Geometry.hxx"), ("set-up of the field simulation", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx")], (), ["calls of the field solver", "CylinderRegion, CylinderGeometry, InfEDipoleAntenna", "calculate() of the front end"])

p("C28", "A process killed while it adds data loses nothing that was flushed",
  "Once a flush has returned (or an array object has been closed), its contents survive the sudden end of the process that goes on adding data to the same directory: wherever it is killed (between any two operations on files, or within one) while it registers chunks of any kind, appends slices to chunks (also to those that have been flushed), imports copies of other libraries, reads, queries the shape, flushes or closes, the directory can be opened and holds exactly the contents at the last completed flush or at a later moment of the same history, never a mixture and never anything else. The same is seen by every process that opens the directory while another one adds to it. Work can go on with what is left: chunks can be added, slices can be appended where what is stored permits it (and are refused elsewhere), and the library can be moved and imported into.",
  ["crash_points", "histories", "schedules"], "All histories up to the depth bound x all points between and within file operations (including torn writes), each distinct state of the directory opened and compared with the possible contents, and used for further work.",
  "No test ends a process; files are only looked at when everything has been written.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArrayStreamer.hxx"], [("ChunkIndex::FlushIndex, ChunkLibrary::FlushLibrary, ChunkCache::FlushCache", I+"DistributedNDVecArray.hxx")],
  [("index.bin", "chunk metadata; refers to chunk files", I+"DistributedNDVecArray.hxx"), ("chunk files", "one file per chunk, written when the chunk leaves the cache", I+"DistributedNDVecArray.hxx")], ["directory contents at every file operation", "contents after opening what is left"])

p("C29", "What cannot be read or written in full is reported",
  "If a file of a stored array or Green's function cannot be read in full (it is missing, ends early at any byte, or reading it returns an error), or data cannot be written (creating, writing, closing or renaming a file fails, once, half way or from then on), the operation that meets this ends in an error that the caller can catch: no process is aborted, no loss goes unreported, and no operation ever returns values other than the stored ones. (Only when an object reaches the end of its life while data are still in memory the error is printed instead.) Data in chunks that are intact stay readable, also through the same object after the error; once the medium works again everything that is intact can be read; what was flushed before is kept by histories that add chunks; readers never change damaged files. Rebuilding and importing chunks, moving libraries, making Green's functions, calculating them analytically or with the field simulation, and exporting signals either report an error or leave a complete result. A Green's function without data or description is refused when it is opened. The index of a plain array is the exception: without it the directory is an empty array.",
  ["crash_points", "histories", "inputs"], "All files cut at every byte, and all histories within the bounds x every file operation in them failing in several ways, followed by reading through the same and through new objects.",
  "No test sees a damaged file or a failing file operation.",
  [I+"DistributedNDVecArray.hxx", I+"NDVecArrayStreamer.hxx", I+"GreensFunction.hxx", I+"SignalExport.hxx", I+"AnalyticGreensFunctionCalculator.hxx", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx"], [("ChunkCache, ChunkIndex, ChunkLibrary", I+"DistributedNDVecArray.hxx")],
  [("index.bin", "chunk metadata", I+"DistributedNDVecArray.hxx"), ("chunk files", "one file per chunk", I+"DistributedNDVecArray.hxx"), ("green.meta", "description of a Green's function", I+"GreensFunction.hxx")], ["errors reported by operations", "values read", "files on disk after errors"])

p("N01", "A process killed while it modifies stored chunks in place loses nothing",
  "If a process is killed while it swaps axes, clears or moves a library, everything flushed before is still there.",
  ["crash_points"], "All crash points and torn writes of such a history.",
  "Tests never kill a process.",
  [I+"DistributedNDVecArray.hxx"], [("none: chunk files are modified in place", I+"DistributedNDVecArray.hxx")])

p("N02", "Calculated signals converge to the exact solution of Maxwell's equations",
  "With increasing oversampling the calculated signals converge to the analytic solution of the Coulomb, Askaryan and Cherenkov reference problems.",
  ["inputs"], "All oversampling factors and geometries.",
  "The physics tests sample two or three parameter points.",
  [I+"GreensFunction.hxx", I+"AnalyticGreensFunctionCalculator.hxx"], [("quadrature and interpolation", I+"GreensFunction.hxx")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
