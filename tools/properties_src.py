TV = "TLA+ specification checked with TLC; "
TRUST = ("Trusts the harness projection (public accessors), the encoding of numbers as scaled integers, and TLC; "
         "inputs and histories beyond the generated ones are not covered.")

prop("P01", "Array views share storage, copies do not",
     "Slicing, squeezing, unsqueezing, reshaping or copying a handle of an array yields a view of exactly the selected elements (start, start+step, ...; negative bounds count from the end; floor((end-start)/step) elements along the sliced axis) of the same storage, however such operations are chained. A write through any view (fill, copy into it, assignment to a slice) changes exactly the elements that view selects, and every view that selects them reads the new value, by whole array or element by element. A new shape needs as many, evenly spaced elements. An array handed to another library (DLPack), taken in from one, or both, is again a view of exactly those elements, which stay alive while either side uses them. Deep copies never share storage with their source, and a rejected request changes nothing.",
     ["histories", "inputs"], "every sequence of creating, slicing, squeezing, unsqueezing, reshaping, copying, sharing with other libraries, filling, assigning and dropping of arrays and views, of any rank, shape and supported element type",
     "The tests look at single slices of one array; the guarantee is over chains of views and interleavings of writes through different views of the same storage.",
     [B + "ndarray.cpp", B + "ndarray_slice.cpp", B + "ops/ops.cpp", B + "ops/cpu/elementwise_unary_op.hpp", B + "ops/cpu/assignment_op.hpp"],
     [("per-axis strides and offsets over shared storage", B + "ops/ops.cpp slice; " + B + "ndarray.cpp squeeze, unsqueeze, scalarize"),
      ("assignment to a slice copies element-wise", B + "ndarray_slice.cpp operator="),
      ("exchange with other libraries", B + "bland_tensor_internals.cpp"), ("strided copy and fill", B + "ops/cpu/elementwise_unary_op.hpp, " + B + "ops/cpu/assignment_op.hpp")],
     ["values, shape and type of every live handle after every call"],
     [("handle", "shape, strides and offsets into a shared allocation", B + "ndarray.cpp")],
     TV + "TLC-generated behaviours replayed in the library, every call trace-validated",
     "Views.tla is model checked exhaustively for small arrays; its random behaviours are replayed and each recorded step must be a step of the specification. " + TRUST)

prop("P02", "Element-wise arithmetic over broadcast views is exact per element",
     "For arrays and views of any shapes that broadcast (aligned at the last axis, missing or size-1 axes repeat), +, -, * and / give in the broadcast shape, with the element type of the left array, exactly the result of the operation on the corresponding elements; with a scalar on either side the operands keep their order; square, sqrt and abs act per element, also into an output view. Shapes that do not broadcast are rejected. Operands are never changed and a result never shares their storage.",
     ["inputs"], "every operator, operand order, call form, pair of shapes, strided or offset views and supported element types",
     "The tests add or multiply a few contiguous arrays of equal shape, so a wrong stride, offset, operand order or output shape on other combinations passes.",
     [B + "ops/arithmetic.cpp", B + "ops/cpu/elementwise_binary_op.hpp", B + "ops/cpu/elementwise_scalar_op.hpp", B + "ops/cpu/elementwise_unary_op.hpp", B + "internal/include/internal/shape_helpers.cpp", B + "ndarray.cpp"],
     [("broadcast of shapes and strides", B + "internal/include/internal/shape_helpers.cpp"), ("element loops with unrolling and tails", B + "ops/cpu/elementwise_binary_op.hpp, elementwise_scalar_op.hpp"),
      ("scalar-on-the-left operators", B + "ndarray.cpp, " + B + "ops/arithmetic.cpp")],
     ["shape, type and values of the result and of the operands after the call"], (),
     TV + "recorded calls judged by TLC against the element-wise definition",
     "Results are compared exactly on dyadic values. " + TRUST)

prop("P03", "Comparisons and logical and yield exact 0/1 masks",
     "For every pair of broadcastable arrays or views, or array and scalar on either side, >, >=, <, <= and == yield an 8-bit array in the broadcast shape that is 1 exactly where the relation holds between the corresponding elements and 0 elsewhere, and & yields the bit-wise or logical conjunction as defined for mask arrays. Numbers are compared by value whatever the two element types, extreme values included; what is not a number relates to nothing. Counting the true elements of an array or view counts exactly its non-zero elements. Operands are never changed.",
     ["inputs"], "every comparison, operand order, pair of shapes, views and supported element types, including equal, extreme and non-number elements",
     "The tests compare one contiguous array with one scalar.",
     [B + "ops/comparison.cpp", B + "ops/cpu/comparison_cpu.cpp", B + "ops/cpu/comparison_cpu_impl.hpp", B + "ops/cpu/statistical_cpu.cpp"],
     [("per-relation element functions", B + "ops/cpu/comparison_cpu_impl.hpp"), ("operator overloads with swapped operands", B + "ops/comparison.cpp"), ("count_true", B + "ops/cpu/statistical_cpu.cpp, " + B + "ops/comparison.cpp")],
     ["shape, type and values of the mask; the count"], (),
     TV + "recorded calls judged by TLC against the definition of each relation",
     TRUST)

prop("P04", "Reductions aggregate exactly the elements of each group",
     "sum, mean, max, standard deviation, variance, standardized moments (of the deviations from the mean in units of the standard deviation) and median over any set of axes of any array or view give, for each combination of indices on the remaining axes, the named statistic of exactly the elements that share those indices, in the shape of the remaining axes (one element when none remain). Writing the result into a caller's array gives the same values, and the input is never changed.",
     ["inputs"], "every reduction, rank, shape, set of reduced axes, strided or offset view",
     "The tests reduce one or two arrays over one or two axes; strided views, several axes and output arrays are not reached.",
     [B + "ops/statistical.cpp", B + "ops/cpu/statistical_cpu.cpp"],
     [("reduction loops over reduced and kept axes", B + "ops/cpu/statistical_cpu.cpp"), ("two-pass mean and deviation", B + "ops/cpu/statistical_cpu.cpp")],
     ["shape and values of the result"], (),
     TV + "recorded calls judged by TLC against the statistic of each group",
     "Sums, means and maxima are compared exactly on integers; deviations within a rounding tolerance. " + TRUST)

prop("P05", "Masked statistics use exactly the unmasked elements",
     "Masked mean, standard deviation and variance over any axes are the statistics of exactly those elements whose mask is zero, whatever non-zero value marks the others and whatever memory layout data and mask have; flagged values never influence the result. A mask of another shape is rejected, and so is a reduction in which no element remains.",
     ["inputs"], "every data array, mask, layout (views of either), and set of reduced axes",
     "The tests use one contiguous array and one mask with the same layout.",
     [B + "ops/statistical.cpp", B + "ops/cpu/statistical_cpu.cpp"],
     [("masked reduction loops", B + "ops/cpu/statistical_cpu.cpp")],
     ["shape and values of the result, or the rejection"], (),
     TV + "recorded calls judged by TLC against the statistic of each unmasked group",
     "Means compared exactly where exact, deviations within a rounding tolerance. " + TRUST)

prop("P06", "Raw array files and array constructors give the values asked for",
     "Writing any single-precision array or view to a raw file and reading it back yields its elements in row-major order. zeros, ones, filled, ranged (start, start+step, ... floor((end-start)/step) values) and evenly spaced arrays hold exactly the requested values in the requested shape and type.",
     ["inputs"], "every shape, view, element type, range, step and count",
     "The tests write one contiguous array and build a handful of ranges.",
     [B + "ops/creators.cpp", B + "ops/cpu/ops_cpu.cpp", B + "ops/ops.cpp"],
     [("strided element-by-element write", B + "ops/cpu/ops_cpu.cpp write_to_file"), ("creators", B + "ops/creators.cpp")],
     ["contents of the file and of the arrays"], (),
     TV + "recorded calls judged by TLC", TRUST)

prop("P07", "Deferred arrays evaluate when and as often as their policy says",
     "A lazily deferred array evaluates its source once for every use and never otherwise; a memoizing one at most once, at the first use through any copy of its handle, and yields that same array at every later use; an eager one exactly once, when it is made; one made from an array never evaluates anything and is that array. Writes through an array obtained from a memoizing, eager or array-backed one are seen by later uses through every copy, and never by uses of a lazy one. Sending a deferred array to the device it is on changes none of this.",
     ["histories"], "every sequence of creating, copying, moving and using deferred arrays under every policy",
     "No test uses deferred arrays directly; the guarantee is over histories of handles.",
     [B + "ndarray_deferred.cpp", B + "include/bland/ndarray_deferred.hpp"],
     [("evaluation policies", B + "ndarray_deferred.cpp")],
     ["number of evaluations and value seen by each use"], (),
     TV + "TLC-generated behaviours replayed in the library, every call trace-validated",
     "Deferred.tla is checked exhaustively for a few handles; its behaviours are replayed. " + TRUST)

prop("P08", "A scan's coarse channels partition its band with consistent frequencies",
     "Reading coarse channel i of a scan yields exactly the i-th block of fine channels of the file (data and mask), with first-channel frequency fch1 + i*n*foff, channel number i, and the file's other metadata; indices outside the scan are rejected, and the frequency-to-channel lookup is the inverse of that layout. The channel count follows the requested or known channelization, slicing a scan gives a scan of exactly the selected channels with its first frequency moved accordingly, and reading never depends on which channels were read before or through which copy or slice of the scan.",
     ["histories", "inputs", "configurations"], "every file layout and optional header, channelization, and sequence of read, peek, slice, copy and lookup calls",
     "The tests have no filterbank file, so nothing of this is exercised.",
     ["bliss/core/scan.cpp", "bliss/file_types/h5_filterbank_file.cpp", "bliss/core/coarse_channel.cpp"],
     [("channelization inference", "bliss/core/scan.cpp infer_number_coarse_channels"), ("channel cache and read", "bliss/core/scan.cpp read_coarse_channel, peak_coarse_channel"), ("slicing", "bliss/core/scan.cpp slice_scan_channels"),
      ("hyperslab reads and attributes", "bliss/file_types/h5_filterbank_file.cpp")],
     ["data, mask and metadata of the channels read; scan metadata; exceptions"],
     [("channel cache", "channels already read, shared between copies and slices of a scan", "bliss/core/scan.cpp")],
     TV + "TLC-generated histories over generated filterbank files, every call trace-validated", TRUST)

prop("P09", "Scan transforms apply once per read, in order, to that scan only",
     "Every transform added to a scan is applied, in the order added, to each coarse channel read from that scan after it was added, whether or not the channel had been read before, and at each read to the channel's original contents. Adding a transform to one scan object never affects scans it was copied or sliced from, and transforms present when a scan is copied or sliced travel with it.",
     ["histories"], "every sequence of adding transforms, reading, peeking, copying and slicing scans",
     "Tests never register a transform; the guarantee is over histories and aliasing between scan objects.",
     ["bliss/core/scan.cpp", "bliss/core/cadence.cpp"],
     [("pipeline kept per scan and applied to a copy of the cached channel", "bliss/core/scan.cpp read_coarse_channel, add_coarse_channel_transform"), ("device pushes and slices share the cache", "bliss/core/scan.cpp")],
     ["values and masks of channels read, order in which transforms ran"],
     [("pipeline", "ordered transforms of one scan object", "bliss/core/scan.cpp")],
     TV + "TLC-generated histories replayed, every call trace-validated", TRUST)

prop("P10", "Targets and cadences hold only consistent scans and slice them together",
     "An observation target or cadence reports itself valid exactly when all its scans have the same channel count, first frequency and channel width, and counts its coarse channels as its scans do. Slicing the coarse channels of a target or cadence slices every scan to the same channels, keeps names and order of scans and targets, and leaves the original unchanged; frequency lookup agrees with that of its scans.",
     ["inputs", "histories"], "every collection of scans, with any one of them differing in any one parameter, and every slice",
     "The tests build no cadence with more than one consistent layout.",
     ["bliss/core/cadence.cpp", "bliss/core/scan.cpp"],
     [("consistency check", "bliss/core/cadence.cpp validate_scan_consistency"), ("slicing", "bliss/core/cadence.cpp slice_observation_channels, slice_cadence_channels")],
     ["validity, counts, metadata and data of the slices"], (),
     TV + "recorded histories judged by TLC", TRUST)

prop("P11", "Flaggers mark exactly the channels and samples their rule selects",
     "Each flagger adds its own flag value to exactly the samples its rule selects and leaves data, other flags and the input's mask as they were: the band-edge flagger the requested fraction of channels at each edge; the spectral-kurtosis flagger every sample of channels whose estimate from M spectra of N accumulations lies outside the limits; the magnitude flagger samples above the limit (by default mean plus ten deviations); sigma clipping the samples outside the limits set by the mean and deviations of the samples the iteration before left. The kurtosis estimate on its own is the generalised estimate of every channel's spectra. Flagging a scan, target or cadence gives for every coarse channel what flagging that channel gives.",
     ["inputs", "configurations"], "every data array, existing mask, width, limit, iteration count and level (channel, scan, target, cadence)",
     "The tests do not run the flaggers.",
     ["bliss/flaggers/filter_rolloff.cpp", "bliss/flaggers/spectral_kurtosis.cpp", "bliss/flaggers/magnitude.cpp", "bliss/flaggers/sigmaclip.cpp", "bliss/estimators/spectral_kurtosis.cpp", "bliss/core/include/core/flag_values.hpp"],
     [("edge widths", "bliss/flaggers/filter_rolloff.cpp"), ("generalised kurtosis estimate and limits", "bliss/estimators/spectral_kurtosis.cpp, bliss/flaggers/spectral_kurtosis.cpp"), ("thresholds", "bliss/flaggers/magnitude.cpp, bliss/flaggers/sigmaclip.cpp")],
     ["mask before and after, data after"], (),
     TV + "recorded calls judged by TLC against exact (integer) versions of the rules",
     "Cases within rounding distance of a limit are excluded by the specification. " + TRUST)

prop("P12", "Noise estimates describe exactly the unflagged samples",
     "The noise floor and noise power of a coarse channel or array are the mean and standard deviation of its samples, restricted to unflagged ones when a masked estimate is requested, so flagged interference of any size never changes them. The estimate attached at scan, target or cadence level equals the one computed on each coarse channel, and a fully flagged channel is reported as an error.",
     ["inputs", "configurations"], "every data array, mask and level",
     "Tests estimate noise of one unmasked Gaussian array within a loose tolerance.",
     ["bliss/estimators/noise_estimate.cpp", "bliss/core/noise_power.cpp"],
     [("estimate", "bliss/estimators/noise_estimate.cpp"), ("deferred per-channel estimate", "bliss/estimators/noise_estimate.cpp, bliss/core/coarse_channel.cpp")],
     ["floor, power and variance of the estimate"], (),
     TV + "recorded calls judged by TLC", "Floor exact, power within a rounding tolerance. " + TRUST)

prop("P13", "The drift plane integrates power along exactly the drift line of each rate",
     "For each of the (high - low)/step (rounded down) requested drift rates low, low+step, ... the integrated plane holds, for every channel whose line does not start closer to the low end of the band than a falling rate drifts (those bins hold zero), the mean over time of the spectrogram values on the straight line that starts in that channel and has that slope (nearest channel at each time, averaged over the channels smeared within one spectrum when de-smearing), ignoring values outside the band. The table of rates lists for every row the slope, span in channels, rate in Hz/s and number of de-smeared bins consistent with it, independently for every row, and a constant signal drifting at a searched rate therefore integrates to its full power at its start channel.",
     ["inputs", "configurations"], "every spectrogram, rate range and step, positive, zero and negative drifts, spans up to and beyond the band, with and without de-smearing",
     "Tests integrate at most one spectrogram of one shape.",
     ["bliss/drift_search/integrate_drifts.cpp", "bliss/drift_search/kernels/drift_integration_cpu.cpp", "bliss/core/frequency_drift_plane.cpp"],
     [("rate table", "bliss/drift_search/integrate_drifts.cpp compute_drifts"), ("line integration", "bliss/drift_search/kernels/drift_integration_cpu.cpp")],
     ["plane values and rate table"], (),
     TV + "recorded calls judged by TLC against the line integral; exhaustive design check that an injected line is recovered",
     "Sums are exact on integer spectrograms with power-of-two lengths. " + TRUST)

prop("P14", "RFI counts of the drift plane count the flagged samples on each drift line",
     "For each drift rate and channel the plane's counts of band-edge, low and high spectral-kurtosis flags equal the number of samples with that flag on the very line whose power is integrated there. Samples with several flags count once under each; samples with other flags count under none, and the counts attached to a hit are those at its strongest drift.",
     ["inputs"], "every mask with any combination of flags, every rate",
     "No test looks at the RFI counts.",
     ["bliss/drift_search/kernels/drift_integration_cpu.cpp", "bliss/rfi/rfi.cpp", "bliss/core/include/core/flag_values.hpp", "bliss/drift_search/hit_search.cpp"],
     [("flag counting in the integration loop", "bliss/drift_search/kernels/drift_integration_cpu.cpp")],
     ["counts of the plane and of hits"], (),
     TV + "recorded calls judged by TLC", "Counts up to 255 (their stored width). " + TRUST)

prop("P15", "Connected components group the drift plane into correct candidate signals",
     "Every candidate found by the connected-components search is one connected group of bins above half the detection threshold (under the configured neighbourhood) grown from a bin above the threshold, no bin belongs to two candidates, and every bin above the threshold belongs to one. A candidate reports the location, power and signal-to-noise ratio of its strongest bin against the noise expected for that drift, and the width (distance between the outermost of its bins at that drift) and centre of those bins.",
     ["inputs", "configurations"], "every drift plane, threshold and neighbourhood",
     "Tests exercise one tiny plane and compare only the number of components.",
     ["bliss/drift_search/connected_components.cpp", "bliss/drift_search/kernels/connected_components_cpu.cpp", "bliss/drift_search/protohit_search.cpp"],
     [("flood fill", "bliss/drift_search/kernels/connected_components_cpu.cpp"), ("noise per drift", "bliss/drift_search/protohit_search.cpp")],
     ["candidates (protohits)"], (),
     TV + "the search modelled as an algorithm, checked against its declarative meaning on all small planes, and recorded runs judged by TLC", TRUST)

prop("P16", "The local-maxima search reports the peaks of the drift plane",
     "Every candidate found by the local-maxima search is a bin above the detection threshold whose neighbourhood lies in the plane and contains no bin with an equal or larger signal-to-noise ratio, and such a bin that lies neither in the neighbourhood of an equal or stronger bin nor on the falling flank of another peak is always reported. Each candidate's location, power, signal-to-noise ratio, width and limits (the run of bins around it at its drift that stay above threshold and fall off monotonically) describe that bin.",
     ["inputs", "configurations"], "every drift plane, threshold and neighbourhood",
     "The tests never find a local maximum.",
     ["bliss/drift_search/local_maxima.cpp", "bliss/drift_search/kernels/local_maxima_cpu.cpp", "bliss/drift_search/protohit_search.cpp"],
     [("neighbourhood comparison and visiting order", "bliss/drift_search/kernels/local_maxima_cpu.cpp")],
     ["candidates (protohits)"], (),
     TV + "the search modelled as an algorithm, checked against its declarative meaning on all small planes, and recorded runs judged by TLC", TRUST)

prop("P17", "Hits carry the physical parameters of the candidate they came from",
     "Every hit's start channel and frequency, drift rate in Hz/s, signal power above the noise floor, signal-to-noise ratio, bandwidth, start time, duration and coarse channel number are those implied by its candidate's plane location and the coarse channel's metadata, and a coarse channel yields exactly one hit per candidate. Searching a scan, target or cadence yields for each coarse channel what searching that channel yields, with positions relative to that channel's own frequencies, and a scan lists its channels' hits in channel order.",
     ["inputs", "configurations"], "every channel metadata (either sign of channel width), plane, options and level",
     "Tests build hits by hand; none derives one from data.",
     ["bliss/drift_search/hit_search.cpp", "bliss/drift_search/protohit_search.cpp", "bliss/core/hit.cpp", "bliss/core/scan.cpp"],
     [("candidate to hit", "bliss/drift_search/hit_search.cpp"), ("deferred hits of a channel", "bliss/core/coarse_channel.cpp set_hits"), ("collection", "bliss/core/scan.cpp hits")],
     ["hits of channels and scans"], (),
     TV + "end-to-end runs judged by TLC", "Frequencies compared as scaled integers on binary-friendly metadata. " + TRUST)

prop("P18", "Hit filtering removes exactly the interference it is told to",
     "Filtering keeps, in order and unchanged, exactly the hits that have no band-edge or low spectral-kurtosis flags along their drift and, when zero-drift filtering is requested, a drift rate other than zero (to within a millionth of a Hz/s). Filtering a coarse channel, scan, target or cadence filters the hits of every coarse channel that way and nothing else.",
     ["inputs", "configurations"], "every list of hits, combination of flag counts, drift, option and level",
     "No test filters hits.",
     ["bliss/drift_search/filter_hits.cpp"],
     [("predicates", "bliss/drift_search/filter_hits.cpp")],
     ["hits before and after"], (),
     TV + "recorded calls judged by TLC", TRUST)

prop("P19", "Events are seen in several ON scans and in no OFF scan",
     "Every reported event consists of hits from at least two different scans of the first target of the cadence, each matched, as the nearest hit of its scan, within the distance limit to the event so far, and no hit of any other target lies on average within the limit of the event's hits. No hit belongs to two events. Hits in different ON scans that are near to each other, to no other hit, and clear of all OFF hits are always reported as one event, with averages and starting values of exactly its hits. The search leaves the cadence and its hits as they were.",

     ["inputs"], "every cadence and every arrangement of hits in its scans",
     "No test searches for events.",
     ["bliss/drift_search/event_search.cpp", "bliss/core/event.cpp"],
     [("greedy matching and veto", "bliss/drift_search/event_search.cpp"), ("distance", "bliss/drift_search/event_search.cpp")],
     ["events of a cadence"], (),
     TV + "the search modelled as a state machine, its invariants model checked, and recorded runs judged by TLC",
     "Hits are placed so that distances are far from the limit compared with rounding. " + TRUST)

prop("P20", "Search results survive a round trip through their binary files",
     "Writing the hits of a list, coarse channel, scan, target or cadence, or the events of a cadence, to a binary file and reading it back yields the same hits in the same order with every field that files hold (all but the interference counts), grouped under the same channels, scans and targets with the same names, positions, times, frequencies and numbering. This holds also for channels nobody has looked at before, for slices and for members taken out of other objects. Writing replaces what the file held and does not change what is written, a second round trip changes nothing, and reading a file that is not there is refused. The saved (pickled) state of a hit restores the same fields.",
     ["inputs", "histories"], "every collection of hits, of any size including none",
     "Tests round trip one hit list and do not compare most fields.",
     ["bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/cpnp_hit_builder.cpp", "bliss/file_types/hit.capnp", "bliss/file_types/hits_file.cpp", "bliss/file_types/events_file.cpp"],
     [("field-by-field serialization", "bliss/file_types/detail/cpnp_hit_builder.cpp, bliss/file_types/cpnp_files.cpp")],
     ["objects before writing and after reading"], (),
     TV + "histories generated from the specification are replayed and judged by TLC", "Fields stored in single precision (duration, power, ratio, widths) are compared on representable values. " + TRUST)

prop("P21", "Exports and command-line results contain every hit in the documented form",
     "The text export has one line per hit, in order, with that hit's index, drift, signal-to-noise ratio, frequencies and coarse channel, after the documented header; the format written follows an explicit request or else the file extension, and is the binary one otherwise; reading refuses unknown formats. The hit-finding program writes for each input file, to the requested place and in the requested format, exactly the hits that the library finds with the same options; the conversion program exports exactly the hits of the file it is given.",
     ["inputs", "configurations"], "every list of hits, file name, format and combination of options",
     "The tests never run the programs or the text export.",
     ["bliss/file_types/dat_file.cpp", "bliss/file_types/hits_file.cpp", "bliss/bliss_find_hits.cpp", "bliss/bliss_hits_to_dat.cpp"],
     [("line formatting", "bliss/file_types/dat_file.cpp"), ("format dispatch", "bliss/file_types/hits_file.cpp"), ("pipeline of the program", "bliss/bliss_find_hits.cpp")],
     ["files written"], (),
     TV + "recorded runs of library and programs judged by TLC", TRUST)

prop("P22", "Passband correction and normalisation rescale every channel alike",
     "Normalising a coarse channel divides every sample by the channel's maximum; equalising divides each fine channel by the given response, whether given as an array or as a file, at every level (channel, scan, target, cadence). Mask, metadata and the original object are unchanged.",
     ["inputs", "configurations"], "every spectrogram, response and level",
     "No test equalises or normalises.",
     ["bliss/preprocess/normalize.cpp", "bliss/preprocess/passband_static_equalize.cpp"],
     [("per-channel correction", "bliss/preprocess/passband_static_equalize.cpp, bliss/preprocess/normalize.cpp")],
     ["data and mask of the result and of the original"], (),
     TV + "recorded calls judged by TLC", TRUST)

prop("P23", "Strong drifting signals are found end to end, and nothing else is",
     "A signal of constant power that drifts at one of the searched rates and clearly stands out of a quiet background leads, through reading the file, flagging, noise estimation, drift integration, hit search and filtering with any of their options, to a hit with its coarse and fine channel, its rate in Hz/s with the right sign, its frequency, power and start time; with the exceptions the options ask for (drift zero, band edge) and no hit lies where no signal passes. Signals far apart are found separately, in every scan of a target or cadence and by the hit-finding program alike. In a cadence, a signal that drifts on from scan to scan is reported as an event of exactly its hits if and only if it is seen in two or more ON scans and in no OFF scan.",
     ["inputs", "configurations"], "every file of background and signals, channelization, rate range, smearing, flagging options, search method and level",
     "Tests with data run single stages and compare no result with a known signal.",
     ["bliss/core/scan.cpp", "bliss/drift_search/integrate_drifts.cpp", "bliss/drift_search/hit_search.cpp", "bliss/drift_search/event_search.cpp", "bliss/bliss_find_hits.cpp"],
     [("the chain of stages", "bliss/bliss_find_hits.cpp"), ("deferred stages", "bliss/core/coarse_channel.cpp"), ("positions and rates", "bliss/drift_search/hit_search.cpp"), ("events over scans", "bliss/drift_search/event_search.cpp")],
     ["hits of scans and events of cadences"], (),
     TV + "composition of the drift and search specifications model checked for small spectrograms, and end-to-end runs judged by TLC", "Signals are at least as strong as needed to stand out of the noise they cause themselves; where a rate's line runs exactly between channels either is accepted. " + TRUST)

prop("P24", "The Python modules give what the library gives",
     "Everything the Python modules offer does what the library's own functions promise: arithmetic, comparisons, reductions, masked statistics, slices and raw files of numpy arrays of any layout and element type give the same values, shapes and types when seen by numpy, and leave their inputs unchanged; scans, targets and cadences opened in Python show the same channels, lookups, slices and headers; flaggers, estimators, drift integration, hit search, filtering and event search give the same masks, estimates, hits and events; result files written or read by Python, and pickled hits, carry the same contents. What the library refuses raises an exception in Python.",
     ["inputs", "configurations", "histories"], "every function offered by the modules, with arrays of every layout and element type, scalars of either kind, files, objects and options",
     "The Python modules have no tests.",
     ["bland/python/pybland.hpp", "bliss/core/include/core/pyblisscore.hpp", "bliss/drift_search/include/drift_search/pydrift_search.hpp", "bliss/flaggers/include/flaggers/pyflaggers.hpp", "bliss/estimators/include/estimators/pyestimators.hpp", "bliss/file_types/include/file_types/pyfile_types.hpp", "bliss/preprocess/include/preprocess/pypreprocess.hpp"],
     [("numpy arrays in, dlpack out", "bland/python/pybland.hpp, bland/bland/ndarray.cpp"), ("overloads by argument type", "bland/python/pybland.hpp"), ("properties and methods of objects", "bliss/core/include/core/pyblisscore.hpp"), ("options and hits as Python objects, pickles", "bliss/drift_search/include/drift_search/pydrift_search.hpp")],
     ["numpy's view of arrays returned by the modules, attributes of their objects, files they write"], (),
     TV + "behaviours and inputs generated from the specifications of the other properties are executed through the Python modules and judged by TLC against the same specifications", "Flag counts are not part of a hit's pickle and of files. " + TRUST)

prop("P25", "Power spectra, low-pass filters and channelizer responses",
     "The shifted power spectrum of a one-dimensional single-precision array, a view or not, has as many elements as the array, ordered from the most negative frequency to the most positive one with zero frequency at the element floor(N/2), and each element is the squared magnitude of the discrete Fourier transform at that frequency; the array is left as it was and arrays of other types are rejected. firdes gives the samples of sinc(fc t) about the middle of the filter times a Hamming window. The response of a coarse channel for even numbers of fine and coarse channels, and no more taps than fit, is the power response of the filter of cutoff 1/coarse and taps*coarse taps at the fine channels' resolution, summed over all coarse channels that fold into one, the zero frequency being the middle of the channel, and normalised to a maximum of one. bliss_generate_channelizer_response writes exactly that response, one 32-bit float per fine channel, for the sizes given by its options.",
     ["inputs", "configurations"], "every length and layout of signals, every number of taps and cutoff, every even number of fine and coarse channels",
     "No test calls any of this.",
     ["bland/bland/ops/frequency.cpp", "bland/bland/ops/cpu/frequency_cpu_impl.cpp", "bliss/preprocess/passband_static_equalize.cpp", "bliss/bliss_generate_channelizer_response.cpp"],
     [("layout of the signal, position of each frequency", "bland/bland/ops/cpu/frequency_cpu_impl.cpp:fft_shift_mag_square"), ("filter and fold", "bliss/preprocess/passband_static_equalize.cpp:firdes, gen_coarse_channel_response"), ("options and file", "bliss/bliss_generate_channelizer_response.cpp")],
     ["the returned arrays, the program's file"], (),
     TV + "results for generated signals, filters, responses and command lines are judged by TLC against a fixed-point definition of the transform (cosine transform of the circular autocorrelation), the window and the fold", "Odd numbers of coarse or fine channels, and filters longer than the channel, are outside. " + TRUST)
