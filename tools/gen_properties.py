import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
BN="bland/bland/"
p("B01","Array views address exactly the elements they denote and share them",
 "Any composition of slices (any start and end within the array, negative positions counted from the end, any positive stride), reshape, squeeze and unsqueeze of an array is a view whose element at every index is the element of the original array that the usual half-open, strided definition denotes, with the shape that definition implies. Reading through a view never touches an element outside it, and a write through one view (fill or slice assignment) is seen by every other view of those elements and changes no other element. Impossible requests (too many axes, a reshape to a different number of elements, squeezing an axis longer than one) are reported as exceptions.",
 ["inputs","programs"],"every array shape and dtype and every sequence of slice/reshape/squeeze/unsqueeze/assign operations on it",
 "tests slice three fixed arrays with positive bounds; composition, negative positions, uneven strides and writes through overlapping views are not sampled.",
 [BN+"ndarray.cpp",BN+"ndarray_slice.cpp",BN+"ops/ops.cpp"],[("slice","bland/bland/ops/ops.cpp:slice"),("reshape/squeeze/unsqueeze","bland/bland/ndarray.cpp"),("slice assignment","bland/bland/ndarray_slice.cpp")],
 ["ndarray::shape/strides/offsets","ndarray::scalarize<T>(index)","raw buffer"])
p("B02","Elementwise arithmetic equals the mathematical result for every layout",
 "For +, -, * and / between two arrays, or an array and a scalar on either side, every output element equals the scalar operation applied to the corresponding input elements, with operands broadcast by aligning trailing dimensions and size-1 dimensions repeated. This holds for every supported dtype and for operands that are arbitrary strided or offset views, the result has the broadcast shape, and neither operand is modified. Operands whose shapes cannot be broadcast together are rejected with an exception.",
 ["inputs"],"all shapes, broadcast pairs, dtypes, strided and offset views, and scalar operands on either side",
 "tests use dense equal-shape arrays and one broadcast; they reach no size-1 offset views, no scalar-left subtraction or division, few dtypes.",
 [BN+"ndarray.cpp",BN+"ops/arithmetic.cpp",BN+"ops/cpu/arithmetic_cpu.cpp",BN+"ops/cpu/arithmetic_scalar_cpu.cpp",BN+"ops/cpu/elementwise_binary_op.hpp",BN+"ops/cpu/elementwise_scalar_op.hpp",BN+"internal/include/internal/shape_helpers.cpp"],
 [("broadcast shape/stride/offset","bland/bland/internal/include/internal/shape_helpers.cpp"),("elementwise kernels","bland/bland/ops/cpu/elementwise_binary_op.hpp"),("dtype dispatch","bland/bland/internal/include/internal/dispatcher.hpp")],
 ["returned ndarray"])
p("B03","Comparisons, bitwise-and and counts produce the exact mask",
 "For <, <=, >, >=, == between arrays, or an array and a scalar on either side, the result is an unsigned 8-bit array that is 1 exactly where the comparison as written holds and 0 elsewhere, broadcasting like arithmetic and ignoring memory layout. Bitwise & of flag-valued (0..255) arrays, or such an array and a scalar, is exact per element, and counting true elements returns exactly the number of nonzero elements of the array viewed. Neither operand is modified.",
 ["inputs"],"all shapes, dtypes, broadcast pairs, strided/offset views, scalars on either side including boundary-equal values",
 "tests compare two dense arrays with one operator; scalar-left operators, broadcasting, views and ties are never reached.",
 [BN+"ops/comparison.cpp",BN+"ops/cpu/comparison_cpu.cpp",BN+"ops/cpu/comparison_cpu_impl.hpp",BN+"ops/cpu/statistical_cpu.cpp",BN+"ops/statistical.cpp"],
 [("comparison kernels","bland/bland/ops/cpu/comparison_cpu.cpp"),("count_true","bland/bland/ops/cpu/statistical_cpu.cpp")],["returned ndarray / count"])
p("B04","Sum, mean, variance and standard deviation reduce exactly the chosen axes",
 "sum, mean, stddev and var over any set of axes (or all) of any strided or offset view equal the reference statistic of exactly the elements along those axes, to floating-point accuracy, with the remaining axes as output shape. mean, var and stddev are mutually consistent (var is stddev squared; the combined mean-and-stddev call agrees with the separate ones) and stay finite for finite data, including constant data. The maximum and the median are those of the elements viewed, in every dtype. The standardized moment of a degree is the mean of the deviations raised to that degree over the deviation raised to it, both scaled by one less than the number of elements. Axes the array does not have, or given twice, are rejected with an exception. The input is not modified.",
 ["inputs"],"all shapes, axis subsets, views, float dtypes, value distributions (constant, large offset, wide range)",
 "tests use small dense arrays with one axis choice; no views, no multi-axis sets, no constant or cancelling data.",
 [BN+"ops/statistical.cpp",BN+"ops/cpu/statistical_cpu.cpp"],[("reduction kernels","bland/bland/ops/cpu/statistical_cpu.cpp")],["returned ndarray"])
p("B05","Masked statistics use exactly the unmasked samples",
 "The masked mean, variance, standard deviation and combined mean/standard-deviation of an array with a mask equal the plain statistic of exactly those elements whose mask entry is zero, whatever the memory layout of the data or of the mask. With an all-zero mask they equal the unmasked statistic, and the values of masked elements (even huge or NaN ones) never influence the result. Results for finite unmasked data are finite.",
 ["inputs"],"all shapes, data, mask patterns, layouts of data and mask (strided, offset, broadcast slices)",
 "tests use one dense 2-D array and dense mask; strided masks and extreme masked values are never tried.",
 [BN+"ops/statistical.cpp",BN+"ops/cpu/statistical_cpu.cpp"],[("masked reductions","bland/bland/ops/cpu/statistical_cpu.cpp")],["returned ndarray"])
p("B06","Copies, fills, casts and unary operations are exact and isolated",
 "copy, copy-into, type conversion, fill, square, sqrt and abs give, for every element of the (arbitrarily strided) input, exactly that element transformed, in an array of the same shape. The result owns its memory: later changes to either array are not seen through the other. A fill or assignment through a view changes only the elements of that view.",
 ["inputs","programs"],"all shapes, dtypes, strided/offset views as sources and destinations",
 "tests copy dense arrays and one slice.",
 [BN+"ops/ops.cpp",BN+"ops/cpu/ops_cpu.cpp",BN+"ops/cpu/assignment_op.hpp",BN+"ops/cpu/elementwise_unary_op.hpp"],[("copy/fill","bland/bland/ops/cpu/ops_cpu.cpp"),("unary kernel","bland/bland/ops/cpu/elementwise_unary_op.hpp")],["returned ndarray","source buffer"])
p("B07","Array creators produce exactly the requested contents",
 "zeros, ones, filled construction, arange and linspace return arrays of the requested shape and dtype whose every element is the requested value (for arange start + i*step for all i that stay below the end; for linspace start + i*(stop-start)/count). Random creators return values in their documented range/distribution and of the requested shape and type, or refuse the type; two draws differ.",
 ["inputs"],"all shapes, dtypes, start/stop/step combinations",
 "tests check a few fixed lengths and float only.",
 [BN+"ops/creators.cpp"],[("creators","bland/bland/ops/creators.cpp")],["returned ndarray"])
p("B08","Arrays written to a raw file read back identical; bad files are refused",
 "Writing a float array to a file and reading it back yields the same elements in row-major order bit for bit, including when the array written is a strided or offset view. A missing or unreadable file, or one whose size is not a whole number of elements, is reported without touching memory outside the array.",
 ["inputs","fault_sequences"],"all float arrays and views; all file sizes; missing files",
 "one test round-trips a dense array.",
 [BN+"ops/creators.cpp",BN+"ops/ops.cpp"],[("write_to_file/read_from_file","bland/bland/ops/ops.cpp, creators.cpp")],["file bytes","returned ndarray"])
p("B09","Deferred arrays evaluate as often as their policy says and never change value",
 "A deferred array built from a callable yields that callable's array on every read: eager calls it once at construction and never again, memoize calls it at most once however many copies are read, lazy calls it once per read and never before the first. A deferred array built from data never changes it, and moving it to a device does not change its values. Evaluating one that was given nothing is an exception.",
 ["programs","histories"],"all policies, sequences of copies, reads, device moves",
 "no test touches deferred arrays.",
 [BN+"ndarray_deferred.cpp"],[("evaluation policy","bland/bland/ndarray_deferred.cpp")],["callable invocation count","values read"])
p("B10","Array memory stays valid while any handle exists and is freed after the last",
 "For any sequence of constructing, copying, moving, viewing, exporting through DLPack, importing from a foreign DLPack tensor and destroying arrays, every live handle keeps reading valid, unchanged data. Foreign tensors get their deleter called exactly once, after the last array that uses them dies and not before, and no memory is leaked or freed twice. An exported tensor describes the same elements as the array it came from.",
 ["programs","histories"],"all operation sequences over array handles and exported/imported tensors",
 "tests never count deleter calls, never outlive an owner, and do not run under a memory checker.",
 [BN+"bland_tensor_internals.cpp",BN+"include/bland/detail/bland_tensor_internals.hpp",BN+"ndarray.cpp"],[("shared ownership and to_dlpack","bland/bland/bland_tensor_internals.cpp")],["ASan/LSan reports","foreign deleter counter","exported DLTensor"])
p("B11","The power spectrum of a series is that of its Fourier transform",
 "The frequency response computed for a one-dimensional float series of any length, dense or viewed through a stride or offset, holds in every bin the squared magnitude of the discrete Fourier transform at that bin's frequency, with zero frequency at index floor(n/2) and negative frequencies before it, to single-precision accuracy of the series' total magnitude; the bins sum to n times the energy of the series. Other dtypes and ranks, and the complex transform that does not exist on the CPU, are refused with an exception rather than answered. The input is not modified.",
 ["inputs"],"all lengths (odd, even, prime, one), layouts and series",
 "no test calls it; it is only reached through the passband correction.",
 [BN+"ops/frequency.cpp",BN+"ops/cpu/frequency_cpu_impl.cpp"],[("fft_shift_mag_square","bland/bland/ops/cpu/frequency_cpu_impl.cpp")],["returned ndarray"])
p("B12","Arrays beyond 2^31 elements are counted, viewed and computed exactly",
 "An array, view or file with more elements than 32 bits can count, or a view that starts or strides that far into its memory, obeys the same rules as a small one: its element count, every element read and written through it, and every operation, statistic, copy and creator over it concern exactly the elements it denotes. Sizes that cannot be represented or allocated are refused with an exception. This holds for fine channels of a scan as well.",
 ["inputs"],"arrays, broadcasts, views and files whose element counts, offsets or strides exceed 2^31 or 2^32, and impossible sizes",
 "every test uses arrays of at most a million elements, where 32-bit counters cannot overflow.",
 [BN+"ndarray.cpp",BN+"bland_tensor_internals.cpp",BN+"ops/cpu","bliss/core/scan.cpp"],[("element counts and offsets","bland/bland/ndarray.cpp, ops/cpu"),("allocation size","bland/bland/bland_tensor_internals.cpp"),("fine channel counts","bliss/core/scan.cpp")],["numel, elements read and written","returned arrays","exceptions"])
p("B13","Every element type, type name and device is handled exactly or refused",
 "Whatever the element types of the arrays involved (any width of signed, unsigned and floating numbers, alone and mixed), an operation, statistic, creator, scalar read, raw file, text or pipeline stage either computes the result for the values the arrays hold or is refused with an exception; the bytes of one type are never taken for another. The name of a type or device means exactly that type or device, other names are refused, and a device that is not present is never used: an object refusing one stays where it was, with its contents. An array nothing was put into is refused by every operation that needs its contents.",
 ["inputs","configurations"],"all element types and their mixtures for every operation and stage; all type and device names",
 "tests use float32, with uint8 masks, on the one device there is.",
 [BN+"internal/include/internal/dispatcher.hpp",BN+"ndarray.cpp",BN+"ops","bliss/core/coarse_channel.cpp"],[("dtype dispatch","bland/bland/internal/include/internal/dispatcher.hpp"),("scalar reads and names","bland/bland/ndarray.cpp"),("channel data and mask types","bliss/core/coarse_channel.cpp")],["returned arrays","exceptions","sanitizer reports"])
p("C01","A filterbank file's metadata and channel data reach the user unchanged",
 "Opening an HDF5 filterbank file gives a scan whose metadata equals the file's attributes and whose coarse channels partition the file's fine channels in order: coarse channel i holds, for every time step and fine channel, exactly the file's value at i*(fine channels per coarse)+fine, and an initial mask of the same shape with no flag set. Frequencies, channel counts and durations reported per coarse channel agree with that partition. It holds for every number of fine channels per coarse given, or derived from a known channelisation. Metadata set on a scan afterwards is what it and the channels read from then on report, its duration is always steps times sampling time, and copies made before are unaffected.",
 ["inputs","configurations"],"all file geometries, attribute values and coarse channelisations",
 "no test opens a filterbank file.",
 ["bliss/core/scan.cpp","bliss/file_types/h5_filterbank_file.cpp","bliss/core/coarse_channel.cpp"],[("hyperslab read","bliss/file_types/h5_filterbank_file.cpp:read_data"),("coarse channel construction","bliss/core/scan.cpp:read_coarse_channel"),("channelisation inference","bliss/core/scan.cpp:infer_number_coarse_channels")],["scan getters","coarse_channel::data/mask"])
p("C02","Slicing a scan, target or cadence selects exactly the named coarse channels",
 "Restricting a scan, observation target or cadence to a range of coarse channels (repeatedly, in any order) yields objects whose i-th channel has the data, frequencies and channel number of the original channel it denotes, and whose own first frequency, channel count and coarse-channel count match what remains. The original is unaffected. Looking a frequency up returns the coarse channel of the scan that contains it.",
 ["inputs","programs"],"all geometries and sequences of nested slices",
 "no test slices a scan.",
 ["bliss/core/scan.cpp","bliss/core/cadence.cpp"],[("slice_scan_channels","bliss/core/scan.cpp"),("slice_observation_channels/slice_cadence_channels","bliss/core/cadence.cpp"),("get_coarse_channel_with_frequency","bliss/core/scan.cpp")],["scan getters","coarse channel data"])
p("C03","Out-of-range coarse channels and slices are refused, never misread",
 "Asking any scan (from a file, sliced, or built from channels in memory) for a coarse channel that it does not have, or for a slice or frequency outside it, raises an exception; it never returns another channel's data, reads outside the file or crashes. Every index that does exist succeeds.",
 ["inputs","histories"],"all indices (negative, boundary, beyond), on scans of every origin",
 "no test requests an invalid channel.",
 ["bliss/core/scan.cpp","bliss/core/cadence.cpp"],[("bounds checks","bliss/core/scan.cpp:read_coarse_channel/peak_coarse_channel/slice_scan_channels")],["exceptions","returned channel number"])
p("C04","Pipeline stages apply lazily, in order, repeatably, and leave their source alone",
 "A stage (flagging, normalising, equalising, noise estimation, drift integration, hit search) applied to a scan, target or cadence acts on each coarse channel exactly as the same stages applied in the same order directly to that channel, no matter when or how often channels, masks, planes or hits are read. Reading anything twice gives the same result, and a stage never changes the data, mask or hits of the object it was applied to. Contents given as functions are the contents the functions return, and changing a copy's contents leaves the original's alone.",
 ["programs","histories"],"all stage sequences and read orders/repetitions on scans and channels",
 "no test runs two stages or reads a deferred result twice.",
 ["bliss/core/scan.cpp","bliss/core/coarse_channel.cpp","bliss/flaggers/filter_rolloff.cpp","bliss/flaggers/spectral_kurtosis.cpp","bliss/flaggers/magnitude.cpp","bliss/flaggers/sigmaclip.cpp","bliss/preprocess/normalize.cpp"],[("coarse channel transforms","bliss/core/scan.cpp:add_coarse_channel_transform"),("deferred masks/data","bliss/core/coarse_channel.cpp")],["values of data(), mask(), hits() across reads"])
p("C05","Hostile or unusual filterbank files give exact values or exceptions",
 "Any attribute stored with another numeric width, sign, byte order or string kind than expected is either converted to the same value or refused with an exception, and a missing mandatory attribute, missing or misshaped dataset, truncated or corrupted file is refused with an exception. No such file makes the library read or write outside its buffers, divide by zero, or return values that are not in the file.",
 ["inputs","fault_sequences"],"all attribute types/values, dataset shapes and byte-level corruptions/truncations of filterbank files",
 "no test reads any filterbank file.",
 ["bliss/file_types/h5_filterbank_file.cpp","bliss/core/scan.cpp"],[("typed attribute reads","bliss/file_types/h5_filterbank_file.cpp:read_data_attr"),("shape validation","bliss/file_types/h5_filterbank_file.cpp:get_data_shape")],["exceptions","sanitizer reports","scan getters"])
p("C06","Targets and cadences require consistent scans and act on all of them",
 "An observation target or cadence built from scans with the same coarse-channel geometry is accepted and keeps every scan, in order, with its target name; scans that clearly disagree in first frequency, channel width, fine-channel count or coarse-channel count are reported as inconsistent and refuse questions that need a common geometry. Every stage and every slice applied to a target or cadence is applied to every scan in it, once.",
 ["inputs","configurations"],"all numbers of targets and scans, consistent and inconsistent geometries, all stages",
 "no test builds a target or cadence from real scans.",
 ["bliss/core/cadence.cpp"],[("validate_scan_consistency","bliss/core/cadence.cpp"),("target/cadence overloads of stages","bliss/flaggers, bliss/preprocess, bliss/estimators, bliss/drift_search")],["exceptions","per-scan results"])
p("F01","Rolloff flagging marks exactly the requested band edges",
 "Rolloff flagging with width w sets the rolloff flag on every time step of exactly the round(w*N) lowest and round(w*N) highest of a coarse channel's N fine channels (never more than there are), and on no other sample. Every other flag bit and the data are unchanged.",
 ["inputs"],"all channel counts, time steps and widths incl. zero-channel and half-band widths",
 "no test covers any flagger.",
 ["bliss/flaggers/filter_rolloff.cpp"],[("flag_filter_rolloff","bliss/flaggers/filter_rolloff.cpp")],["coarse_channel::mask"])
p("F02","Spectral-kurtosis flags follow the estimator channel by channel",
 "Each fine channel's spectral kurtosis is ((M*N*d+1)/(M-1))*(M*S2/S1^2-1) of its M time samples, N being the integrations per sample, and a channel is flagged low-SK on all its time steps exactly when it is below the lower threshold, high-SK exactly when above the upper one, and neither otherwise. The flags of one channel depend on that channel's samples only.",
 ["inputs"],"all channel contents (noise, carriers, bursts, constant), geometries, thresholds and d",
 "no test covers any flagger.",
 ["bliss/flaggers/spectral_kurtosis.cpp","bliss/estimators/spectral_kurtosis.cpp"],[("estimate_spectral_kurtosis","bliss/estimators/spectral_kurtosis.cpp"),("flag_spectral_kurtosis","bliss/flaggers/spectral_kurtosis.cpp")],["coarse_channel::mask","estimate array"])
p("F03","Magnitude and sigma-clip flags mark exactly the out-of-range samples",
 "Magnitude flagging sets its flag on exactly the samples above the threshold given (by default the mean plus ten standard deviations of the channel). Sigma clipping flags exactly the samples rejected by iterating up to the requested number of times: discard samples outside mean minus lower*sigma .. mean plus upper*sigma of those still kept, while all other flag bits stay.",
 ["inputs"],"all channel contents, thresholds, iteration counts",
 "no test covers any flagger.",
 ["bliss/flaggers/magnitude.cpp","bliss/flaggers/sigmaclip.cpp"],[("flag_magnitude","bliss/flaggers/magnitude.cpp"),("flag_sigmaclip","bliss/flaggers/sigmaclip.cpp")],["coarse_channel::mask"])
p("F04","Flags only accumulate: stages in any order give the union of their bits",
 "Running any sequence of flagging stages on a coarse channel, repeats and any order included, leaves on every sample exactly the union of the flags each stage assigns, together with the flags the channel already had. A flag already set is never cleared or turned into a different flag, and flagging never changes the samples.",
 ["programs","inputs"],"all orders and repetitions of flagging stages on channels with arbitrary initial masks",
 "no test covers any flagger, let alone two.",
 ["bliss/flaggers"],[("mask combination","bliss/flaggers/*.cpp")],["coarse_channel::mask"])
p("N01","Noise estimates describe exactly the unflagged samples",
 "A coarse channel's noise floor and noise power are the mean and standard deviation of its samples, restricted to unflagged samples when masked estimation is requested; the amplitude is the square root of the power. Flagged samples, however strong, have no influence on the masked estimate, and estimating from a fully flagged channel or with an unimplemented method is an exception, never a silent number.",
 ["inputs"],"all channel contents, masks and methods",
 "no test covers the estimator.",
 ["bliss/estimators/noise_estimate.cpp","bliss/core/noise_power.cpp"],[("estimate_noise_power","bliss/estimators/noise_estimate.cpp")],["noise_stats"])
p("N02","Normalising scales a channel to peak one and keeps its shape",
 "Normalising a coarse channel (directly or through a scan, target or cadence) divides every sample by the channel's maximum, so the largest sample becomes one and all ratios between samples are kept. Mask, metadata and the source object stay unchanged.",
 ["inputs"],"all channel contents and geometries",
 "no test covers preprocessing.",
 ["bliss/preprocess/normalize.cpp"],[("normalize","bliss/preprocess/normalize.cpp")],["coarse_channel::data"])
p("N03","Passband equalisation divides every spectrum by the channel response",
 "Equalising a coarse channel with a response divides every time step's spectrum by that response, fine channel by fine channel, whether asked of a channel, scan, target or cadence; and a response of the wrong length (neither one value nor one per fine channel) is refused. The generated response is the squared magnitude response of the designed low-pass prototype folded to one coarse channel: positive, of the requested length, peaking at one, and symmetric about the channel's centre.",
 ["inputs","configurations"],"all channel contents, responses, coarse/fine counts, taps and windows",
 "no test covers preprocessing.",
 ["bliss/preprocess/passband_static_equalize.cpp"],[("equalize_passband_filter","bliss/preprocess/passband_static_equalize.cpp"),("firdes/gen_coarse_channel_response","bliss/preprocess/passband_static_equalize.cpp")],["coarse_channel::data","response array"])
p("D01","Drift integration sums the spectrum along every drift line",
 "Every cell of the frequency-drift plane equals the average over time of the spectrum samples on the line that starts at that frequency channel and drifts by that row's rate, averaged over the channels the signal smears across per step when desmearing is on. Samples beyond the upper edge contribute nothing, cells at negative rates whose line would leave the lower edge stay empty, and no sample outside the line contributes. It holds for positive, zero and negative drifts and for both integration implementations.",
 ["inputs","configurations"],"all spectra, geometries, drift ranges, resolutions, desmear settings",
 "no test covers drift integration.",
 ["bliss/drift_search/kernels/drift_integration_cpu.cpp","bliss/drift_search/kernels/drift_integration_bland.cpp","bliss/drift_search/integrate_drifts.cpp"],[("integrate_linear_rounded_bins_cpu","bliss/drift_search/kernels/drift_integration_cpu.cpp"),("integrate_linear_rounded_bins_bland","bliss/drift_search/kernels/drift_integration_bland.cpp")],["frequency_drift_plane::integrated_drift_plane"])
p("D02","Flag counts along a drift line equal the flagged samples on it",
 "For every cell of the frequency-drift plane and each kind of flag tracked, the count kept with the plane is the number of flagged samples of that kind on the cell's drift line, saturating at the largest representable count instead of wrapping. A cell whose line touches a flagged sample therefore never reports zero.",
 ["inputs","configurations"],"all masks, geometries, drift ranges incl. lines with more than 255 samples",
 "no test covers flag counting.",
 ["bliss/drift_search/kernels/drift_integration_cpu.cpp","bliss/core/include/core/frequency_drift_plane.hpp"],[("rfi accumulation","bliss/drift_search/kernels/drift_integration_cpu.cpp")],["frequency_drift_plane::integrated_rfi"])
p("D03","The drift-rate table matches the requested search range",
 "For every requested lowest/highest drift and resolution multiplier, the rates searched start at the lowest, are evenly spaced by the resolution, cover the range up to the highest exclusive, and each reported rate in Hz/s equals its slope in channels per time step times channel width over time step. The desmear width per rate is the smear in channels per time step, at least one. A search range that is empty or cannot be represented, a single time step, or a mask that does not cover the data raises an exception rather than crashing.",
 ["configurations","inputs"],"all search ranges, resolutions, channel widths (either sign), time steps, geometries",
 "no test computes drift rates.",
 ["bliss/drift_search/kernels/drift_integration_bland.cpp","bliss/drift_search/integrate_drifts.cpp"],[("compute_drifts","bliss/drift_search/kernels/drift_integration_cpu.cpp / _bland.cpp")],["frequency_drift_plane::drift_rate_info"])
p("D04","Connected-component search reports every significant peak once",
 "With the connected-component method every plane cell above the SNR threshold belongs to exactly one reported cluster, cells closer than the link distance share a cluster and cells that no chain of above-half-threshold links joins do not. Each cluster reports its own maximum cell, its noise-relative SNR and its flag counts, and nothing below the threshold is reported. The component search over a binary mask partitions its set cells into the groups its neighbourhood connects.",
 ["inputs","configurations"],"all drift planes, noise estimates, thresholds and link distances",
 "no test runs hit search.",
 ["bliss/drift_search/kernels/connected_components_cpu.cpp","bliss/drift_search/connected_components.cpp","bliss/drift_search/protohit_search.cpp"],[("find_components_in_binary_mask/threshold","bliss/drift_search/kernels/connected_components_cpu.cpp")],["protohits"])
p("D05","Local-maxima search reports exactly the significant neighbourhood maxima",
 "With the local-maxima method a cell is reported exactly when its SNR exceeds the threshold, its whole neighbourhood (L1 distance below the link distance) lies in the plane, and no neighbour has a higher SNR. Ties are not maxima. Each reported peak carries its own SNR, flag counts and frequency edges that bracket it.",
 ["inputs","configurations"],"all drift planes, noise estimates, thresholds and link distances",
 "no test runs hit search.",
 ["bliss/drift_search/kernels/local_maxima_cpu.cpp","bliss/drift_search/local_maxima.cpp"],[("find_local_maxima_above_threshold","bliss/drift_search/kernels/local_maxima_cpu.cpp")],["protohits"])
p("D06","Each reported hit describes the signal cell it was found at",
 "Every field of a hit follows from the plane cell and the scan's metadata: start frequency from the channel position, drift rate from the row, power above the noise floor, SNR relative to the noise expected after integrating that row, bandwidth from the cluster's width, start time and duration from the scan, and the coarse channel it was found in. No field is left undefined.",
 ["inputs","configurations"],"all planes, geometries and scan metadata",
 "no test runs hit search.",
 ["bliss/drift_search/hit_search.cpp","bliss/drift_search/protohit_search.cpp","bliss/core/hit.cpp"],[("hit_search","bliss/drift_search/hit_search.cpp")],["hit fields"])
p("D07","Hit filtering removes exactly the hits the options name",
 "Filtering hits removes a hit exactly when a rolloff-flagged or a low-spectral-kurtosis-flagged sample lies on its drift line, or when zero-drift filtering is enabled and its drift rate is zero (below 1e-6 Hz/s in magnitude). Every other hit is kept, whatever its other flag counts; kept hits keep their order and every field, and the list given is unchanged. The same holds for a coarse channel, scan, target or cadence.",
 ["inputs","configurations"],"all hit lists and option combinations",
 "no test filters hits.",
 ["bliss/drift_search/filter_hits.cpp"],[("filter_hits","bliss/drift_search/filter_hits.cpp")],["returned hits"])
p("D08","A strong drifting signal is found once, at its frequency and drift",
 "For a scan holding noise and well separated, strong, linearly drifting narrow-band signals within the search range, the full pipeline (any order of flagging that does not flag the signals, noise estimate, integration, hit search by either method) reports for each signal a hit at its frequency and drift rate to within the search resolution, and no strong hit away from every signal. Results do not depend on which coarse channel of the band the signal sits in.",
 ["inputs","configurations"],"all signal frequencies, drifts of either sign, strengths, channel geometries, search options",
 "no test runs the pipeline.",
 ["bliss/drift_search","bliss/core/scan.cpp","bliss/estimators/noise_estimate.cpp"],[("pipeline","bliss/drift_search/*.cpp")],["scan::hits"])
p("D09","Events are built only from ON hits that recur and are absent from OFF scans",
 "Event search over a cadence returns events each consisting of hits from at least two distinct ON scans that are near one another after propagating each hit's drift to the other's time, with no OFF scan holding a hit near the event. No hit is used in two events, every event's averages equal the averages of its hits, and a signal present in every ON scan and no OFF scan produces one event.",
 ["inputs"],"all cadences with arbitrary hit lists in ON and OFF targets",
 "no test searches for events.",
 ["bliss/drift_search/event_search.cpp","bliss/core/event.cpp"],[("event_search","bliss/drift_search/event_search.cpp")],["events"])
p("S01","Hits written to a hits file read back equal",
 "A list of hits written to a Cap'n Proto hits file reads back as the same number of hits in the same order, with every stored field equal to the precision of its storage, for every finite value (integers within 32 bits). Extreme, negative, zero, empty and very long lists included; a list that cannot be written completely is an exception.",
 ["inputs"],"all hit lists and field values",
 "the tests round-trip two fixed hits.",
 ["bliss/file_types/cpnp_files.cpp","bliss/file_types/detail/cpnp_hit_builder.cpp","bliss/file_types/hits_file.cpp","bliss/file_types/hit.capnp"],[("hit serialisation","bliss/file_types/detail/cpnp_hit_builder.cpp")],["hits read back"])
p("S02","Channels, scans, targets and cadences survive a hits-file round trip",
 "Writing a coarse channel, scan, observation target or cadence with its hits and reading it back gives the same structure (channels, scans and targets in order), the same stored metadata fields (frequencies, times, source, position, telescope, channel and step counts, channel number) and each channel's own hits; what the file does not hold (data, masks, planes, noise) is refused. Writing a scan saves the hits of all its channels whether or not they had been read before, however many there are.",
 ["inputs","histories"],"all structures, metadata, hit distributions over channels and scans",
 "tests round-trip one coarse channel; the scan test fails as committed.",
 ["bliss/file_types/cpnp_files.cpp","bliss/core/scan.cpp","bliss/core/cadence.cpp"],[("scan/target/cadence serialisation","bliss/file_types/cpnp_files.cpp")],["objects read back"])
p("S03","The dat output lists exactly the hits with their values",
 "A dat file written for a scan has the fixed header with the scan's metadata and exactly one row per hit, in order, each row's columns equal to the hit's values at the printed precision, under a header naming each column. Output that cannot be written completely is an exception. Reading the file back gives a scan with the start time, sampling time, channel width and hits that were written, and closes exactly the descriptors it opened.",
 ["inputs"],"all hit lists and scan metadata",
 "no test writes a dat file.",
 ["bliss/file_types/dat_file.cpp","bliss/file_types/hits_file.cpp"],[("write_hits_to_dat_file","bliss/file_types/dat_file.cpp")],["file text"])
p("S04","Truncated or corrupted result files never yield invented data or memory errors",
 "Reading a hits, events, scan or cadence file that was cut short at any byte yields an exception or a prefix of what was written, never extra or altered hits; a file with altered bytes yields an exception or some value, without a crash or memory error. A path that cannot be opened is an exception.",
 ["crash_points","fault_sequences"],"every truncation point and sampled byte corruptions of every kind of result file",
 "tests only read intact files.",
 ["bliss/file_types/cpnp_files.cpp","bliss/file_types/hits_file.cpp","bliss/file_types/events_file.cpp"],[("message reading","bliss/file_types/cpnp_files.cpp"),("file descriptors","bliss/file_types/detail/raii_file_helpers.cpp")],["returned hits","exceptions","sanitizer reports"])
p("S05","Events written to a file read back equal",
 "A list of events written to an events file reads back with the same number of events in the same order, each with the same hits in the same order to storage precision, including events of zero or very many hits. A list that cannot be written completely is an exception.",
 ["inputs"],"all event lists",
 "no test writes events.",
 ["bliss/file_types/events_file.cpp","bliss/file_types/cpnp_files.cpp"],[("event serialisation","bliss/file_types/events_file.cpp")],["events read back"])
p("S06","Hits compare, order, copy and print by all of their values",
 "Two hits are equal exactly when every value of theirs is, the order of hits is a strict total order consistent with that equality (so sorting, sets and duplicate removal keep exactly the distinct hits), a hit's state put into any other hit makes it equal to the first, and the text of a hit or event shows its own values at the printed precision.",
 ["inputs"],"all pairs, sets and states of hits, in particular those that differ in one value by the least amount",
 "tests compare two fixed hits field by field, never with the operators.",
 ["bliss/core/include/core/hit.hpp","bliss/core/hit.cpp","bliss/core/event.cpp"],[("comparison operators","bliss/core/include/core/hit.hpp"),("state","bliss/core/hit.cpp"),("text","bliss/core/hit.cpp, event.cpp")],["operator results","set contents","states","texts"])
p("L01","The command-line tools produce the library's result for the options given",
 "bliss_find_hits run on a filterbank file writes, for the options given (channel range, drift range, thresholds, flagging and equalising switches, output format), the same hits the library pipeline with those options produces, each input file (of distinct names) to its own default output file. bliss_hits_to_dat converts a scan's hits file to a dat with the same hits and bliss_generate_channelizer_response writes the response of the given sizes. All report failure, an unusable command line included, through their exit status.",
 ["configurations","inputs"],"all option combinations and input files",
 "no test runs a program.",
 ["bliss/bliss_find_hits.cpp","bliss/bliss_hits_to_dat.cpp","bliss/bliss_generate_channelizer_response.cpp"],[("command-line mapping","bliss/bliss_find_hits.cpp")],["output files"])
p("P01","Python bindings exchange arrays and results faithfully",
 "Arrays passed between numpy and the library through the Python modules keep shape, dtype and values, share or copy as documented, and stay valid after either side drops its reference. Slicing, statistics, and arithmetic in the array's own dtype give the numpy result from Python. Objects taken from others (channels, planes, hits, array views) stay valid and unchanged after those are dropped, copies and pickles of hits keep every value, and unsupported arguments are Python exceptions that damage nothing. Pipeline results read from Python equal those of the same calls from C++, and so do the files written.",
 ["programs","inputs"],"all arrays, dtypes, layouts and object lifetimes",
 "the C++ tests never load the Python modules.",
 ["bland/python","bliss/python"],[("nanobind bindings","bland/python/pybland.hpp")],["numpy arrays"])
p("P02","Python hit tables and plots show the hits and spectra they are given",
 "get_hits_list gives one row for every hit of a channel, scan, observation target or cadence (of any number of targets), in order, each with the hit's own values and an origin that tells scans apart. plot_hits draws one figure for all hits, or one for each hit it is asked to focus on, in order; every picture of the spectrum or of the drift plane shows the channel's own samples around the hit at the frequencies, times and drift rates it is labelled with (cut at the edges of the band, also for hits at the edges and wider than the channel, ascending and descending bands), and the line and box of every shown hit lie where the hit is. scatter_matrix_hits charts exactly the hits it is given, every pair of the quantities it shows, with a histogram of each, all of them quantities the hits have. Drawing changes neither the channel nor its hits.",
 ["inputs"],"all channels, hit positions and widths, band directions, and numbers of scans and targets",
 "no test imports the Python package; the functions only show their mistakes on particular hit positions and band directions.",
 ["bliss/python/blissdedrift"],[("plot_utils","bliss/python/blissdedrift/plot_utils")],["matplotlib and altair are recording stand-ins"])
p("T01","Independent channels and scans can be processed concurrently",
 "Processing distinct scans or coarse channels from different threads at once gives exactly the results of processing them one after another, with no data race, whatever the schedule.",
 ["schedules"],"all thread interleavings of pipelines over distinct channels/scans",
 "tests are single threaded.",
 ["bland/bland","bliss"],[("absence of shared mutable state","bland/bland/config.cpp, library-wide")],["TSan reports","results"])
p("R01","The same work gives the same result, whatever came before it",
 "Reading the same files and applying the same operations (pipelines over channels, scans, targets and cadences, array operations, estimators, result files, and requests that are refused) yields bit for bit the same arrays, masks, noise estimates, hits, events, refusals and written files: when repeated in one process, in a process that did other work before, in a fresh process, on another thread, and whatever the memory and stack the process is given held before. Only the generators of random arrays are exempt.",
 ["histories","programs"],"all pipelines, array programs and result files; all preceding work; all previous contents of memory",
 "each test runs once in its own process and compares with a constant; a value left uninitialised or carried over from earlier work is usually zero there.",
 ["bland/bland","bliss"],[("array allocation","bland/bland/ndarray.cpp"),("pipeline stages","bliss/"),("drift plane and flag counts","bliss/drift_search/kernels/drift_integration_bland.cpp")],["arrays, masks, hits, events, result files"])
p("R02","Finished work leaves nothing open, allocated or lying about",
 "After work of any kind is finished and its results are dropped - including work refused part of the way, such as files that cannot be read, channels out of range, results that cannot be written or estimates with no samples - the process holds no more open descriptors or HDF5 identifiers than before it, no file exists that the work was not asked to write, and repeating the work does not make the memory in use grow without bound.",
 ["histories","fault_sequences"],"all pipelines, array programs and result files, completed or refused, repeated any number of times",
 "tests open a handful of files once and exit.",
 ["bland/bland","bliss"],[("file handles","bliss/file_types/h5_filterbank_file.cpp, cpnp_files.cpp"),("shared ownership of pipelines","bliss/core/scan.cpp, coarse_channel.cpp"),("array ownership","bland/bland/ndarray.cpp")],["/proc/self/fd","HDF5 identifier counts","heap bytes in use","scratch directory"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80
print(len(P))
