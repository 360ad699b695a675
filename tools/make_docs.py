#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mechanism=mechanism, observe=observe,
                  technique=technique, note=note, level=level))


prop("C01", "The compiled numerical code is memory safe and never crashes the interpreter",
     "Whatever arguments a Python caller passes to the public numerical functions (shapes, sizes, dtypes, widths, factors, periods, NaN or infinite "
     "samples), the compiled code never reads or writes outside its arrays, never executes undefined arithmetic and never kills or hangs the process: "
     "it returns a result or raises a Python exception.",
     ["inputs"], "all argument values, sizes and memory layouts of every compiled entry point, including boundary sizes (0, 1, one below/above a limit)",
     "The tests call each kernel on a few benign shapes without any memory checker; an out-of-bounds access of a few floats goes unnoticed.",
     ["riptide/cpp/python_bindings.cpp", "riptide/cpp/snr.hpp", "riptide/cpp/transforms.hpp", "riptide/cpp/periodogram.hpp",
      "riptide/cpp/downsample.hpp", "riptide/cpp/running_median.hpp", "riptide/cpp/kernels.hpp", "riptide/cpp/block.hpp"],
     [("argument checks of the bindings", "riptide/cpp/python_bindings.cpp"), ("buffer sizing of the periodogram", "riptide/cpp/periodogram.hpp"),
      ("argument checks of the Python wrappers", "riptide/libffa.py")],
     ["sanitizer reports, signals and hangs of the process that makes the calls"],
     "AddressSanitizer + UndefinedBehaviorSanitizer builds of the extension under generated calls",
     "Every compiled entry point runs instrumented under tens of thousands of random, boundary and hostile calls; planted overflows (canaries) prove "
     "in each run that the sanitizer is live. Trusts the sanitizers; says nothing of argument combinations not generated.")

prop("C02", "Results are deterministic and calls leave their arguments alone",
     "Two calls of any search, transform, filtering, folding or peak-finding function with equal arguments give bit-identical results, whatever was "
     "computed before, whatever the memory allocator hands out and in whatever process; results contain no uninitialised values, and no function "
     "modifies an array or object passed to it unless asked to work in place.",
     ["inputs", "histories"], "all inputs, all earlier call histories, all states of the heap",
     "Tests make each call once in a fresh process and look at a few output values; dependence on stale memory or on earlier calls is invisible.",
     ["riptide/cpp/python_bindings.cpp", "riptide/cpp/periodogram.hpp", "riptide/cpp/transforms.hpp", "riptide/libffa.py", "riptide/search.py",
      "riptide/time_series.py", "riptide/folding.py"],
     [("scratch buffers of the periodogram", "riptide/cpp/periodogram.hpp"), ("output allocation in the bindings", "riptide/cpp/python_bindings.cpp"),
      ("copies made by TimeSeries operations", "riptide/time_series.py")],
     ["returned arrays and objects", "arguments after the call"],
     "differential runtime monitoring: repeated and cross-process calls under heap poisoning",
     "Bitwise comparison of repeated calls, in one process with poisoned freed blocks and across processes with different allocator fill patterns.")

prop("C03", "The FFA transform adds the right samples for every shape",
     "For every two-dimensional input of m rows and p columns, row s of the FFA transform is the sum of all input rows, each circularly shifted so that "
     "the total drift from first to last row is s bins and every output sample contains exactly one sample of each input row, following the "
     "documented recursive pairing of half transforms with nearest-integer row indices. This holds for one, odd, prime and very large numbers of rows.",
     ["inputs"], "all shapes (m, p) and all data",
     "One test compares with a Python transcription on one random shape.",
     ["riptide/cpp/transforms.hpp", "riptide/cpp/kernels.hpp", "riptide/libffa.py"],
     [("recursive merge of head and tail", "riptide/cpp/transforms.hpp"), ("fused rollback and add", "riptide/cpp/kernels.hpp")],
     ["output of ffa1 / ffa2"],
     "runtime oracle: exact integer model of the transform, bitwise",
     "Bitwise agreement with an independent exact model on integer data, and recovery of every row's path from coded impulses.")

prop("C04", "Trial frequencies and periods describe the rows of the transform",
     "The trial frequencies and periods advertised for an N-sample FFA transform with p bins are one per transform row, start at the base period, are "
     "consistent reciprocals in physical units, increase in period by one bin of drift over the data per row, and a pulse train at any advertised "
     "trial period has its maximum in the row advertised for it.",
     ["inputs"], "all lengths, base periods, sampling times and trial rows",
     "Tests check the value of one frequency array of one shape.",
     ["riptide/libffa.py", "riptide/cpp/periodogram.hpp"],
     [("ffafreq and ffaprd formulae", "riptide/libffa.py")],
     ["ffafreq, ffaprd, and the transform of synthesised pulse trains"],
     "runtime oracle: closed-form grid, and pulse trains located in real transforms",
     "Grid recomputed in double precision; pulse trains synthesised at advertised periods are located in the real transform.")

prop("C05", "Boxcar S/N equals the matched-filter response maximised over phase",
     "For every profile, the S/N returned for a trial width w is the largest response, over all circular phases, of the zero-mean unit-norm boxcar "
     "filter of w bins, divided by the given noise standard deviation; array shape and order of width trials are preserved, and widths, noise levels or "
     "inputs outside the documented domain are refused.",
     ["inputs"], "all profile lengths, contents, width lists, noise levels and array ranks",
     "Tests check a couple of profiles and three error cases.",
     ["riptide/cpp/snr.hpp", "riptide/cpp/kernels.hpp", "riptide/libffa.py", "riptide/cpp/python_bindings.cpp"],
     [("circular prefix sum and maximum difference", "riptide/cpp/snr.hpp"), ("input checks", "riptide/libffa.py")],
     ["output of boxcar_snr"],
     "runtime oracle: brute-force float64 matched filter",
     "Every value recomputed by a brute-force filter bank in float64, with a float32 error bound.")

prop("C06", "Downsampling is exact area-weighted regrouping by any real factor",
     "Downsampling by any real factor f in the allowed range gives floor(N/f) samples, each of which is the sum of the input samples weighted by the "
     "fraction of them that falls inside its interval; nothing is counted twice or lost in between, the input stays untouched, and factors outside the "
     "allowed range are refused.",
     ["inputs"], "all data lengths, contents and real factors, including integers, near-integers and the data length",
     "Tests downsample one array by one or two factors.",
     ["riptide/cpp/downsample.hpp", "riptide/libffa.py", "riptide/cpp/python_bindings.cpp"],
     [("weights of the first and last sample of a group", "riptide/cpp/downsample.hpp")],
     ["output of downsample"],
     "runtime oracle: differences of the exact cumulative integral",
     "Every sample recomputed from a cumulative integral (a different algorithm); bitwise for integer factors on integer data.")

prop("C07", "Running medians equal true medians of the padded sliding window",
     "The running median of any series is, at each sample, the median of the window centred there with the edge values repeated beyond both ends; the "
     "fast variant equals that median of the block-averaged series linearly interpolated back to full resolution. Window widths outside the "
     "documented domain are refused.",
     ["inputs"], "all lengths, window widths, scrunching settings and data (ties, constants, monotone series, outliers)",
     "Tests compare a few widths on one random array.",
     ["riptide/cpp/running_median.hpp", "riptide/running_medians.py"],
     [("ordered window with insertion and removal", "riptide/cpp/running_median.hpp"), ("scrunching and interpolation", "riptide/running_medians.py")],
     ["output of running_median and fast_running_median"],
     "runtime oracle: numpy medians of the padded windows, bitwise",
     "Bitwise comparison of every sample with sorted windows.")

prop("C08", "The search covers the requested period range completely and in order",
     "The trial periods of a search increase strictly, start at the requested minimum period, extend to the requested maximum (or to what the data allow), "
     "stay inside the documented bounds, leave no gap wider than one bin of drift over the data, and each carries the number of phase bins it was "
     "folded with, which lies between the requested limits; width trials grow geometrically from one bin to the largest allowed duty cycle. "
     "Inconsistent search parameters are refused.",
     ["inputs", "configurations"], "all data lengths, sampling times, period ranges, bin ranges, width settings",
     "Tests run two or three fixed searches and look at the number of trials of one.",
     ["riptide/cpp/periodogram.hpp", "riptide/search.py", "riptide/ffautils.py", "riptide/periodogram.py"],
     [("search plan: downsampling factors, bins, rows evaluated", "riptide/cpp/periodogram.hpp"), ("width trials", "riptide/ffautils.py"),
      ("parameter checks", "riptide/search.py")],
     ["periods, foldbins, widths of the returned periodogram"],
     "runtime oracle: independent grid model plus model-free coverage monitors",
     "Every trial compared with an independently derived plan; coverage and ordering also asserted without any model. One known finding: the documented "
     "fpmin cap is not applied.")

prop("C09", "Every S/N of a periodogram is the S/N of that trial in the data",
     "Each S/N value of a periodogram equals the one obtained by downsampling the data to that trial's resolution, transforming it, taking the row of "
     "that trial period and applying the boxcar of that trial width, with the noise level that downsampling gives to unit-variance white noise. On unit "
     "white noise the S/N of a fixed phase is thus calibrated to unit standard deviation.",
     ["inputs", "configurations"], "all searches: data, sampling time, period and bin ranges, downsampling factors, width trials",
     "Tests check the shape of a periodogram and that a bright signal is found.",
     ["riptide/cpp/periodogram.hpp", "riptide/cpp/downsample.hpp", "riptide/cpp/snr.hpp", "riptide/search.py"],
     [("per-bins transform and S/N evaluation", "riptide/cpp/periodogram.hpp"), ("variance of downsampled noise", "riptide/cpp/downsample.hpp")],
     ["snrs of the returned periodogram"],
     "runtime oracle: float64 recomputation of every S/N from independent models",
     "All values of every generated search recomputed in float64 by independent models; calibration compared with exact regrouping weights.")

prop("C10", "Folding conserves the data and respects phase, bins and sub-integrations",
     "Folding at any period averages exactly the full rotations present in the data into the requested number of phase bins, weighting samples by overlap "
     "and scaling to unit noise variance; the sub-integrations partition those rotations evenly, their number is the one requested (or all rotations if "
     "left blank) and their sum is the folded profile. Impossible requests are refused.",
     ["inputs"], "all series, periods, bins and sub-integration counts, including whole numbers of rotations and limits",
     "Tests fold one generated pulsar and check shapes.",
     ["riptide/folding.py", "riptide/time_series.py"],
     [("regrouping to whole bins and sub-integrations", "riptide/folding.py")],
     ["output of TimeSeries.fold"],
     "runtime oracle: float64 folding model and conservation checks",
     "Full arrays compared with a float64 model; conservation between different sub-integration choices.")

prop("C11", "Time series operations keep data, time axis and metadata consistent",
     "Normalising gives zero mean and unit variance, dereddening subtracts the running median of the requested width, downsampling regroups samples; "
     "each gives the same result in place and out of place, out-of-place calls leave the original intact and independent of the result, and data type, "
     "sample count, sampling time, length and observation time in the metadata stay mutually consistent through any chain of operations and any constructor.",
     ["inputs", "histories"], "all data, constructors and sequences of operations",
     "Tests apply one operation at a time to one series.",
     ["riptide/time_series.py", "riptide/metadata.py", "riptide/running_medians.py"],
     [("in-place / copy handling", "riptide/time_series.py")],
     ["data and metadata of the series and of its ancestors after every step"],
     "runtime monitor over random operation chains with float64 models",
     "Each step of random chains done both ways and compared with models; ancestors watched for changes.")

prop("C12", "PRESTO time series are read exactly as written",
     "Reading a PRESTO .inf/.dat pair returns every documented header field with its exact value and type, coordinates, band and observation time derived "
     "from it, and the exact float32 samples, for all observing bands, on/off break lists, notes and file names. A missing file, or a truncated or "
     "malformed header, raises an error instead of giving altered values.",
     ["inputs"], "all well-formed header/data pairs, and damaged ones",
     "Tests read three bundled files.",
     ["riptide/reading/presto.py", "riptide/metadata.py", "riptide/time_series.py"],
     [("line by line parser", "riptide/reading/presto.py")],
     ["PrestoInf, Metadata.from_presto_inf, TimeSeries.from_presto_inf"],
     "runtime oracle: independent writer, field by field comparison",
     "Files written by an independent writer; every field and sample compared; damage must raise.")

prop("C13", "SIGPROC time series are read exactly as written",
     "Reading a SIGPROC dedispersed time series returns every header key with its exact value and type (including caller-declared extra keys, for that call "
     "only), correct coordinates and the exact samples of 32-bit float or declared-sign 8-bit data. Unsupported, undeclared-sign, multi-channel, truncated "
     "or unknown headers raise an error.",
     ["inputs", "histories"], "all header key subsets and orders, values and sample types; sequences of reads",
     "Tests read four bundled files.",
     ["riptide/reading/sigproc.py", "riptide/metadata.py", "riptide/time_series.py"],
     [("binary header parser", "riptide/reading/sigproc.py"), ("sample type selection", "riptide/time_series.py")],
     ["SigprocHeader, Metadata.from_sigproc, TimeSeries.from_sigproc"],
     "runtime oracle: independent writer, key by key comparison",
     "Files written by an independent writer; every key and sample compared; sequences of reads with extra keys.")

prop("C14", "Saving to JSON and loading back loses nothing",
     "Any time series, periodogram, candidate, metadata, array, table or nesting of them that is saved to JSON and loaded back has the same type, exactly "
     "the same numbers, data types, shapes and metadata, and is usable as the original was. Objects that cannot be represented raise an error instead of "
     "being altered.",
     ["inputs"], "all serialisable objects, array types, shapes, memory layouts and contents (empty, non-finite)",
     "Tests round-trip one time series and one periodogram.",
     ["riptide/serialization.py", "riptide/candidate.py", "riptide/periodogram.py", "riptide/time_series.py", "riptide/metadata.py"],
     [("encoder and object hook", "riptide/serialization.py"), ("to_dict / from_dict", "riptide/candidate.py")],
     ["objects returned by load_json"],
     "runtime oracle: bit-exact round-trip comparison",
     "Bit-exact comparison of generated objects and of real search results.")

prop("C15", "Metadata always satisfies its documented contract",
     "A metadata object always contains the reserved keys, each blank or of its documented type and domain, keeps every other serialisable item exactly, "
     "and refuses invalid reserved values, non-string keys and values that cannot be saved.",
     ["inputs"], "all dictionaries",
     "Tests never build a metadata object with invalid content.",
     ["riptide/metadata.py"],
     [("schema of reserved keys", "riptide/metadata.py")],
     ["Metadata constructor"],
     "runtime oracle: documented table of keys",
     "Random dictionaries with one defect, or none, judged against the documented table.")

prop("C16", "Peak detection reports exactly the maxima of the significant trial groups",
     "For each trial width, the trials whose S/N exceeds both the fixed threshold and the fitted frequency-dependent threshold are grouped by frequency "
     "distance, and exactly one peak per group is reported: its brightest trial, with that trial's exact frequency, period, width, duty cycle, S/N and DM. "
     "Peaks come by decreasing S/N and the periodogram is not modified.",
     ["inputs", "configurations"], "all periodograms and detection settings",
     "Tests check that the top peak of one bright signal is near the right period.",
     ["riptide/peak_detection.py", "riptide/clustering.py"],
     [("segment statistics and threshold fit", "riptide/peak_detection.py"), ("one-dimensional clustering", "riptide/clustering.py")],
     ["list of peaks and threshold coefficients"],
     "runtime oracle: independent threshold and clustering recomputation",
     "All peaks recomputed independently, except groups whose membership hinges on rounding.")

prop("C17", "One-dimensional clustering is exactly friends-of-friends",
     "Clustering points on a line with radius r returns groups of indices that partition all the points, such that two points are in the same group if and "
     "only if they are linked by a chain of points with consecutive distances of at most r, whatever the input order.",
     ["inputs"], "all point sets, orders, duplicates, exact ties and radii",
     "No test calls the clustering directly.",
     ["riptide/clustering.py"],
     [("sort and cut at gaps", "riptide/clustering.py")],
     ["output of cluster1d"],
     "runtime oracle: brute-force friends-of-friends",
     "Partition compared with a brute-force algorithm, including exact ties.")

prop("C18", "The selected DM trials cover the range and are as few as possible",
     "The DM trials selected for a search are available trials inside the requested limits, in increasing order, including the lowest and the highest; "
     "their coverage intervals (half-width set by the larger of minimum pulse width and intra-channel smearing) leave no hole that an available trial "
     "could fill, and no smaller selection with these properties exists. A range without any trial raises an error.",
     ["inputs", "configurations"], "all trial lists, orders, limits, bands, channel counts and minimum widths",
     "Tests run the pipeline on one list of DMs.",
     ["riptide/pipeline/dmiter.py"],
     [("greedy farthest-reach selection", "riptide/pipeline/dmiter.py")],
     ["selected trial list"],
     "runtime oracle: coverage check and minimality by dynamic programming",
     "Minimality decided by dynamic programming over all covering subsets; comparisons within 1e-9 of a tie accepted either way.")

prop("C19", "The DM plan of a set of files is derived from what the files say",
     "For any set of input files in any order, the DM limits (explicit, from the files if blank, and capped by Galactic latitude if requested), the observing "
     "band, the median observation length and the coarsest sampling time are those of the files, and every selected trial is visited exactly once, mapped "
     "to its own file, in chunks of the requested size. Files of different pointings, missing or inconsistent band information without manual values are refused.",
     ["inputs", "configurations"], "all sets of headers, orders, limits, sky positions, chunk sizes",
     "Tests use one set of files with fixed limits.",
     ["riptide/pipeline/dmiter.py", "riptide/metadata.py"],
     [("DM iterator construction", "riptide/pipeline/dmiter.py"), ("chunked iteration", "riptide/pipeline/dmiter.py")],
     ["DM iterator attributes and yielded chunks"],
     "runtime oracle over real header files, conservation monitor on the iteration",
     "Real header files; limits, Galactic latitude and plan recomputed independently; exactly-once iteration at several chunk sizes.")

prop("C20", "Harmonic relations are decided by the documented criteria",
     "Two signals are declared harmonically related if and only if their accrued phase difference from the closest ratio with bounded denominator, their DM "
     "delay difference and the difference between observed and expected harmonic S/N are each within their limits; the reported fraction is the closest "
     "ratio of harmonic to fundamental frequency. Invalid observing parameters are refused.",
     ["inputs", "configurations"], "all pairs of signals, orders, observation lengths, bands and limits",
     "No test calls the harmonic test with chosen values.",
     ["riptide/pipeline/harmonic_testing.py"],
     [("distances in phase, DM and S/N", "riptide/pipeline/harmonic_testing.py")],
     ["decision and fraction"],
     "runtime oracle: independent decision model",
     "Decisions within 1e-6 of a threshold are not judged.")

prop("C21", "Clusters partition the peaks; ranks and harmonic flags are consistent",
     "In the pipeline every peak found in any trial belongs to exactly one cluster, clusters are the maximal chains in frequency with links no longer than "
     "the clustering radius over the median observation length, and ranks follow decreasing S/N of the brightest member. A cluster is flagged as a harmonic "
     "if and only if it is related to a brighter unflagged cluster, is then attached to the brightest such cluster with the right fraction, and fundamentals "
     "are never flagged; the cluster table states exactly this.",
     ["inputs", "configurations"], "all populations of peaks, observation lengths and settings",
     "Tests check that one simulated pulsar ends up as one cluster.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/peak_cluster.py", "riptide/clustering.py", "riptide/pipeline/harmonic_testing.py"],
     [("clustering stage", "riptide/pipeline/pipeline.py"), ("ranking and flagging stage", "riptide/pipeline/pipeline.py"),
      ("cluster table", "riptide/pipeline/peak_cluster.py")],
     ["clusters after each stage", "cluster table"],
     "runtime invariant monitor with brute-force recomputation",
     "Real pipeline stages on generated peak populations; flags recomputed by an independent sequential model; rounding ties not judged.")

prop("C22", "Candidate filters keep exactly the clusters that satisfy them",
     "The clusters turned into candidates are exactly those at or above the DM and S/N minima, not flagged as harmonics if harmonic removal is on, and, if "
     "they are more than the maximum number, the brightest of them; a blank filter removes nothing, and each surviving cluster gives exactly one candidate, "
     "ordered by decreasing S/N.",
     ["inputs", "configurations"], "all cluster populations and filter settings, including thresholds equal to a value present",
     "Tests use two fixed filter settings.",
     ["riptide/pipeline/pipeline.py"],
     [("filter stage", "riptide/pipeline/pipeline.py"), ("candidate building stage", "riptide/pipeline/pipeline.py")],
     ["filtered clusters and candidates"],
     "runtime oracle: set recomputation, one-to-one matching of candidates",
     "All filters recomputed independently, with thresholds on, just above and just below values present.")

prop("C23", "The data products on disk state exactly the results of the run",
     "After a run the output directory gains exactly one table of all peaks, one of all clusters, one of all candidates and one file (plus one plot if "
     "requested) per candidate; every row and field equals the in-memory result to nine decimals, tables of clusters and candidates are sorted by decreasing "
     "S/N, and the candidate file of rank k holds the k-th row of the candidate table. Nothing is written when no peak was found.",
     ["inputs", "configurations", "schedules"], "all result populations, numbers of writer processes and plot settings",
     "Tests check that some files exist.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/peak_cluster.py", "riptide/candidate.py", "riptide/serialization.py"],
     [("product writing stage", "riptide/pipeline/pipeline.py")],
     ["files of the output directory"],
     "offline checker over the files written by real runs",
     "Every file parsed by an independent reader and matched with the in-memory result.")

prop("C24", "Pipeline results do not depend on processes, file order or timing",
     "For the same data and settings, all products of the pipeline are equal whatever the number of processes, the order in which the files are given and "
     "the order in which workers finish, and whatever the same Pipeline object has processed before; each selected trial is searched exactly once, trials that were not selected are not read, and the peaks found are "
     "the union of those of each trial searched alone.",
     ["schedules", "inputs", "configurations"], "all numbers of processes, file orders and worker interleavings",
     "Tests run the pipeline once with a fixed number of processes.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/pipeline/dmiter.py"],
     [("pool mapping per chunk", "riptide/pipeline/worker_pool.py"), ("chunks of trials", "riptide/pipeline/dmiter.py"),
      ("sorting of peaks", "riptide/pipeline/pipeline.py")],
     ["products on disk", "audit log of file opens across processes"],
     "stress with injected delays, event-log checker (exactly-once), differential comparison of products",
     "Reference run compared with runs at 1 to 6 processes, permuted files and injected delays; observed interleavings are counted in the evidence.")

prop("C25", "Invalid pipeline configurations are refused, valid ones kept unchanged",
     "A configuration with any missing, unknown, wrongly typed or out-of-domain item is refused before processing starts, and so are search ranges that do "
     "not connect or whose phase resolution the coarsest input cannot support; every valid configuration, with documented blanks and optional items present or "
     "absent, is accepted with its values unchanged.",
     ["configurations"], "all configurations with at most one defect",
     "Tests load two valid configurations.",
     ["riptide/pipeline/config_validation.py", "riptide/pipeline/pipeline.py", "riptide/pipeline/config/example.yaml"],
     [("schemas", "riptide/pipeline/config_validation.py"), ("range checks", "riptide/pipeline/config_validation.py")],
     ["result of validation, of pipeline construction and preparation"],
     "runtime oracle: documented table of configuration items, one-place damage",
     "Every item damaged in every documented way over random valid configurations.")

prop("C26", "A blind search finds the signals that are there, and only those",
     "A periodic signal well above the detection threshold inside the searched range is reported as the strongest detection at its true period, DM and "
     "approximate duty cycle, with an S/N consistent with its strength, whatever its phase, the level, gain and slow drifts of the data, through the library "
     "and through the whole pipeline; pure noise gives no detection above 9 sigma.",
     ["inputs", "configurations"], "all signals, noise realisations, data offsets, scales and drifts, search settings",
     "Tests search one bright signal of one period.",
     ["riptide/search.py", "riptide/peak_detection.py", "riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/cpp/periodogram.hpp"],
     [("search call", "riptide/search.py"), ("peak detection", "riptide/peak_detection.py")],
     ["peaks and candidate tables"],
     "end-to-end runtime oracle with injected signals",
     "Statistical bounds set far outside the scatter (validated on > 20000 simulated searches without alarm).")

prop("C27", "The command line search reports what an explicit search finds",
     "The table printed and returned by the single-file search program contains exactly the significant peaks of a search with the given (or documented "
     "default) options, one line per group of peaks of close frequency with the values of its brightest member, by decreasing S/N; no significant peak "
     "gives a message and no table, and failures give a non-zero status.",
     ["inputs", "configurations"], "all input files and option combinations",
     "Tests run the program on one simulated file with one set of options.",
     ["riptide/apps/rseek.py"],
     [("option parser and grouping", "riptide/apps/rseek.py")],
     ["returned table, printed text, exit status"],
     "runtime oracle: explicit search and brute-force grouping",
     "Compared with an explicit library search (itself covered by C08, C09, C16) and brute-force grouping; the injected pulsar must come first.")

prop("C28", "Each candidate is folded from the right trial with the right parameters",
     "Each candidate carries the parameters of the brightest peak of its cluster, the metadata of the DM trial of that peak, all peaks of the cluster, and the "
     "dereddened, normalised data of that very trial folded at that period with the bins and sub-integrations of the search range the period falls into (all "
     "rotations if blank or if too few fit); its profile is the sum of its sub-integrations and its DM curve the best S/N at each DM.",
     ["inputs", "configurations"], "all clusters, trials, search ranges, periods on and beyond range edges",
     "Tests check that candidates exist for one pulsar in one range.",
     ["riptide/pipeline/pipeline.py", "riptide/candidate.py", "riptide/folding.py"],
     [("range lookup and candidate building", "riptide/pipeline/pipeline.py"), ("candidate construction", "riptide/candidate.py")],
     ["candidates in memory and on disk"],
     "runtime oracle: model folding of the trial each candidate must come from",
     "Each candidate compared with a float64 folding of the expected trial, every trial holding different data.")

prop("C29", "Failures are contained or reported, never silently swallowed",
     "A candidate that cannot be built costs only itself: all others are produced exactly as without it. An input file that is missing, empty, unreadable or "
     "malformed, or a product that cannot be written, makes the run end with an error, whatever its position and the number of processes, instead of "
     "returning or writing incomplete results as if they were complete.",
     ["fault_sequences", "inputs", "configurations"], "every position of one fault among candidates, input files and products",
     "Tests never inject a fault.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/reading/presto.py", "riptide/candidate.py"],
     [("exception handling around candidate building", "riptide/pipeline/pipeline.py"), ("exception propagation of worker pools", "riptide/pipeline/worker_pool.py")],
     ["exceptions, exit status, candidates and files after a fault"],
     "fault injection at every position, differential comparison with the fault-free run",
     "All positions of one fault enumerated in small pipelines; combinations of several faults are not.", level="fault_enumeration")

prop("C30", "Simulated signals have the documented shape, strength and noise",
     "A simulated series has exactly the requested number of samples and contains a von Mises pulse train with the requested period, initial phase and full "
     "width at half maximum, whose quadratic sum equals the requested amplitude squared, plus independent Gaussian white noise of the requested standard "
     "deviation, none if zero, reproducible from the random seed.",
     ["inputs"], "all lengths, periods, phases, duty cycles, amplitudes and noise levels",
     "Tests only use the generator as a source of data.",
     ["riptide/libffa.py", "riptide/time_series.py"],
     [("pulse formula and scaling", "riptide/libffa.py")],
     ["generated samples and metadata"],
     "runtime oracle: closed form, and statistical monitors at 7 sigma",
     "Noiseless series compared with the closed form; noise isolated by subtraction and tested for moments and whiteness.")

prop("C31", "A pipeline run is the composition of its documented stages",
     "For every data set and configuration, a pipeline run searches the trials selected for the narrowest pulse width of all search ranges, and yields exactly the "
     "union over trials and ranges of: dereddening then normalisation once with the configured window, periodogram with the range's own search "
     "parameters, peak finding with the range's own parameters; then one clustering, ranking, harmonic flagging, filtering and candidate building on that "
     "union with the configured options, all saved in the requested directory. The command-line program yields the same files as the library call.",
     ["inputs", "configurations"], "all data sets, range partitions and option values, in the library call and in the command",
     "Tests run two fixed configurations on one pulsar and look at the best candidate: parameters that are dropped, applied twice, taken from another range or "
     "left at their defaults do not show.",
     ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/pipeline/dmiter.py", "riptide/search.py", "riptide/peak_detection.py"],
     [("hand-over of options from configuration to stages", "riptide/pipeline/pipeline.py"), ("per-trial chain", "riptide/pipeline/worker_pool.py"),
      ("command line", "riptide/pipeline/pipeline.py")],
     ["state of the pipeline after process()", "files written", "exit status of the command"],
     "runtime oracle: stage-by-stage recomputation of whole runs",
     "Whole runs on generated trials compared with an explicit composition of the public stages (each stage having its own check) and with independent models of "
     "selection, clustering, flagging, filtering and folding.")

prop("C32", "Repeated use accumulates no memory, open files, figures or processes",
     "Calling any public function, reader, writer, plot or pipeline run over and over, with valid arguments or with arguments it refuses, does not make the "
     "process grow: once warm, a further call leaves no native or Python memory, no open file, no registered figure beyond the one returned, no thread and no "
     "child process behind, also when the call fails, and the reference counts of its arguments are what they were.",
     ["histories", "inputs", "fault_sequences"], "all functions, all numbers of repetitions, accepted and refused calls",
     "Tests make each call once or twice; a leak of a few kilobytes or one descriptor per call shows only after thousands of trials of a survey.",
     ["riptide/cpp/python_bindings.cpp", "riptide/cpp/periodogram.hpp", "riptide/pipeline/worker_pool.py", "riptide/pipeline/pipeline.py",
      "riptide/candidate.py", "riptide/reading/presto.py", "riptide/reading/sigproc.py", "riptide/serialization.py"],
     [("ownership of arrays in the bindings", "riptide/cpp/python_bindings.cpp"), ("life of the worker pools", "riptide/pipeline/worker_pool.py"),
      ("figures closed after saving", "riptide/candidate.py")],
     ["allocator statistics, open descriptors, figures, threads and children of the process across repeated calls"],
     "resource meters over repeated calls, growth confirmed at 4 and 16 times the repeats",
     "Every function is run in windows of repeated calls; growth in all windows but one beyond the slack, confirmed by longer looks, is a leak. Planted leaks "
     "prove in each run that every meter is alive. Leaks below the slack (a few bytes per call) are not seen.")

prop("C33", "Plots show the stored data",
     "The plot of a candidate shows its sub-integrations, its folded profile, its DM curve and a table of its parameters and metadata, and that of a periodogram "
     "the S/N of the selected width or of the best width at each trial period; numbers and texts are those stored, for every candidate and periodogram that can "
     "exist, including missing metadata and odd names. Saving yields an image of the requested size; neither the object, nor global plot settings, nor other "
     "figures are changed.",
     ["inputs"], "all candidates and periodograms, metadata present or missing, figure sizes and resolutions",
     "Tests never look at a plot.",
     ["riptide/candidate.py", "riptide/periodogram.py", "riptide/time_series.py"],
     [("candidate plot", "riptide/candidate.py"), ("periodogram plot", "riptide/periodogram.py")],
     ["artists of the figures drawn, image files written"],
     "runtime oracle: figures inspected through the plotting library against the stored data",
     "Axes, lines, bars, images and texts of every figure compared with what the object stores; generated candidates include missing, extreme and odd metadata.")

prop("C34", "The command-line programs do what their options say",
     "The pipeline program writes its products in the requested or current directory only, equal to those of the library call, with the requested log level, log "
     "file and timings, under any plotting backend; the search program honours its options likewise; every wrong usage (unknown option, missing or malformed "
     "argument, absent file) is refused with a non-zero status, a message and no files; help and version are printed with status zero.",
     ["inputs", "configurations"], "all combinations of documented options, and wrong usages",
     "Tests call the programs' functions with one set of options each.",
     ["riptide/pipeline/pipeline.py", "riptide/apps/rseek.py", "riptide/timing.py"],
     [("option parsers", "riptide/pipeline/pipeline.py"), ("option parser", "riptide/apps/rseek.py"), ("timing decorator", "riptide/timing.py")],
     ["exit status, standard output and error, files of real program runs"],
     "runtime oracle on real program runs: products, log and status against the documented options",
     "Programs are run as users run them, in scratch directories; every option is varied, wrong usages are enumerated.")

prop("C35", "Units, the origin of phase and batching do not change results",
     "Multiplying the data by a positive gain, measuring times, frequencies and DMs in another unit (with the options converted alike), rotating phases, adding "
     "a constant level, or taking rows, widths or trials out of a batch changes no result other than by that conversion: transforms, S/N, filters and folds are "
     "equivariant, searches find the same peaks, the same trials are selected, the same harmonics flagged and the same candidates built.",
     ["inputs", "configurations"], "all inputs, all scale factors, rotations and sub-batches",
     "Tests use data of unit variance, in seconds, at one scale; a constant with a hidden unit, an absolute tolerance or a dependence on the neighbours in a "
     "batch is exact at that scale.",
     ["riptide/cpp/snr.hpp", "riptide/cpp/periodogram.hpp", "riptide/cpp/downsample.hpp", "riptide/search.py", "riptide/peak_detection.py",
      "riptide/clustering.py", "riptide/pipeline/harmonic_testing.py", "riptide/pipeline/dmiter.py", "riptide/pipeline/pipeline.py"],
     [("conversion of periods to samples", "riptide/cpp/periodogram.hpp"), ("frequency segments and radius over Tobs", "riptide/peak_detection.py"),
      ("DM coverage radii", "riptide/pipeline/dmiter.py")],
     ["pairs of results of related inputs"],
     "metamorphic runtime monitoring: related executions compared bit for bit",
     "All scale factors are powers of two, so conversions are exact and results must be equal bit for bit, except decisions within rounding of a limit, "
     "which are recognised by perturbing the limit.")

# ----------------------------------------------------------------------------
EXTRA = os.path.join(HERE, "tools", "extra_props.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["tests"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"],
                             hook_needed=None))) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(HERE, "rv", "props", p["id"].lower() + ".py"))]
    m = dict(
        version=1, setup_cmd="python3 rv/treebuild.py",
        checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                     thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                     technique=p["technique"], level=p["level"], level_note=p["note"]) for p in have],
        not_applicable=NOT_APPLICABLE + [dict(property=p["id"], reason="check not built yet") for p in P if p not in have],
        notes="No hooks are needed in /repo: checks observe public results, files, process deaths, and an audit log of file opens.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
