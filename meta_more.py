D = "bliss/drift_search/"
prop("D01", "Integrated drift plane sums exactly the samples along each drift track",
     "For every drift rate of the requested range the plane holds, per starting channel, the mean over time of the samples on the track that starts there (rounded channel offset; averaged over the smeared channels when desmearing is on), without samples outside of the band, and counts the flags set along the track up to the counters' maximum. "
     "Negative rates leave the channels empty whose track would leave the band. The rates themselves have the span, slope, physical drift rate and smearing they stand for; the input is unchanged and arrays of any layout give the same plane; requesting no rates is an error.",
     ["inputs"], "time steps x channels x drift ranges (also wider than the band) x desmearing x layout x every single impulse and a dense pattern; flag counts around the counter's limit",
     "tests integrate one pattern of one size; wrong tracks only show for particular slopes, widths and layouts",
     [D + "integrate_drifts.cpp", D + "kernels/drift_integration_cpu.cpp", D + "kernels/drift_integration_bland.cpp"],
     [("drift rates", D + "integrate_drifts.cpp"), ("track sums", D + "kernels/drift_integration_cpu.cpp")])
prop("D02", "Connected components are exactly the groups of strong neighbouring cells",
     "The cells of a drift plane whose signal-to-noise ratio is above half of the threshold are grouped by L1 distance; every group which has a cell above the threshold is reported exactly once with all its cells, peak cell, power, noise, width, centre and the flag counts of its peak, and no other group is reported. "
     "Grouping a binary mask with a given neighbourhood partitions the set cells in the same way. The given plane is not changed and may have any layout.",
     ["inputs"], "all small planes over a value alphabet, all placements of few strong cells in a larger plane, x distance x noise per drift x layout; all small masks x neighbourhoods",
     "tests search one synthetic plane; a missed neighbour or split group depends on the shape of the group",
     [D + "connected_components.cpp", D + "kernels/connected_components_cpu.cpp", D + "protohit_search.cpp"], [("flood fill", D + "kernels/connected_components_cpu.cpp")])
prop("D03", "Local maxima are exactly the strong cells greater than all neighbours",
     "A cell is reported exactly when its signal-to-noise ratio is above the threshold, its L1 neighbourhood lies inside of the plane, and it is strictly greater than every cell in that neighbourhood; it carries its power, noise, flag counts, and the width and centre of the channels on both sides which keep falling while above the threshold. The given plane is not changed and may have any layout.",
     ["inputs"], "all small planes over a value alphabet, all rows of a ramp alphabet, all placements of few strong cells in a larger plane, x distance x noise x layout",
     "no test checks which maxima are found", [D + "local_maxima.cpp", D + "kernels/local_maxima_cpu.cpp"], [("neighbourhood comparison and width", D + "kernels/local_maxima_cpu.cpp")])
prop("D04", "Every detection becomes one hit with the right physical description",
     "Searching for hits gives one hit per detected group or maximum, in the same order, whose frequency, drift rate, power, signal-to-noise ratio, bandwidth, start, duration, number of time steps, coarse channel and flag counts are those of the detection in the channel's frequency and time axes. "
     "The same hits come out of a channel, scan or cadence; searching a channel whose noise or drifts were not computed is an error.",
     ["inputs"], "planes x method x axes x thresholds x level", "tests check single hits of one scan",
     [D + "hit_search.cpp", D + "protohit_search.cpp", "bliss/estimators/include/estimators/noise_estimate.hpp"], [("description", D + "hit_search.cpp")])
prop("D05", "Filtering keeps exactly the hits without interference and with drift",
     "Filtering removes exactly the hits with flag counts for the filter rolloff or a low spectral kurtosis, and those without drift when asked to; the other hits are kept unchanged and in order, filtering again changes nothing, the given channel keeps its hits, and the result is the same for a list, channel or cadence. Filtering a channel that was not searched is an error.",
     ["inputs", "histories"], "all lists of hits of different kinds up to a length x options x level x repeated filtering", "tests do not filter hits",
     [D + "filter_hits.cpp"], [("filter predicates", D + "filter_hits.cpp")])
prop("D06", "Events join the nearest hits of the target that are absent elsewhere",
     "A hit of a scan of the target continues into the nearest unused hit of each scan of the target listed after it when it is near enough; every such sequence of at least two hits which is not near a hit of another target is reported exactly once as an event with the hits, their averages, the start of the earliest and the end of the latest scan it was found in. A hit is part of at most one sequence that reached it from earlier scans. A cadence without observations or hits has no events.",
     ["histories", "inputs"], "all cadences with up to four observations, a few scans and up to two hits per scan on a few lines",
     "tests have a single cadence; whether hits are lost, reused or not excluded depends on the history of matches",
     [D + "event_search.cpp"], [("matching", D + "event_search.cpp")])
T = "bliss/file_types/"
prop("H01", "Filterbank files give exactly their metadata and samples",
     "Opening a filterbank file gives every attribute the value stored in it, whatever numeric or string type it is stored in, and documented defaults or errors for missing ones. The band is cut into coarse channels of the known or requested size which cover it in order; every coarse channel and every requested window holds exactly the file's samples of that time and frequency range, with an all-clear mask of the same shape. "
     "Axes are found by their labels, extra axes of one element are accepted, and layouts, windows, types or truncated files that cannot be read this way are reported as errors instead of giving other samples.",
     ["inputs", "crash points"], "attribute types x sample types x presence of attributes x strings x axis layouts x all windows of small files x channelizations x every truncation",
     "tests never open a file; each file written by another pipeline is a new combination of types, labels and missing attributes",
     [T + "h5_filterbank_file.cpp", T + "include/file_types/h5_filterbank_file.hpp", "bliss/core/scan.cpp"],
     [("attribute conversion, axis order and windows", T + "h5_filterbank_file.cpp"), ("channelization", "bliss/core/scan.cpp")])
prop("R01", "What is written to hits and events files is what is read back",
     "Writing hits, coarse channels, scans, observation targets, cadences or events and reading them back gives the same hits in the same order with all of their fields, and the same metadata of channels and scans (single precision where the schema says so), whatever the list lengths (also files larger than 64 MiB), field values and channel numbers; hits that are found on demand are written as well. "
     "A file holds what was last written to it, reading does not change it, hits are equal exactly when their fields are, and restoring a hit's pickled state restores all of it. Unknown formats are reported.",
     ["inputs", "histories"], "all lists of hits with a bounded number of departures from a base hit, all small trees of scans and targets, and all sequences of writes and reads over a few paths",
     "tests write one channel of one kind of hits; lost fields, order, or remainders of a previous file depend on values and histories",
     [T + "cpnp_files.cpp", T + "hits_file.cpp", T + "events_file.cpp", T + "detail", T + "hit.capnp", "bliss/core/hit.cpp"],
     [("conversion to and from messages", T + "detail"), ("files", T + "cpnp_files.cpp")])
prop("R02", "Incomplete or unreadable result files are reported, never misread",
     "Whatever prefix of a hits, events or dat file was written before a crash, and whichever read or write fails, is cut short or interrupted, the call either reports an error or does exactly what it does without the fault: no hits go missing silently, a successful write left the complete file, transfers that are merely short or interrupted are continued, no damaged byte crashes or hangs the reader, and no file descriptor leaks or is closed twice.",
     ["crash points", "schedules of I/O faults", "inputs"], "every truncation of files of every kind, every kill point of a writer, every placement of up to two I/O faults, every position of a damaged byte with a set of patterns, unusable paths",
     "tests use a healthy disk; the property quantifies over crash points and fault placements",
     [T + "cpnp_files.cpp", T + "events_file.cpp", T + "dat_file.cpp"], [("descriptors and streams", T + "cpnp_files.cpp"), ("dat writer", T + "dat_file.cpp")],
     technique="exhaustive enumeration of crash points and injected I/O faults on the real code")
prop("R03", "The dat export lists every hit with the right numbers",
     "A dat file has the header of its scan (file, source, start, coordinates in sexagesimal form rounded to their last digit, resolution in seconds and Hz) and one line per hit in order, with the drift rate in Hz/s, signal-to-noise ratio, centre, start and end frequency in MHz in consistent order, index and frequency step of the hit in the layout of its header line; reading the header back gives the scan's metadata.",
     ["inputs"], "hit field values x lists, coordinates around every rounding boundary x scan metadata", "tests do not write dat files",
     [T + "dat_file.cpp"], [("formatting", T + "dat_file.cpp")])
prop("R04", "Stored search results lead to the same events as the live search",
     "The hits of a search, stored as files of a cadence, of its targets, scans or coarse channels and read back (also more than once, and over earlier files), have the same fields in the same order as the live search gives, to the precision of the format, and searching for events in what was read gives the same events: the same hits in the same order, averages, start and end. "
     "This holds whether the search has run before the results are stored or runs because they are. Stored events have the same hits.",
     ["histories", "inputs"], "cadences of a few scans with every pattern of signals seen x routes through storage x pipelines",
     "tests store single hits, channels or scans and never search what they read back",
     [T + "cpnp_files.cpp", D + "event_search.cpp", T + "hits_file.cpp", "bliss/core/scan.cpp"], [("scan metadata needed after reading back", T + "cpnp_files.cpp")])
prop("T01", "Printed forms show the values of what is printed",
     "The printed form of an array names its shape, type and device and shows its first 25 elements in order, every row on its own line, with values that read back as the same numbers, for every type and memory layout; a deferred array shows its array once it has one and is not evaluated by being printed. "
     "The printed forms of hits, events and noise estimates show their frequency, index, drift, signal-to-noise ratio, power, bandwidth, averages and times to the printed precision, those of types, devices and files what they are.",
     ["inputs"], "types x shapes x layouts x extreme values; every pair of fields of a hit at extreme values; events of up to 3 hits",
     "no test looks at a printed form, which is how hits reach users of the programs and of Python",
     ["bland/bland/ndarray.cpp", "bland/bland/ndarray_deferred.cpp", "bliss/core/hit.cpp", "bliss/core/event.cpp", "bliss/core/noise_power.cpp", T + "h5_filterbank_file.cpp"], [("element addressing of views", "bland/bland/ndarray.cpp")])
prop("P01", "The command line programs do what their options say and report failure",
     "bliss_find_hits runs the documented pipeline (slice, normalize, equalize or flag the rolloff, flag spectral kurtosis and sigma clip, estimate noise, integrate, search, filter) with exactly the given options on exactly the given channels of every scan, and writes or prints all hits in the requested format, with a default file for each scan. "
     "bliss_hits_to_dat gives the same dat file as exporting directly and leaves its input alone; bliss_generate_channelizer_response writes the response it computes. When a scan, a step of the pipeline, or the output fails, the program does not end successfully.",
     ["inputs", "configurations"], "every combination of up to two (thorough: three) options with their short and long names, scans x output forms x failures, conversions, response sizes",
     "no test runs the programs; their own code decides options, file names, formats and exit codes",
     ["bliss/bliss_find_hits.cpp", "bliss/bliss_hits_to_dat.cpp", "bliss/bliss_generate_channelizer_response.cpp", T + "hits_file.cpp"],
     [("options and output", "bliss/bliss_find_hits.cpp")])
prop("P02", "A drifting tone is found where it is, and nothing is found elsewhere",
     "Running the whole search on a band of noise with one strong tone that drifts inside of a coarse channel gives hits in that coarse channel only, all of them along tracks that meet the tone, the strongest of which has the tone's starting channel and frequency within the reported width and its drift rate within one rate step, for every start, drift, sign, search method and desmearing.",
     ["inputs"], "start channels x drifts of both signs x amplitudes x noise patterns x coarse channel x method x desmearing", "tests look for one tone; sign, scale and offset errors of the steps only show in combination",
     ["bliss/core/scan.cpp", D + "integrate_drifts.cpp", D + "hit_search.cpp", "bliss/estimators/noise_estimate.cpp", "bliss/flaggers"], [("whole pipeline", "bliss/core/coarse_channel.cpp")])

prop("A11", "Unset, empty, dimensionless and very large arrays are handled",
     "An array that was never given anything is reported as unusable by every operation, whatever its memory held before, instead of being read or written. Arrays without elements and arrays without dimensions work in every element-wise operation, sum, count, copy, slice, reshape, file and exchange, and an array without elements has no scalar value. "
     "Arrays of more than 2^31 and 2^32 elements address, slice, combine, reduce, reshape, describe, write and exchange exactly the elements asked for, and arange and linspace of more than 2^31 items hold the documented sequence.",
     ["inputs"], "every operation x which arguments are unset x earlier memory; every operation x shapes with zero or no dimensions x ways to make them; every operation x blocks in the corners of huge arrays x which arguments are huge",
     "tests use small, complete arrays; a 32 bit index or a missing check only shows at sizes and in states no test builds",
     [B + "ndarray.cpp", B + "bland_tensor_internals.cpp", B + "ops/cpu", B + "include/bland/stride_helper.hpp"],
     [("element offsets and counts", B + "ops/cpu"), ("default construction", B + "bland_tensor_internals.cpp")],
     note="Huge arrays are reserved address space of which only the touched pages exist; only blocks of a few elements are operated on, whole-array loops over 2^31 elements are not run.")
Y = "bliss/core/include/core/pyblisscore.hpp"
prop("Y01", "Arrays cross the border to Python with their elements and lifetimes",
     "Every array operation called from Python, with arrays of the library or of numpy in any layout, Python or numpy scalars and default or named arguments, gives the result of the operation on those elements, and an unusable argument raises an exception. "
     "What numpy sees of an array are its elements, views share memory with what they were made from, and arrays, views and exported tensors stay valid for as long as anything refers to them, in every order of creation and deletion; no call keeps memory that nothing refers to any more. Copies and pickles are equal and independent.",
     ["inputs", "histories"], "operation x argument form x type x layout; every order of making and dropping references to arrays, views and exports",
     "no test imports the module; lifetimes depend on the order in which Python drops its references",
     ["bland/python/pybland.cpp", "bland/python/pybland.hpp"], [("conversions and type casters", "bland/python/pybland.hpp")],
     note="The extension modules are compiled from /repo's sources into one sanitized process with an embedded interpreter; trusts CPython, nanobind and numpy.")
prop("Y02", "The search driven from Python does what the C++ search does",
     "Opening recordings, every pipeline step in every documented call form (positional, keyword, defaults, options objects) on channels, scans, observations and cadences, and reading and writing files have from Python exactly the effect and results of the C++ calls, every attribute shows the C++ value, and an error is an exception. "
     "Objects reached through other objects stay valid whatever is dropped or replaced; hits, events and flags assign, compare, copy and pickle faithfully; the list of hits made for plotting has every hit with its values and origin.",
     ["inputs", "histories"], "call forms x object kinds x sequences of steps; orders of reaching, dropping and replacing objects; assignments to every member",
     "no test imports the module; argument order, defaults, ownership and replaced members are only decided in the bindings",
     ["bliss/python/pybliss.cpp", Y, "bliss/drift_search/include/drift_search/pydrift_search.hpp", "bliss/python/blissdedrift/plot_utils/_encodings.py"],
     [("class and function bindings", Y)],
     note="The extension modules are compiled from /repo's sources into one sanitized process with an embedded interpreter; the oracle is the C++ interface, itself judged by the other properties.")
