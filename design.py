# What each property's check enumerates: read by check.py (evidence "bounds", "assumptions") and meta.py (DESIGN.md)
# id -> oracle, bounds (quick; thorough), beyond (why the tests cannot settle it), assume (what is trusted or left out)
D = {
"A01": dict(
    oracle="a model array that maps every element of the view to the element of the parent it denotes, maintained independently of strides and offsets",
    bounds="view-chain: 4 parents of 1 to 3 dimensions x all chains of up to 2 operations (thorough 3) out of slice (17 start:end:stride forms on any axis, invalid ones included), unsqueeze, squeeze, reshape, each followed by one of 3 writes; "
           "view-chain-deep: 2 parents x chains of up to 4 (thorough 5) operations with 6 slice forms; invalid-axis: every axis just outside, for each operation",
    beyond="wrong strides or offsets only show for particular chains (a view of a view with a stride, an axis of length one, a negative index), and the tests slice twice"),
"A02": dict(
    oracle="C++ arithmetic on one pair of elements in the type the operation is documented to use, converted to the result type; element pairs for which C++ leaves the result open are not judged",
    bounds="array-array: 4 operations x shape pairs (equal, broadcast in every axis, incompatible, rows of 1 to 19 elements around the unrolling by 8) x type pairs x 4 x 4 memory layouts; scalar: 4 operations x 3 argument orders/forms x types x layouts; "
           "unary: square, sqrt, abs, copy x types x layouts x fresh/given/broadcast outputs in 4 layouts; extremes and extremes-unary: every pair of values at the ends of every type, NaN and infinities; types: every operation on arrays of every pair of the 10 types, right or refused; shapes: every pair of shapes of up to 3 (thorough 4) dimensions of length 1 to 3 x layouts x 2 operations",
    beyond="the loops differ by layout, unrolled remainder, broadcast pattern and type; the tests run contiguous float arrays"),
"A03": dict(
    oracle="C++ comparison of the two mathematical values (integers of different signedness by value), bit-and of the integers",
    bounds="compare-arrays: 6 operations x shape pairs x type pairs x 4 x 4 layouts; compare-scalar: 6 operations x scalar on either side x operator and function form x types x layouts; values include negatives, equal values, NaN and infinities for floats; extremes: every pair of values at the ends of every pair of types; types: every pair of the 10 types, right or refused; shapes: every pair of shapes of up to 3 (thorough 4) dimensions of length 1 to 3 x layouts x 2 operations",
    beyond="mixed signedness, NaN, scalar-on-the-left and views take other code paths than the tests"),
"A04": dict(
    oracle="the definition evaluated in double (long double sums) over the elements enumerated per output by index arithmetic",
    bounds="reduce: 6 reductions x shapes of up to 4 dimensions x every ordered subset of axes x 4 layouts x 4 value patterns x fresh or given output (2 layouts; thorough 4); summary: median and count; moments: degrees 1 to 4; "
           "bad-requests: axes outside of the array or named twice, outputs of other sizes, for every reduction; types: arrays of all 10 types, right or refused; typed-outputs: 5 types into outputs of all 10 types; long-arrays: up to 2^24 + 43 elements (thorough more shapes) in 5 arrangements of axes",
    beyond="the iteration over non-adjacent or reordered axes, views and given outputs is only wrong for particular combinations"),
"A05": dict(
    oracle="as A04 restricted to the elements whose mask is zero",
    bounds="masked: every mask (all 2^n) of arrays of up to 6 (thorough 9) elements x 4 statistics x axes x 4 x 4 layouts of data and mask x value patterns x fresh or given outputs; bad-mask and bad-requests: masks of wrong shape or type, missing axes, wrong outputs; types and long-arrays as A04",
    beyond="a statistic over a masked set is a statement over all masks"),
"A06": dict(
    oracle="C++ conversion of the value to the element type; the arithmetic sequence computed in double",
    bounds="copy: types x types x shapes x layouts x 6 forms (two of them moved between memory nodes and back); fill: types x shapes x layouts x values of 4 C++ types; arange: ranges and steps of all 10 types, both directions, partial steps, sequences of up to 1000 items, empty and zero steps; arange-mixed: start, end and step given in different C++ types; linspace: starts, ends, counts, types; random: rand_normal and rand_uniform over shapes x types x ranges, judged by shape, type and range only; long-sequences: arange and linspace of up to 5 million items compared item by item; scalarize: all types and layouts; names: all type and device names and near misses",
    beyond="conversions and ends of ranges are decided by type and rounding"),
"A07": dict(
    oracle="a state machine of one shared cell per source (unevaluated / evaluated with result k) with a counter of evaluations",
    bounds="all sequences of up to 6 (thorough 7) operations (read, copy a handle, move to a device, assign, describe) over several handles, for 4 policies, with the source failing at none or any of the first 3 evaluations; unset: all sequences of up to 4 (thorough 5) uses of handles which were given nothing",
    beyond="a history property: counting evaluations needs sequences over copied handles and failures"),
"A08": dict(
    oracle="elements read through the exported description; allocation counts after the deleter ran; memory shared with the producer",
    bounds="export: shapes x types x 4 layouts x 3 orders of release x repeated rounds that must not keep memory; import: shapes x types x compact, absent and strided strides x byte offsets x 6 uses, the description being dropped first; AddressSanitizer watches every access",
    beyond="lifetimes depend on the order in which two owners let go"),
"A09": dict(
    oracle="the bytes of the elements in order",
    bounds="round-trip: types x shapes x layouts x values x path forms; lengths: files of 0 to 19 bytes read as 10 types; errors: missing file, directory, unwritable path, full device",
    beyond="partial trailing items, views and errors are not sampled by the tests"),
"A10": dict(
    oracle="the discrete Fourier transform evaluated from its definition in double",
    bounds="spectrum: every length from 0 to 12 (thorough 24) x 4 layouts x every impulse, every tone, constant and mixed signals x transform and power spectrum; dtype: every other type and every other number of dimensions is refused; spectrum-large: lengths of 2^24 + 2 and + 3 (thorough 4 lengths)",
    beyond="where the zero frequency goes differs for odd, even and very long inputs; no test covers it"),
"A11": dict(
    oracle="small arrays holding the same block of elements (huge arrays), the operation on nothing (empty arrays), an error (unset arrays)",
    bounds="unset: every operation x which arguments are unset x 5 contents of the memory the object is built in; odd-*: every operation x shapes without elements or dimensions x types x 3 ways to make such an array; "
           "large-*: every operation x blocks in the corners of arrays of more than 2^31 and 2^32 elements x which arguments are far out; large-creators: arange (thorough also linspace) of more than 2^31 items",
    beyond="32-bit indices and missing checks only show at sizes and in states no test builds",
    assume="huge arrays are reserved address space of which only the touched pages exist; whole-array loops over 2^31 elements run for creators only"),
"S01": dict(
    oracle="the channel of the whole scan that the slice denotes, computed from the file's samples and header",
    bounds="slicing: file and memory backed scans x 1, 2, 3 fine channels per coarse x 1, 2, 4, 5 coarse channels x 1 and 3 steps x both signs of the channel width x every chain of up to 2 (thorough 3) slices, all channels, metadata and frequency lookups read after each, channels looked at again; many-channels: bands of 600 coarse channels x chains of 2 (thorough 3) slices at and around 128, 256 and the end; "
           "invalid-slices: every start in -2..5 and count in 0..6 on both backings; setters: every pair of attribute assignments with 2 values on a scan, copy or slice, all attributes of both read after each; missing-channels: every subset of 4 channels in memory, any of them null; channelization: total channel counts x documented and other resolutions; construction: every constructor of a channel x which optional attributes and samples it is given x order of use; nothing: groups of nothing in memory with 5 contents",
    beyond="offsets of nested slices and channel numbers are history dependent"),
"S02": dict(
    oracle="the list of steps of each scan, applied in order to the channel's original samples",
    bounds="all sequences of up to 4 (thorough 5) of 9 operations (add a step, slice, read a channel, write into what was read, ask for hits, set device, ...) over a growing set of scans, file and memory backed; deferred-hits: all sequences of 5 (thorough 6) operations (give hits or searches that work or fail once, copy, read) on copies of a channel",
    beyond="aliasing between a scan, its slices and what was handed out needs sequences of operations"),
"S03": dict(
    oracle="comparison of the four attributes over all scans; slicing of each scan by S01's model",
    bounds="consistency: groups of 0 to 3 scans of 9 variants and 2 channelizations, split into observations in every way; wide-bands: groups of 2 or 3 recordings of 65536 channels whose widths differ by nothing or by fractions to multiples of a Hz over the band; slices: cadences of up to 3 targets of up to 2 scans from 3 sources, made of scans or of paths x every range of channels; missing-files: groups with a file that is absent or no filterbank file",
    beyond="which scan differs and how the group is split decides what is compared"),
"S04": dict(
    oracle="the stages applied to each coarse channel on its own, built directly from the samples; data, mask, noise estimate, drift plane, hits and metadata are compared bit for bit, failures too",
    bounds="grouping: scans, observations and cadences x all combinations of up to 2 (thorough 3) departures from the default pipeline on files: channels in memory, with or without numbers of their own, each of 10 stages left out, added or with other parameters, neighbours swapped, a stage repeated, "
           "3 splits into groups, any slice taken before any stage, channels read backwards, half way or beforehand; a channel is read twice, and the groups the pipeline was built from must still give the raw samples",
    beyond="a stage that forgets a parameter, keeps state between channels or scans, or is applied to the wrong slice only shows for particular combinations of level, slice and order"),
"S05": dict(
    oracle="a model of one device per group, which a rejected request leaves as it was; samples by S01's model",
    bounds="devices: channels, scans, observations and cadences x file or memory x all sequences of up to 3 (thorough 4) operations out of setting 8 devices by name or description, reading, pushing and slicing; the device of every part is read after each operation; drift-planes: planes on their own or given to (copies of) channels, as they are or to be computed, x sequences of 4 (thorough 6) operations, samples, flags and description read on the device of the channel",
    beyond="whether a failed request leaves a scan usable, or a device reaches every part, depends on the history and the level",
    assume="built without CUDA: devices other than the CPU's memory nodes only appear as requests that fail, and host memory of CUDA as a device whose data cannot be read"),
"F01": dict(
    oracle="initial mask or-ed with the decisions of F02's reference, per sample",
    bounds="3 shapes x 3 data patterns x 4 initial masks x 4 levels (channel, scan, observation, cadence) x all sequences of up to 3 (thorough 4) flaggers; levels: every overload (default thresholds too) of every flagger at every level on 9 channels of 4 scans that all differ x 3 kinds of data x 3 (thorough 11) places",
    beyond="flags can be lost only by particular orders of flaggers and levels; no test combines them"),
"F02": dict(
    oracle="the definitions evaluated in double; cells within rounding distance of a threshold are not judged",
    bounds="spectral-kurtosis: every channel of up to 4 samples over 4 (thorough 5) values x 3 parameter sets; sigma-clip: every array of 5 or 6 cells over 4 (thorough 5) values x 5 parameter sets; "
           "sigma-cascade: every number (0 to 2, thorough 3) of outliers of several sizes on both sides x 6 parameter sets; kurtosis-estimate: the estimate itself on the same arrays, of arrays and of channels; rolloff: 1 to 12 channels x 41 widths; magnitude: every position and size of one spike, every 4-cell array; large: 9 flaggers on 4 (thorough 6) sizes of up to 19500 (thorough 279000) samples x 3 kinds of data x 3 initial masks x 2 layouts",
    beyond="iterated clipping and rounding of band edges depend on the values"),
"N01": dict(
    oracle="mean and population deviation over the unmasked samples in double",
    bounds="4 shapes x every assignment of 2 or 3 values and 2 or 3 mask values per sample x level x masked or not x estimator, with 100% masked channels included; arrays: estimates of plain arrays over the same values and masks; levels: masked and unmasked estimates of 9 differing channels of 4 scans at every level; large: 4 (thorough 5) sizes of up to 131101 (thorough 1048583) samples x 3 kinds of data x 4 masks",
    beyond="a statement over all masks; no test exists"),
"E01": dict(
    oracle="division evaluated per sample in double; windowed sinc and folded response evaluated from their formulas",
    bounds="preprocess: 3 shapes x 4 levels x every sequence of up to 3 of normalize, equalize (array), equalize (file) x 3 patterns; levels: all pairs of steps at every level on 9 differing channels of 4 scans; replaced: a response that is replaced between three uses at every level; response: 4 fine x 4 coarse x 3 tap counts; large: normalize and equalize on the sizes of F02",
    beyond="doing a step once per read at every level needs sequences; no test exists"),
"D01": dict(
    oracle="for each rate and starting channel the track is enumerated in integers and the samples averaged in double; rates from their definitions",
    bounds="integration: 1, 2, 3, 5 steps x 1, 3, 6 channels x 8 rate ranges (negative, reversed, beyond the band, steps of 2, 3, 20) x desmearing x widths x sampling times x 4 layouts x every position of an impulse and its flag x level; "
           "kernels: the array-based kernel on every impulse; saturation: up to 600 flags on a track; large: up to 300 steps, 1501 channels and rates of up to 2500 channels (thorough 5000 channels, 4 layouts) x 3 kinds of data x desmearing; bad-rates: every combination of low, high and step in -1..1",
    beyond="each plane cell is a sum over a track; an off-by-one shows only for particular rates, signs and edges. The plane is linear in its input, so all impulses cover all inputs of a shape up to rounding"),
"D02": dict(
    oracle="flood fill of the L1-distance graph written independently (union of all pairs)",
    bounds="dense: every plane of 7 or 8 (thorough 9) cells over 4 strengths x distances 1 to 3 x 2 noise profiles; sparse: every placement of up to 3 (thorough 4) strong cells of 3 strengths in planes of 5x5 and 7x8 x distances x 2 layouts; binary: every binary mask of up to 12 cells x 3 neighbourhoods x 2 layouts; large: planes of up to 21000 (thorough 65536) cells x 8 patterns (crowded, one group, nets, bands, lines, noise) x distances up to 8 (thorough 15) x 2 layouts",
    beyond="grouping is a statement over all shapes of groups"),
"D03": dict(
    oracle="comparison of every cell with its L1 neighbourhood",
    bounds="dense: every 3x3 (thorough 3x4) plane over 3 strengths; ramps: every row of 8 (thorough 9) cells of 4 strengths; sparse and large: as D02",
    beyond="ties, edges and shoulders are decided by all relative orders of neighbours"),
"D04": dict(
    oracle="the formulas for frequency, rate, width and time evaluated in double from the detection's cell",
    bounds="all 27 (81 for maxima) plane patterns x search method x distance x steps x both signs of width x frequencies x sampling times x start times x channel numbers x thresholds x 3 levels; missing noise, drifts or both",
    beyond="each field is a formula of several parameters the tests keep at one value"),
"D05": dict(
    oracle="the predicate on each hit",
    bounds="every list of up to 3 (thorough 4) hits of all kinds (flag counts per flag, drift negative, zero, positive) x options x levels x filtering once or twice",
    beyond="no test exists; order and idempotence are statements over lists"),
"D06": dict(
    oracle="the greedy continuation evaluated independently on the list of hits, then compared as sets of events",
    bounds="cadences of up to 3 targets, the first with up to 3 (thorough 4) scans of up to 3 hits, the others with up to 2 scans, the hits placed on lines of the sky of different frequency and rate; times: 2 and 3 (thorough 4) scans of the target and an other one, of three lengths in any order of time, also at the same, on 2 lines; many: targets of 4 and 7 scans with up to 40 (thorough 100) lines over 1 or 3 coarse channels x 6 patterns of presence x 3 patterns of other targets",
    beyond="which hit continues where depends on the whole history of earlier scans"),
"H01": dict(
    oracle="the values and samples the harness wrote into the file",
    bounds="attribute-types and attribute-reader: all integer, float and string storage types x values; attribute-extremes: values at the ends of 17 storage types read as every type that holds them; data-types: storage types of samples x shapes; optional-attributes: which of the attributes are missing; strings: forms of storage; layouts: 10 orders, labels and extra axes; labels: every labelling of 3 and 4 axes x sizes, either read by its labels or refused; "
           "windows: every window, valid or not, of files up to 4 x 6 (with and without counts); storage: compact, chunked in 3 ways, compressed in 2 ways x 3 sample types x 4 (thorough 6) sizes of up to 600 coarse channels or 89280 samples, windows and channels; channelization: known schemes with deviations, both signs, given sizes; cut-files: a file cut at every 16th byte (thorough every byte)",
    beyond="the storage type, label order and window are the file's choice; the tests open one file"),
"R01": dict(
    oracle="the written structure, rounded where the schema stores single precision",
    bounds="hit-lists: lists of up to 3 hits with up to 2 (thorough 3) fields departing to extreme values; hit-order: every pair differing in up to 2 fields; channels, scans-targets-cadences, on-demand-scans, events: all small trees x metadata; "
           "histories: all sequences of 3 (thorough 4) writes and reads over 2 paths; long-lists: every kind of file at 64 MiB and more",
    beyond="lost fields, order or the remainder of an earlier file depend on values, sizes and histories"),
"R02": dict(
    oracle="the fault-free result; or an exception. A truncated file must be refused unless it ends exactly between two messages of a list of hits",
    bounds="truncation: every prefix of every kind of file; crash-points: a crash before any write, with the last write torn in 3 ways; io-faults: up to 2 (thorough 3) faults (error, short transfer, interruption, full device) at every combination of read and write calls; "
           "damaged-bytes: 3 (thorough 5) damages of every byte (files over 600 bytes: every third in quick); bad-paths: missing, unreadable and unwritable paths",
    beyond="crash and fault points are schedules no test controls",
    assume="faults are injected by wrapping read, write, open and close in the process; rename and fsync are not used by the code"),
"R03": dict(
    oracle="the line's fields parsed back and compared within their printed precision with values computed in double; sexagesimal computed in integers",
    bounds="hit-lines: lists of up to 3 hits with up to 2 (thorough 3) departing fields; header: 1 to 3 channels x metadata, coordinates at every rounding boundary of seconds and minutes x signs",
    beyond="carry of rounded seconds and sign of small declinations happen at few values"),
"R04": dict(
    oracle="event_search of the same code on the live hits (itself decided by D06), compared field by field to the precision of the schema",
    bounds="stored-hits: cadences of up to 3 (thorough 4) targets, 2 or 3 scans of the first with any of up to 3 lines, hits over 1 or 2 channels, stored through 7 routes (files of cadences, targets, scans, hits, channels, stored twice, one path used again); pipeline: 16 mixes of tones x 1 or 2 channels x storage of the samples x method x filter x the 7 routes, searched when the results are stored",
    beyond="a field lost in storage only shows when a later step depends on it, and only for histories whose matches depend on it",
    assume="histories with a match within 0.01 of the threshold or two matches at the same distance to 0.001 are left out: single precision may decide them either way"),
"T01": dict(
    oracle="the text is parsed again: every number is compared with the value in the object, exactly for arrays, to the printed digits for hits and events",
    bounds="arrays: 10 types x 20 shapes of up to 4 dimensions x 4 layouts x 3 value patterns with the extremes of the type; complex: both types x 8 shapes x slices, to six digits; deferred: 3 policies x up to 2 accesses; hits: every pair of 7 fields x 7 values each; events: up to 3 hits x 6 fields x 6 values; noise: 7 x 7 values; types, devices and files",
    beyond="the tests never print anything"),
"P01": dict(
    oracle="the library calls the options stand for, made directly by the harness",
    bounds="options: up to 2 (thorough 3) options departing from the defaults, over 2 methods and output formats; outputs: 1 to 3 scans of 3 kinds x 8 output forms x 6 faults; conversion: 4 scans x input names x 3 output forms x 4 faults; channelizer-response: sizes x output forms",
    beyond="no test runs the programs; an option wired to the wrong parameter only shows with both set",
    assume="usage errors print the manual and end with 0 (documented behaviour of clipp usage), not judged"),
"P02": dict(
    oracle="the injected track",
    bounds="2 (thorough 3) noise backgrounds x 2 coarse channels x 10 (thorough 40) start channels x 33 drifts x 2 amplitudes x 2 channel widths' signs x search methods x desmearing",
    beyond="end-to-end: a tone can be lost in any step for particular start and drift",
    assume="noise is pseudo-random with fixed seeds: the claim is for these backgrounds"),
"Y01": dict(
    oracle="numpy on the same elements; object counts and AddressSanitizer for lifetimes; allocation counts for leaks",
    bounds="binary, scalar, dtypes, reductions, slices, array_misc: operations x call forms x types x 6 layouts x both namespaces; lifetimes: all sequences of up to 5 steps of making, exporting, viewing and dropping; leaks: every conversion repeated must not grow",
    beyond="no test imports the module; lifetimes depend on the order of deletions",
    assume="trusts CPython, numpy and nanobind; both modules are linked into one process"),
"Y02": dict(
    oracle="the C++ calls made by the harness in the same process",
    bounds="opening, pipeline, stage_sequences (up to 3 steps), options, hits, events_objects, flags, files, object_graph (orders of reaching and dropping), replaced_members, search_misc, hits_lists: all documented call forms",
    beyond="argument names, defaults and ownership exist only in the bindings"),
}
