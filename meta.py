#!/usr/bin/env python3
"""Single place for what is claimed: writes properties.jsonl and MANIFEST.json.  Run: python3 meta.py"""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique="exhaustive choice-sequence exploration of the real code against a reference model", note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, **kw))


B = "bland/bland/"
prop("A01", "Array views address exactly the right elements",
     "Any chain of slicing (start, end, stride, negative indices counted from the end), unsqueezing, squeezing and reshaping an array yields a view whose shape and elements are the ones the chain denotes. "
     "Filling or assigning through a view changes exactly the elements of the underlying array it denotes, and a copy of a view is independent. "
     "Ranges, axes and shapes that denote nothing valid are rejected with an error instead of touching other memory.",
     ["programs", "inputs"], "all chains of view operations up to a depth over small arrays, then every kind of write through the view",
     "tests build a handful of slices of one 2-d array; the property quantifies over chains of operations, and an address error only shows for some combinations of offset, stride and rank",
     [B + "ndarray.cpp", B + "ndarray_slice.cpp", B + "include/bland/ndarray.hpp"],
     [("slice/squeeze/unsqueeze/reshape stride and offset arithmetic", B + "ndarray.cpp"), ("assignment through a slice", B + "ndarray_slice.cpp")])
prop("A02", "Element-wise arithmetic matches the scalar operation on every element",
     "Adding, subtracting, multiplying and dividing arrays (of equal or broadcastable shapes, any memory layout) or an array and a scalar (in either order) gives, for every element, the result of that operation on those two numbers in the array's type; square, square root, absolute value and copy into a given output do the same. "
     "The result has the broadcast shape, operands keep their values, and nothing outside a given output view is written. Shapes that cannot be broadcast are rejected.",
     ["inputs"], "operation x operand form x shape pair x element types x memory layout x output layout",
     "tests use a few float shapes; wrong broadcasting, strides, operand order or type conversion only shows for particular combinations",
     [B + "ops/ops.cpp", B + "ops/arithmetic.cpp", B + "ops/cpu/arithmetic_cpu.cpp", B + "ops/cpu/arithmetic_scalar_cpu.cpp", B + "ops/cpu/elementwise_unary_op.hpp", B + "ops/cpu/elementwise_binary_op.hpp", B + "ops/cpu/elementwise_scalar_op.hpp", "bland/bland/internal"],
     [("broadcast shape", "bland/bland/internal"), ("element loops", B + "ops/cpu")])
prop("A03", "Comparisons and bit-and produce the right mask for every element",
     "Comparing arrays with arrays or scalars (>, >=, <, <=, ==, in either order, operator or function form) gives an 8-bit mask with 1 exactly where the relation holds between the two elements, and bit-and of integer arrays or scalars gives the bits they share. "
     "Broadcasting, mixed types and every memory layout are honoured, operands keep their values, and incompatible shapes or bit-and of floating point data are rejected.",
     ["inputs"], "relation x operand form x order x shape pair x element types x memory layout",
     "tests compare a few float arrays with one scalar; operand order, broadcasting, signedness and strides are independent dimensions",
     [B + "ops/comparison.cpp", B + "ops/cpu/comparison_cpu.cpp", B + "ops/cpu/elementwise_binary_op.hpp", B + "ops/cpu/elementwise_scalar_op.hpp"],
     [("comparison dispatch", B + "ops/comparison.cpp"), ("element loops", B + "ops/cpu")])
prop("A04", "Reductions cover exactly the requested axes in any layout",
     "Sum, mean, standard deviation (population), variance, maximum and mean-with-deviation over any set of axes (none meaning all), and the median, the count of nonzero elements and standardized moments, equal their mathematical definition over exactly the elements reduced into each output. "
     "This holds for every element type whose result is representable, any memory layout and a given output array of any layout, without modifying the operand or writing outside the output. Axes the array does not have or that are named twice, and outputs that cannot hold the result, are refused.",
     ["inputs"], "reduction x shape x ordered axis subset x type x memory layout x output layout x value pattern",
     "tests reduce a few contiguous arrays along one axis; axis order, views, integer types and given outputs are not sampled",
     [B + "ops/statistical.cpp", B + "ops/cpu/statistical_cpu.cpp"], [("axis iteration", B + "ops/cpu/statistical_cpu.cpp")])
prop("A05", "Masked reductions ignore exactly the masked elements",
     "Masked mean, standard deviation, variance and mean-with-deviation equal the statistic over exactly the elements whose mask value is zero, for any axes and any memory layout of data, mask and output. "
     "When every element of some output is masked, or the mask has another shape or is not an 8-bit mask, or an axis does not exist or the output cannot hold the result, an error is reported instead of a number.",
     ["inputs"], "every mask over small arrays x reduction x axes x layouts of data, mask and output",
     "no test covers masked reductions over axes; the property is over all masks",
     [B + "ops/statistical.cpp", B + "ops/cpu/statistical_cpu.cpp"], [("masked accumulation", B + "ops/cpu/statistical_cpu.cpp")])
prop("A06", "Copies, fills and array creators hold the requested values",
     "Copying (fresh, into a given array of another type or layout, by assignment to a slice, or to a device) and filling set every element to the requested value converted to the array's type, change nothing else, and copies do not alias their source. "
     "zeros, ones, arange and linspace hold exactly the documented sequence (end excluded), random arrays have the requested shape and type and stay within a requested range, a single-element array reads back as its element, and datatype and device names map to what they name while unknown names are rejected.",
     ["inputs"], "types x shapes x layouts x values x ranges, all dtype and device names",
     "tests fill and copy a few contiguous float arrays",
     [B + "ops/ops.cpp", B + "ops/creators.cpp", B + "ndarray.cpp", B + "ops/cpu"], [("copy and fill loops", B + "ops/cpu"), ("name parsing", B + "ndarray.cpp")])
prop("A07", "Deferred arrays evaluate at the right time and the right number of times",
     "A deferred array hands out its source's result: evaluated at construction when eager, once at first access and then shared by all of its copies when cached, and at every access when uncached. "
     "An evaluation that fails is reported and not remembered as a result, a handle that was given nothing is an error to read, and copying or moving the handle between devices never evaluates more often or loses the value.",
     ["histories"], "all sequences of reads, copies and moves over several handles and policies, with the source failing at any evaluation",
     "tests construct deferred arrays from plain arrays; sharing and failure need histories of several handles",
     [B + "ndarray_deferred.cpp", B + "include/bland/ndarray_deferred.hpp"], [("callback or array held in one shared cell", B + "ndarray_deferred.cpp")])
prop("A08", "Tensor exchange keeps elements, ownership and memory",
     "Exporting an array or view as a DLPack tensor describes exactly its elements, keeps them alive until the tensor's deleter is called, and gives everything back then, in either order of release. "
     "Importing a DLPack tensor (compact, strided, without strides or at a byte offset) gives an array with exactly the producer's elements, and copies, assignments, slices and writes refer to the producer's memory, also after the producer's shape description is gone.",
     ["inputs", "histories"], "types x shapes x layouts x release orders (export); stride forms x offsets x uses (import)",
     "no test exports or imports a strided tensor or checks lifetimes",
     [B + "ndarray.cpp", B + "include/bland/ndarray.hpp"], [("managed tensor with its owner", B + "ndarray.cpp")])
prop("A09", "Raw array files round-trip and report errors",
     "Writing an array or view to a file replaces the file by exactly the bytes of its elements in order, and reading a file back as some datatype gives every whole item it holds, for any type, layout and file length. "
     "A missing file, an unwritable path and a full device are reported as errors.",
     ["inputs", "fault_sequences"], "all types x shapes x layouts, all file lengths up to a bound, error kinds", "one test writes and reads one float array",
     [B + "ops/ops.cpp"], [("raw write and read", B)])
prop("A10", "Fourier transform and power spectrum equal their definitions",
     "The Fourier transform and the shifted power spectrum of a real signal of any length (also none) and memory layout equal its discrete Fourier transform (one complex value per frequency) and the squared magnitude of it with the zero frequency moved to the middle (index n/2), and leave the operand alone. Data of another type or with other than one dimension is rejected.",
     ["inputs"], "all lengths up to a bound x layouts x impulses, tones and patterns", "no test exists", [B + "ops/frequency.cpp", B + "ops/cpu"], [("half spectrum unfolded and shifted", B + "ops")])
C = "bliss/core/"
prop("S01", "Coarse channels and slices denote the right data, frequency and metadata",
     "Reading a coarse channel of a scan (of a file or of channels in memory) after any sequence of channel slices gives exactly the samples, first frequency, number and metadata of that channel of the whole scan; the scan's own channel count, first frequency and frequency lookup agree with it. "
     "Channels and slices outside of the scan, and samples and attributes a channel was not given, are rejected, slicing leaves the original alone, assigning an attribute changes that attribute of that scan only, and an inferred channelization always divides the file evenly and recognises the documented ones, and other bands are cut into channels of about 2^18 or a million where that divides them.",
     ["programs", "inputs"], "backing x channelization x all slice chains up to a depth x every channel; many file sizes and resolutions",
     "tests read whole scans from one file; offsets compound over slices of slices",
     [C + "scan.cpp", C + "include/core/scan.hpp", C + "coarse_channel.cpp"], [("channel offset and count of the slice", C + "scan.cpp"), ("channelization inference", C + "scan.cpp")],
     )
prop("S02", "Deferred processing steps run in order, per slice, exactly once per read",
     "Processing steps added to a scan are applied to each coarse channel in the order in which they were added, when that channel is read, whichever channels were read before or sliced away. "
     "Steps added to a scan never affect scans it was sliced from or that were sliced from it earlier, what was handed out to a reader can be changed without affecting the scan, and the hits of a scan are those of all its channels, found once when they are first asked for.",
     ["histories"], "all sequences of add/read/peek/slice/collect operations up to a depth on up to three related scans",
     "tests run one fixed pipeline over one scan; sharing between slices and caches needs operation histories",
     [C + "scan.cpp", C + "include/core/scan.hpp"], [("pipeline of transforms and cache of coarse channels", C + "scan.cpp")])
prop("S03", "Groups of scans are consistent exactly when their channels line up",
     "An observation target or cadence reports its scans consistent exactly when all have the same first frequency and channel width (to within 1 Hz at either end of the band), number of channels and number of coarse channels, and answers channel questions only then (an empty group answers none). "
     "Slicing a group slices every scan to the same channels and keeps target names, order and device.",
     ["inputs", "configurations"], "all groupings of up to three scans out of nine variants and two channelizations; all slices",
     "tests build one cadence of identical scans", [C + "cadence.cpp", C + "include/core/cadence.hpp"], [("validate_scan_consistency and delegated slicing", C + "cadence.cpp")])
prop("S04", "Pipelines give the same channels however they are grouped, stored and read",
     "Any sequence of processing steps (normalize, equalize, flag, estimate noise, integrate drifts, search and filter hits) applied to scans, observation targets or cadences gives every coarse channel exactly the samples, mask, noise estimate, drift plane, hits and metadata which the same steps give for that channel alone, or fails when they fail. "
     "It does not matter whether the samples come from a file or from memory, where in the sequence channels are sliced, or in which order and how often they are read, and the scans the steps were applied to still give their original channels.",
     ["histories", "inputs", "configurations"], "all pipelines with a bounded number of departures from the default one x level x storage x slicing x reading order",
     "tests run each step on one level; a parameter lost on one level, state kept between channels, or a slice applied to the wrong channels needs the combination",
     [C + "scan.cpp", C + "cadence.cpp", C + "coarse_channel.cpp", "bliss/preprocess", "bliss/flaggers", "bliss/estimators", "bliss/drift_search"],
     [("deferred pipeline", C + "scan.cpp"), ("overloads of every step", "bliss/flaggers/spectral_kurtosis.cpp")])
prop("S05", "Devices reach every part of a group, and requests for absent ones change nothing",
     "Setting the device of a coarse channel, scan, observation target or cadence, by name or description, sets it for everything in it and for slices and channels read later, whose samples and drift planes are found on that device unchanged. "
     "Asking for a device that is unknown or not available is an error and leaves the group usable where it was.",
     ["histories"], "all sequences of device requests, reads, pushes and slices up to a length on every level and storage",
     "tests never set a device; whether a failed request leaves a scan usable needs a sequence", [C + "coarse_channel.cpp", C + "scan.cpp", C + "cadence.cpp", "bland/bland/ops/ops.cpp"],
     [("set_device", C + "scan.cpp")])
F = "bliss/flaggers/"
prop("F01", "Flags accumulate and never disappear",
     "After any sequence of flagging steps (filter rolloff, spectral kurtosis, sigma clipping, magnitude), at the level of a channel, scan, observation or cadence, each sample's mask is the bitwise or of the flags it had and the flags each step decides for it. "
     "The mask stays 8 bit with the shape of the data, the samples are unchanged, and channels given to a step keep their own mask.",
     ["histories", "inputs"], "all sequences of flaggers up to a length x initial masks x data x level",
     "tests run one flagger once on an empty mask; losing or turning flags into others needs two steps",
     [F + "filter_rolloff.cpp", F + "spectral_kurtosis.cpp", F + "sigmaclip.cpp", F + "magnitude.cpp"], [("flags combined into the existing mask", F)])
prop("F02", "Flaggers flag exactly the samples their definition names",
     "Filter rolloff flags the given fraction of fine channels at both edges; magnitude flags samples above the threshold (by default mean plus ten standard deviations); spectral kurtosis flags every sample of a channel whose kurtosis estimate is below the lower (low flag) or above the upper (high flag) threshold. "
     "Sigma clipping flags samples outside of mean minus/plus the given multiples of the deviation of the samples not flagged so far, repeated up to the given number of iterations. No other sample is flagged.",
     ["inputs"], "all small data grids over a value alphabet x thresholds; all edge widths x channel counts",
     "tests check that some flags exist on one file; the decision must hold for every data set",
     [F + "filter_rolloff.cpp", F + "spectral_kurtosis.cpp", F + "sigmaclip.cpp", F + "magnitude.cpp", "bliss/estimators/spectral_kurtosis.cpp"], [("flag decisions", F), ("kurtosis estimate", "bliss/estimators/spectral_kurtosis.cpp")])
prop("N01", "Noise estimates use exactly the unmasked samples",
     "The estimated noise floor is the mean and the noise power the standard deviation of the samples that are not masked (or of all samples when masking is off), for every mask and at the level of a channel, scan, observation or cadence; the noise amplitude is the square root of the power. "
     "When everything is masked an error is reported, and the channel's samples and mask are unchanged.",
     ["inputs"], "all small data grids x all masks x method x level", "tests estimate noise of one file without checking against masks",
     ["bliss/estimators/noise_estimate.cpp", "bliss/estimators/include/estimators/noise_estimate.hpp"], [("masked statistics", "bliss/estimators/noise_estimate.cpp")])
prop("E01", "Normalization and passband equalization divide exactly once by the right values",
     "Normalizing divides every sample of a channel by the channel's maximum, equalizing divides each fine channel by its response value (given as array or raw file), in any sequence and at the level of a channel, scan, observation or cadence, and leaves the given channel and response unchanged. "
     "The designed filter taps and the generated channel response equal their mathematical definition (windowed sinc; folded power response scaled to a maximum of one).",
     ["inputs", "histories"], "all sequences of up to three steps x level x data; a range of filter sizes", "tests only run them",
     ["bliss/preprocess/normalize.cpp", "bliss/preprocess/passband_static_equalize.cpp"], [("division and response generation", "bliss/preprocess")])

exec(open(os.path.join(V, "meta_more.py")).read()) if os.path.exists(os.path.join(V, "meta_more.py")) else None

NA = [
    dict(property="Z01", reason="CUDA kernels agreeing with their CPU counterparts: no CUDA compiler or device here, the code is not part of the build, and model checking needs executions (or a bound model) of it"),
dict(property="Z02", reason="Pictures drawn by the plotting helpers: matplotlib and altair are not installed here, so what a reader sees cannot be observed; the data they are given is part of Y02"),
]
ZP = {
    "Z01": ("GPU kernels give the results of their CPU counterparts", "Every array operation and search step run on a GPU gives the result the CPU gives.", "all inputs and launch configurations", [B + "ops/cuda"]),
    "Z02": ("Plots show the searched data and hits", "A plot of a channel or a set of hits shows the spectrum, drift plane and hits at their frequencies, times and drift rates.", "all searched channels", ["bliss/python/blissdedrift/plot_utils"]),
}


def main():
    from props import PROPS
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
        for k, (t, s, q, fs) in ZP.items():
            f.write(json.dumps(dict(id=k, title=t, statement=s, quantifier=dict(over=["inputs"], text=q), why_tests_cant="nothing in this sandbox's build runs it",
                                    anchors=dict(files=fs, mechanism=[dict(name="wrapper or kernel", where=fs[0])]))) + "\n")
    ids = {p["id"] for p in P}
    assert ids <= set(PROPS), ids - set(PROPS)
    checks = []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        note = p["note"] or ("Every execution of the stated bounded spaces is run on the current sources (address sanitizer, patterned uninitialised memory) and compared with an independent "
                             "reference; trusts the reference, the compiler and that small shapes exercise the same code as large ones.")
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", technique=p["technique"],
                           level="model_checking", level_note=note))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
                   notes="No hooks in /repo: the checks compile /repo's own sources together with a harness. fix: commits are listed in known_findings.txt."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    write_design(P)
    print(len(P), "properties")


def write_design(P):
    """the section of DESIGN.md between the markers: one entry for each property"""
    from design import D
    from props import PROPS
    out = []
    for p in P:
        d = D[p["id"]]
        ev = os.path.join(V, "evidence", p["id"] + ".json")
        out += [f"### {p['id']} {p['title']}", "", p["statement"], "",
                f"* Machinery: `harness/{PROPS[p['id']]['harness'][0]}`" + (" with `harness/y_python.py`" if p["id"].startswith("Y") else ""),
                f"* Oracle: {d['oracle']}.", f"* Enumerated: {d['bounds']}.", f"* Beyond the tests: {d['beyond']}."]
        if d.get("assume"):
            out.append(f"* Trusted or left out: {d['assume']}.")
        if d.get("cost"):
            out.append(f"* Cost: {d['cost']}.")
        out.append("")
    f = os.path.join(V, "DESIGN.md")
    s = open(f).read()
    a, b = "<!-- properties: written by meta.py from meta*.py and design.py -->\n", "<!-- end of properties -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(out) + s[j:]
    # planted bugs and what their check said (tools/plant.py confirm)
    a, b = "<!-- planted: written by meta.py from seeded/ and tools/planted.json -->\n", "<!-- end of planted -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    log = json.load(open(os.path.join(V, "tools", "planted.json")))
    rows = ["| property | planted bug | what it needs | the check says |", "|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")), key=lambda m: (json.load(open(m))["property"], m)):
        d, n = json.load(open(m)), os.path.basename(os.path.dirname(m))
        l = log.get(n)
        said = "not confirmed" if not l else ("caught" + (", missed at first" if 0 in l["runs"][:-1] else "") + (" (" + ", ".join(l["keys"][:3]) + ")" if l["keys"] else "")) if l["caught"] else "missed"
        rows.append(f"| {d['property']} | {n} | {d['needs']} | {said} |")
    s = s[:i] + "\n" + "\n".join(rows) + "\n\n" + s[j:]
    import collections, re
    fx = collections.Counter(re.findall(r"^fixed: property=(\S+)", open(os.path.join(V, "known_findings.txt")).read(), re.M))
    s = re.sub(r"(Number of repairs per property: )(.*?)<!-- repairs -->", lambda m: m.group(1) + ", ".join(f"{k} {fx[k]}" for k in sorted(fx)) + " <!-- repairs -->", s)
    s = re.sub(r"in \d+ places", f"in {sum(fx.values())} places", s)
    open(f, "w").write(s)


if __name__ == "__main__":
    main()
