# the programs: (source, flags, new name of its main)
MAINS = [("{REPO}/bliss/bliss_find_hits.cpp", [], "find_hits_main"),
         ("{REPO}/bliss/bliss_hits_to_dat.cpp", [], "hits_to_dat_main"),
         ("{REPO}/bliss/bliss_generate_channelizer_response.cpp", [], "channelizer_response_main")]

# the Python modules, built into the harness with an embedded interpreter
NB = "/opt/vp/deps/python/nanobind"
PYFLAGS = [f"-I{NB}/include", f"-I{NB}/ext/robin_map/include", "-I/usr/include/python3.12", "-I{REPO}/bland/python", "-fno-strict-aliasing", "-DNB_COMPACT_ASSERTIONS"]
PYSOURCES = [("{REPO}/bliss/python/pybliss.cpp", PYFLAGS, None), ("{REPO}/bland/python/pybland.cpp", PYFLAGS, None)] + \
            [(f"{NB}/src/{s}.cpp", PYFLAGS, None) for s in ("common", "error", "implicit", "nb_enum", "nb_func", "nb_internals", "nb_ndarray", "nb_static_property", "nb_type", "trampoline")]
PYTHON = dict(harness=["y_python.cpp"], libs="bliss", cflags=PYFLAGS, extra_sources=PYSOURCES,
              ldflags=["-L/usr/lib/x86_64-linux-gnu", "-lpython3.12", "-Wl,-z,muldefs"])  # both modules define the functions of their common header

PROPS = {
    "A01": dict(harness=["a_view.cpp"], libs="bland"),
    "A02": dict(harness=["a_elementwise.cpp"], libs="bland"),
    "A03": dict(harness=["a_elementwise.cpp"], libs="bland"),
    "A04": dict(harness=["a_reduce.cpp"], libs="bland"),
    "A05": dict(harness=["a_reduce.cpp"], libs="bland"),
    "A06": dict(harness=["a_misc.cpp"], libs="bland"),
    "A07": dict(harness=["a_misc.cpp"], libs="bland"),
    "A08": dict(harness=["a_misc.cpp"], libs="bland"),
    "A09": dict(harness=["a_misc.cpp"], libs="bland"),
    "A10": dict(harness=["a_misc.cpp"], libs="bland"),
    "A11": dict(harness=["a_extent.cpp"], libs="bland"),
    "S01": dict(harness=["s_scan.cpp"], libs="bliss"),
    "S02": dict(harness=["s_scan.cpp"], libs="bliss"),
    "S03": dict(harness=["s_scan.cpp"], libs="bliss"),
    "S04": dict(harness=["g_group.cpp"], libs="bliss"),
    "S05": dict(harness=["s_scan.cpp"], libs="bliss"),
    "F01": dict(harness=["f_flag.cpp"], libs="bliss"),
    "F02": dict(harness=["f_flag.cpp"], libs="bliss"),
    "N01": dict(harness=["f_flag.cpp"], libs="bliss"),
    "E01": dict(harness=["f_flag.cpp"], libs="bliss"),
    "D01": dict(harness=["d_search.cpp"], libs="bliss"),
    "D02": dict(harness=["d_search.cpp"], libs="bliss"),
    "D03": dict(harness=["d_search.cpp"], libs="bliss"),
    "D04": dict(harness=["d_search.cpp"], libs="bliss"),
    "D05": dict(harness=["d_search.cpp"], libs="bliss"),
    "D06": dict(harness=["d_search.cpp"], libs="bliss"),
    "H01": dict(harness=["h_h5.cpp"], libs="bliss"),
    "R01": dict(harness=["r_files.cpp"], libs="bliss"),
    "R02": dict(harness=["r_files.cpp"], libs="bliss"),
    "R03": dict(harness=["r_files.cpp"], libs="bliss"),
    "R04": dict(harness=["r_events.cpp"], libs="bliss"),
    "T01": dict(harness=["t_text.cpp"], libs="bliss"),
    "P01": dict(harness=["p_cli.cpp"], libs="bliss", extra_sources=MAINS),
    "P02": dict(harness=["p_cli.cpp"], libs="bliss", extra_sources=MAINS),
    "Y01": dict(PYTHON),
    "Y02": dict(PYTHON),
}
