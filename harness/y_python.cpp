// Y01 arrays through the Python modules, Y02 the search through the Python modules.
//
// The two extension modules are compiled from the repository's sources into this process together with an embedded interpreter; the bodies
// of the spaces are Python functions (y_python.py) that drive the real bindings and ask choose() for every decision.  `probe` gives them
// the same objects seen through the C++ interface.
#include <Python.h>
#include "bs.hpp"
#include <core/event.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <nanobind/nanobind.h>
#include <nanobind/ndarray.h>
#include <nanobind/stl/list.h>
#include <nanobind/stl/map.h>
#include <nanobind/stl/shared_ptr.h>
#include <nanobind/stl/string.h>
#include <nanobind/stl/tuple.h>
#include <nanobind/stl/vector.h>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
namespace nb = nanobind;
using namespace bliss;
using mc::Ctx;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" PyObject *PyInit_pybliss();
extern "C" PyObject *PyInit_pybland();
extern "C" PyObject *PyInit_probe();

namespace {
Ctx      *ctx = nullptr;
PyObject *exc_skip = nullptr, *exc_fail = nullptr, *exc_div = nullptr;
[[noreturn]] void raise(PyObject *type, const std::string &m) { PyErr_SetString(type, m.c_str()); throw nb::python_error(); }

nb::dict hit_dict(const hit &h) {
    nb::dict d;
    d["start_freq_index"] = h.start_freq_index; d["start_freq_MHz"] = h.start_freq_MHz; d["start_time_sec"] = h.start_time_sec;
    d["duration_sec"] = h.duration_sec; d["rate_index"] = h.rate_index; d["drift_rate_Hz_per_sec"] = h.drift_rate_Hz_per_sec;
    d["power"] = h.power; d["time_span_steps"] = h.time_span_steps; d["snr"] = h.snr; d["bandwidth"] = h.bandwidth; d["binwidth"] = h.binwidth;
    d["coarse_channel_number"] = h.coarse_channel_number;
    nb::dict r;
    for (auto &[k, v] : h.rfi_counts) r[nb::int_((int)k)] = (int)v;
    d["rfi_counts"] = r;
    return d;
}
nb::list hits_list(const std::list<hit> &hs) { nb::list l; for (auto &h : hs) l.append(hit_dict(h)); return l; }
nb::list array_list(const bland::ndarray &a) { nb::list l; for (double v : bl::values(a)) l.append(v); return l; }
nb::dict array_dict(const bland::ndarray &a) { nb::dict d; d["shape"] = a.shape(); d["dtype"] = bl::name(bl::of(a.dtype())); d["values"] = array_list(a); return d; }
template <typename O> nb::dict meta_dict(const O &o) {
    nb::dict d;
    d["fch1"] = o.fch1(); d["foff"] = o.foff(); d["machine_id"] = o.machine_id(); d["nbits"] = o.nbits(); d["nchans"] = o.nchans();
    d["source_name"] = o.source_name(); d["src_dej"] = o.src_dej(); d["src_raj"] = o.src_raj(); d["telescope_id"] = o.telescope_id();
    d["tsamp"] = o.tsamp(); d["tstart"] = o.tstart(); d["data_type"] = o.data_type(); d["az_start"] = o.az_start(); d["za_start"] = o.za_start();
    return d;
}
nb::list rates_list(frequency_drift_plane &p) {
    nb::list l;
    for (auto &r : p.drift_rate_info()) { nb::dict d; d["index_in_plane"] = r.index_in_plane; d["drift_rate_slope"] = r.drift_rate_slope; d["drift_rate_Hz_per_sec"] = r.drift_rate_Hz_per_sec; d["desmeared_bins"] = r.desmeared_bins; l.append(d); }
    return l;
}
nb::dict cc_dict(coarse_channel &c, bool noise, bool plane, bool hits) {
    nb::dict d = meta_dict(c);
    d["data"] = array_dict(c.data()); d["mask"] = array_dict(c.mask());
    if (noise) { auto n = c.noise_estimate(); nb::dict k; k["noise_floor"] = n.noise_floor(); k["noise_power"] = n.noise_power(); k["noise_amplitude"] = n.noise_amplitude(); d["noise"] = k; }
    if (plane) { auto p = c.integrated_drift_plane(); auto f = p.integrated_rfi(); nb::dict k; k["plane"] = array_dict(p.integrated_drift_plane()); k["rates"] = rates_list(p); k["low"] = array_dict(f.low_spectral_kurtosis); k["high"] = array_dict(f.high_spectral_kurtosis); k["rolloff"] = array_dict(f.filter_rolloff); d["plane"] = k; }
    if (hits) d["hits"] = hits_list(c.hits());
    return d;
}
template <typename O> O stage(O o, const std::string &name, std::vector<double> p, nb::object arr) {
    auto at = [&](size_t i) { return p.at(i); };
    if (name == "normalize") return normalize(o);
    if (name == "flag_filter_rolloff") return flag_filter_rolloff(o, (float)at(0));
    if (name == "flag_spectral_kurtosis") return flag_spectral_kurtosis(o, (float)at(0), (float)at(1), (float)at(2));
    if (name == "flag_sigmaclip") return flag_sigmaclip(o, (int)at(0), (float)at(1), (float)at(2));
    if (name == "flag_magnitude") return flag_magnitude(o);
    if (name == "equalize") return equalize_passband_filter(o, nb::cast<bland::ndarray>(arr));
    if (name == "estimate_noise_power") {
        noise_power_estimate_options n{(noise_power_estimator)(int)at(0), at(1) != 0};
        if constexpr (std::is_same<O, coarse_channel>::value) { o.set_noise_estimate(estimate_noise_power(o, n)); return o; }
        else return estimate_noise_power(o, n);
    }
    if (name == "integrate_drifts") { integrate_drifts_options i; i.desmear = at(0) != 0; i.low_rate = (int64_t)at(1); i.high_rate = (int64_t)at(2); i.rate_step_size = (int64_t)at(3); return integrate_drifts(o, i); }
    if (name == "hit_search") {
        hit_search_options h; h.method = (hit_search_methods)(int)at(0); h.snr_threshold = (float)at(1); h.neighbor_l1_dist = (int)at(2);
        if constexpr (std::is_same<O, coarse_channel>::value) { o.set_hits(hit_search(o, h)); return o; }
        else return hit_search(o, h);
    }
    if (name == "filter_hits") { filter_options f; f.filter_zero_drift = at(0) != 0; return filter_hits(o, f); }
    throw mc::Divergence{"no stage " + name};
}
nb::dict options_dict(const integrate_drifts_options &i) { nb::dict d; d["desmear"] = i.desmear; d["low_rate"] = i.low_rate; d["high_rate"] = i.high_rate; d["rate_step_size"] = i.rate_step_size; return d; }
nb::dict options_dict2(const hit_search_options &i) { nb::dict d; d["method"] = (int)i.method; d["snr_threshold"] = i.snr_threshold; d["neighbor_l1_dist"] = i.neighbor_l1_dist; return d; }
event make_event(std::vector<hit> hs, std::vector<double> v) {
    event e; e.hits.assign(hs.begin(), hs.end());
    e.starting_frequency_Hz = v.at(0); e.average_power = v.at(1); e.average_bandwidth = v.at(2); e.average_snr = v.at(3); e.average_drift_rate_Hz_per_sec = v.at(4); e.event_start_seconds = v.at(5); e.event_end_seconds = v.at(6);
    return e;
}
} // namespace

NB_MODULE(probe, m) {
    m.def("choose", [](int n, const char *l) {
        try { return ctx->choose(n, l); } catch (mc::Skip &) { raise(exc_skip, "skip"); } catch (mc::Divergence &d) { raise(exc_div, d.msg); }
    });
    m.def("deviate", [](int n, const char *l) {
        try { return ctx->deviate(n, l); } catch (mc::Skip &) { raise(exc_skip, "skip"); } catch (mc::Divergence &d) { raise(exc_div, d.msg); }
    });
    m.def("bound", [](int n) { ctx->deviation_bound = n; });
    m.def("skip", [] { raise(exc_skip, "skip"); });
    m.def("fail", [](const std::string &k, const std::string &s) { raise(exc_fail, k + "\n" + s); });
    m.def("note", [](const std::string &s) { ctx->note(s); });
    m.def("verbose", [] { return ctx->verbose; });
    m.def("step", [] { ctx->step(); });
    m.def("state", [](const std::string &s) { ctx->state(mc::hash_str(s)); });
    m.def("outcome", [](const std::string &s) { ctx->outcome(mc::hash_str(s)); });
    m.def("allocated", [] { return __sanitizer_get_current_allocated_bytes ? (int64_t)__sanitizer_get_current_allocated_bytes() : (int64_t)-1; });
    m.def("scratch", [] { return mc::scratch(); });
    m.def("thorough", [] { return mc::thorough(); });
    m.attr("Skip") = nb::borrow(exc_skip); m.attr("Fail") = nb::borrow(exc_fail); m.attr("Divergence") = nb::borrow(exc_div);

    m.def("h5", [](const std::string &name, int64_t T, int64_t N, double fch1, double foff, double tsamp, double tstart, const std::string &source, std::vector<float> data) {
        bs::FileSpec f; f.T = T; f.N = N; f.fch1 = fch1; f.foff = foff; f.tsamp = tsamp; f.tstart = tstart; f.source = source; f.data = data;
        return bs::cached_h5(name, f);
    });
    m.def("hit", [](nb::dict d) {
        hit h{};
        auto i = [&](const char *k) { return nb::cast<int64_t>(d[k]); };
        auto f = [&](const char *k) { return nb::cast<double>(d[k]); };
        h.start_freq_index = i("start_freq_index"); h.start_freq_MHz = f("start_freq_MHz"); h.start_time_sec = f("start_time_sec"); h.duration_sec = f("duration_sec");
        h.rate_index = i("rate_index"); h.drift_rate_Hz_per_sec = f("drift_rate_Hz_per_sec"); h.power = f("power"); h.time_span_steps = i("time_span_steps");
        h.snr = (float)f("snr"); h.bandwidth = (float)f("bandwidth"); h.binwidth = i("binwidth"); h.coarse_channel_number = i("coarse_channel_number");
        for (auto kv : nb::cast<nb::dict>(d["rfi_counts"])) h.rfi_counts[(flag_values)nb::cast<int>(kv.first)] = (uint8_t)nb::cast<int>(kv.second);
        return h;
    });
    m.def("hit_dict", &hit_dict);
    m.def("event", &make_event);
    m.def("event_dict", [](const event &e) {
        nb::dict d; d["hits"] = hits_list(e.hits); d["starting_frequency_Hz"] = e.starting_frequency_Hz; d["average_power"] = e.average_power; d["average_bandwidth"] = e.average_bandwidth;
        d["average_snr"] = e.average_snr; d["average_drift_rate_Hz_per_sec"] = e.average_drift_rate_Hz_per_sec; d["event_start_seconds"] = e.event_start_seconds; d["event_end_seconds"] = e.event_end_seconds;
        return d;
    });
    m.def("events", [](const cadence &c) { return event_search(c); });
    m.def("array", [](const bland::ndarray &a) { return array_dict(a); });
    m.def("cc", &cc_dict);
    m.def("scan_meta", [](const scan &s) { auto d = meta_dict(s); d["num_coarse_channels"] = s.get_number_coarse_channels(); d["file_path"] = s.get_file_path(); return d; });
    m.def("scan_hits", [](scan &s) { return hits_list(s.hits()); });
    m.def("open_scan", [](const std::string &p, int n) { return scan(p, n); });
    m.def("open_observation", [](std::vector<std::string> p, int n) { return observation_target(p, n); });
    m.def("open_cadence", [](std::vector<std::vector<std::string>> p, int n) { return cadence(p, n); });
    m.def("channel", [](scan &s, int i) { return s.read_coarse_channel(i); });
    m.def("scans", [](const observation_target &o) { nb::list l; for (auto &s : o._scans) l.append(nb::cast(scan(s))); return l; });
    m.def("observations", [](const cadence &c) { nb::list l; for (auto &o : c._observations) l.append(nb::cast(observation_target(o))); return l; });
    m.def("stage", &stage<coarse_channel>, nb::arg(), nb::arg(), nb::arg(), nb::arg().none());
    m.def("stage", &stage<scan>, nb::arg(), nb::arg(), nb::arg(), nb::arg().none());
    m.def("stage", &stage<observation_target>, nb::arg(), nb::arg(), nb::arg(), nb::arg().none());
    m.def("stage", &stage<cadence>, nb::arg(), nb::arg(), nb::arg(), nb::arg().none());
    m.def("options", &options_dict);
    m.def("options", &options_dict2);
    m.def("options", [](const filter_options &f) { nb::dict d; d["filter_zero_drift"] = f.filter_zero_drift; return d; });
    m.def("options", [](const noise_power_estimate_options &f) { nb::dict d; d["estimator_method"] = (int)f.estimator_method; d["masked_estimate"] = f.masked_estimate; return d; });
    m.def("flag", [](flag_values v) { return (int)v; });
    m.def("filter_list", [](std::vector<hit> h, bool zero) { filter_options f; f.filter_zero_drift = zero; return hits_list(filter_hits(std::list<hit>(h.begin(), h.end()), f)); });
    m.def("write_hits", [](std::vector<hit> h, const std::string &p) { write_hits_to_capnp_file(std::list<hit>(h.begin(), h.end()), p); });
    m.def("read_hits", [](const std::string &p) { return hits_list(read_hits_from_capnp_file(p)); });
    m.def("read_scan_hits", [](const std::string &p) { return read_scan_hits_from_capnp_file(p); });
    m.def("write_scan_hits", [](scan s, const std::string &p) { write_scan_hits_to_capnp_file(s, p); });
    m.def("read_observation_hits", [](const std::string &p) { return read_observation_target_hits_from_capnp_files(p); });
    m.def("read_cadence_hits", [](const std::string &p) { return read_cadence_hits_from_capnp_files(p); });
    m.def("write_events", [](std::vector<event> e, const std::string &p) { write_events_to_file(e, p); });
    m.def("read_events", [](const std::string &p) { return read_events_from_file(p); });
    m.def("sigmaclip", [](const bland::ndarray &a, int it, float lo, float hi) { return array_dict(flag_sigmaclip(a, it, lo, hi)); });
    m.def("magnitude", [](const bland::ndarray &a, float t) { return array_dict(flag_magnitude(a, t)); });
    m.def("cc_magnitude", [](coarse_channel c, float t) { return flag_magnitude(c, t); });
    m.def("kurtosis", [](const bland::ndarray &a, int n, int mm, float d) { return array_dict(estimate_spectral_kurtosis(a, (int32_t)n, (int32_t)mm, d)); });
    m.def("cc_kurtosis", [](coarse_channel &c, float d) { return array_dict(estimate_spectral_kurtosis(c, d)); });
    m.def("noise", [](const bland::ndarray &a, int method, bool masked) { auto n = estimate_noise_power(a, noise_power_estimate_options{(noise_power_estimator)method, masked}); return std::vector<float>{n.noise_floor(), n.noise_power(), n.noise_amplitude()}; });
    m.def("firdes", [](int n, float fc, const std::string &w) { return array_dict(firdes(n, fc, w)); });
    m.def("response", [](int f, int n, int t, const std::string &w) { return array_dict(gen_coarse_channel_response(f, n, t, w)); });
}

namespace {
std::string error_text() {
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    std::string out;
    if (PyObject *mod = PyImport_ImportModule("traceback")) {
        if (PyObject *l = PyObject_CallMethod(mod, "format_exception", "OOO", t, v ? v : Py_None, tb ? tb : Py_None)) {
            for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) out += PyUnicode_AsUTF8(PyList_GetItem(l, i));
            Py_DECREF(l);
        }
        Py_DECREF(mod);
    }
    PyErr_Clear();
    Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
    return out;
}
PyObject *module() {
    static PyObject *mod = [] {
        exc_skip = nullptr;
        PyImport_AppendInittab("pybliss", &PyInit_pybliss);
        PyImport_AppendInittab("pybland", &PyInit_pybland);
        PyImport_AppendInittab("probe", &PyInit_probe);
        PyConfig config;
        PyConfig_InitPythonConfig(&config);
        config.use_hash_seed = 1; config.hash_seed = 0; config.write_bytecode = 0; config.site_import = 0; config.install_signal_handlers = 0;
        auto st = Py_InitializeFromConfig(&config);
        if (PyStatus_Exception(st)) throw std::runtime_error(std::string("python: ") + st.err_msg);
        PyConfig_Clear(&config);
        exc_skip = PyErr_NewException("probe.Skip", PyExc_BaseException, nullptr);
        exc_fail = PyErr_NewException("probe.Fail", PyExc_BaseException, nullptr);
        exc_div = PyErr_NewException("probe.Divergence", PyExc_BaseException, nullptr);
        PyObject *path = PySys_GetObject("path");
        for (const char *p : {getenv("MC_HARNESS"), getenv("MC_SITE")}) if (p) { PyObject *s = PyUnicode_FromString(p); PyList_Append(path, s); Py_DECREF(s); }
        PyObject *m = PyImport_ImportModule("y_python");
        if (!m) throw std::runtime_error("python: " + error_text());
        return m;
    }();
    return mod;
}
void run(const char *fn, Ctx &c) {
    ctx = &c;
    PyObject *r = PyObject_CallMethod(module(), fn, nullptr);
    if (r) { Py_DECREF(r); return; }
    if (PyErr_ExceptionMatches(exc_skip)) { PyErr_Clear(); throw mc::Skip{}; }
    if (PyErr_ExceptionMatches(exc_div)) throw mc::Divergence{error_text()};
    if (PyErr_ExceptionMatches(exc_fail)) {
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        PyErr_NormalizeException(&t, &v, &tb);
        PyObject *s = PyObject_Str(v);
        std::string m = s ? PyUnicode_AsUTF8(s) : "";
        Py_XDECREF(s); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(tb);
        auto nl = m.find('\n');
        c.fail(m.substr(0, nl), m.substr(nl + 1));
    }
    c.fail("unexpected-python-exception", error_text());
}
void spaces(const char *which) {
    bs::quiet_h5();
    PyObject *l = PyObject_GetAttrString(module(), which);
    if (!l) throw std::runtime_error(error_text());
    for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) {
        std::string fn = PyUnicode_AsUTF8(PyList_GetItem(l, i));
        mc::explore((std::string(which) + ":" + fn).c_str(), [fn](Ctx &c) { run(fn.c_str(), c); });
    }
}
} // namespace
MC_PROPERTY(Y01) { spaces("Y01"); }
MC_PROPERTY(Y02) { spaces("Y02"); }
