// T01 printed forms: what repr() of arrays, deferred arrays, types, devices, hits, events, noise estimates and files shows
#include "bs.hpp"
#include <core/event.hpp>
#include <core/hit.hpp>
#include <core/noise_power.hpp>
#include <complex>
#include <regex>
using namespace bl;
using mc::Ctx;

namespace {
// every number which follows a '=' in the text, in order
std::vector<std::pair<std::string, std::string>> fields(const std::string &s) {
    static const std::regex r(R"((\.?[A-Za-z_]+)\s*=\s*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)))");
    std::vector<std::pair<std::string, std::string>> v;
    for (std::sregex_iterator i(s.begin(), s.end(), r), e; i != e; ++i) v.emplace_back((*i)[1], (*i)[2]);
    return v;
}
// printed with that many digits behind the point, the number is at most half a step (and the rounding of doubles) away
bool shows(const std::string &tok, double want, int digits) {
    double g = strtod(tok.c_str(), nullptr);
    if (std::isnan(want)) return std::isnan(g);
    if (std::isinf(want)) return g == want;
    return std::fabs(g - want) <= 0.5000001 * std::pow(10.0, -digits) + 4e-16 * std::fabs(want);
}
std::vector<std::string> split(const std::string &s, char by) {
    std::vector<std::string> out; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, by)) if (t.find_first_not_of(" \t") != std::string::npos) out.push_back(t);
    return out;
}
template <typename T> bool token_is(const std::string &t, T v) {
    char *end = nullptr;
    if constexpr (std::is_same<T, float>::value) { float g = strtof(t.c_str(), &end); return *end == 0 && (g == v || (std::isnan(g) && std::isnan(v))) && std::signbit(g) == std::signbit(v); }
    else if constexpr (std::is_same<T, double>::value) { double g = strtod(t.c_str(), &end); return *end == 0 && (g == v || (std::isnan(g) && std::isnan(v))) && std::signbit(g) == std::signbit(v); }
    else if constexpr (std::is_signed<T>::value) { long long g = strtoll(t.c_str(), &end, 10); return *end == 0 && !t.empty() && g == (long long)v; }
    else { unsigned long long g = strtoull(t.c_str(), &end, 10); return *end == 0 && !t.empty() && t[0] != '-' && g == (unsigned long long)v; }
}
template <typename T> std::vector<T> fill_values(int pattern, int64_t n) {
    using L = std::numeric_limits<T>;
    std::vector<T> sp{(T)0, L::max(), L::lowest(), (T)1, (T)100, L::min()};
    if (L::has_infinity) { sp.push_back(L::infinity()); sp.push_back(-L::infinity()); sp.push_back(L::quiet_NaN()); sp.push_back((T)0.1); sp.push_back(L::denorm_min()); sp.push_back((T)-0.0); sp.push_back((T)1e7); sp.push_back((T)(1.0 / 3)); }
    if (L::is_signed) { sp.push_back((T)-1); sp.push_back((T)-100); }
    std::vector<T> v(n);
    for (int64_t k = 0; k < n; ++k) v[k] = pattern == 0 ? (T)(k + 1) : sp[(k * 5 + 3 * pattern) % sp.size()];
    return v;
}
void check_array(Ctx &c, const ndarray &a, const std::string &text, const std::string &what) {
    auto nl = text.find('\n');
    MC_CHECK(c, nl != std::string::npos, "array-header", what + " prints " + text);
    std::string head = text.substr(0, nl), body = text.substr(nl + 1);
    // shape, type and device are named in the first line
    auto o = head.find('['), e = head.find(']');
    MC_CHECK(c, o != std::string::npos && e != std::string::npos, "array-shape", what + " prints " + head);
    Shape got;
    for (auto &t : split(head.substr(o + 1, e - o - 1), ',')) got.push_back(atoll(t.c_str()));
    MC_CHECK(c, got == a.shape(), "array-shape", what + " prints " + head);
    static const char *names[] = {"float32", "float64", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"};
    DT t = of(a.dtype());
    std::string w = names[t];
    auto at = head.find(w);
    MC_CHECK(c, at != std::string::npos && !isalnum(head[at - 1]), "array-type", what + " prints " + head);
    MC_CHECK(c, head.find("cpu:0") != std::string::npos, "array-device", what + " prints " + head);
    // the first 25 elements, the rows on lines of their own
    int64_t n = std::min<int64_t>(a.numel(), 25), row = a.ndim() ? std::max<int64_t>(a.shape().back(), 1) : 1;
    auto lines = split(body, '\n');
    MC_CHECK(c, (int64_t)lines.size() == (n + row - 1) / row, "array-rows", what + " prints " + text);
    std::vector<std::string> toks;
    for (size_t k = 0; k < lines.size(); ++k) {
        auto ts = split(lines[k], ' ');
        MC_CHECK(c, (int64_t)ts.size() == std::min(row, n - (int64_t)k * row), "array-rows", what + " prints " + text);
        toks.insert(toks.end(), ts.begin(), ts.end());
    }
    with(t, [&](auto z) {
        using T = decltype(z);
        const T *p = a.data_ptr<T>(); int64_t k = 0;
        each_linear(a, [&](int64_t l) { if (k < n) MC_CHECK(c, token_is<T>(toks.at(k), p[l]), "array-element", what + ": element " + mc::str(k) + " is printed as " + toks.at(k)); ++k; });
        return 0;
    });
}
void arrays(Ctx &c) {
    DT t = c.pick(all_dtypes(), "type");
    Shape s = c.pick(std::vector<Shape>{{}, {1}, {3}, {2, 3}, {3, 2}, {4, 1}, {1, 4}, {0}, {2, 0}, {2, 2, 2}, {5, 5}, {5, 7}, {24}, {25}, {26}, {60}, {3, 30}, {2, 1, 13}, {1, 1, 1, 2}, {3, 3, 3, 3}}, "shape");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    int pattern = c.choose(3, "values");
    std::string what = std::string(name(t)) + mc::str(s) + " " + name(l) + " values " + mc::str(pattern);
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    Built b = layout(s, t, std::vector<double>(numel(s), 1.0), l);
    with(t, [&](auto z) { using T = decltype(z); auto v = fill_values<T>(pattern, numel(s)); T *p = b.arr.data_ptr<T>(); size_t k = 0; each_linear(b.arr, [&](int64_t x) { p[x] = v[k++]; }); return 0; });
    std::string r = b.arr.repr();
    check_array(c, b.arr, r, what);
    c.outcome(mc::hash_str(r));
}
// arrays of complex numbers, and views of them
template <typename T> void complex_as(Ctx &c, int bits) {
    Shape s = c.pick(std::vector<Shape>{{}, {1}, {3}, {2, 3}, {4, 1}, {0}, {26}, {3, 30}}, "shape");
    int cut = s.size() && s.back() > 1 ? c.choose(3, "cut") : 0, pattern = c.choose(3, "values");
    ndarray a(s, DLDataType{kDLComplex, (uint8_t)bits, 1});
    auto re = fill_values<T>(pattern, std::max<int64_t>(1, a.numel())), im = fill_values<T>((pattern + 1) % 3, std::max<int64_t>(1, a.numel()));
    auto p = a.data_ptr<std::complex<T>>();
    for (int64_t k = 0; k < a.numel(); ++k) p[k] = {re[k], im[k]};
    if (cut) a = bland::slice(a, (int64_t)s.size() - 1, (int64_t)1, s.back(), (int64_t)cut);
    std::string what = "complex " + mc::str(bits) + mc::str(s) + " cut " + mc::str(cut) + " values " + mc::str(pattern), text = a.repr();
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what)); c.outcome(mc::hash_str(text));
    std::string head = text.substr(0, text.find('\n')), body = text.substr(std::min(text.size(), text.find('\n') + 1));
    MC_CHECK(c, head.find(bits == 64 ? "complex<float32>" : "complex<float64>") != std::string::npos, "array-type", what + " prints " + head);
    // both parts of the first 25 elements, in order
    std::vector<T> got; std::string t;
    static const std::regex r(R"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))");
    for (std::sregex_iterator i(body.begin(), body.end(), r), e; i != e; ++i) got.push_back(sizeof(T) == 4 ? (T)strtof((*i)[0].str().c_str(), nullptr) : (T)strtod((*i)[0].str().c_str(), nullptr));
    std::vector<T> want;
    p = a.data_ptr<std::complex<T>>();
    each_linear(a, [&](int64_t l) { if (want.size() < 50) { want.push_back(p[l].real()); want.push_back(p[l].imag()); } });
    bool same = got.size() == want.size();
    for (size_t k = 0; same && k < got.size(); ++k) same = got[k] == want[k] || std::fabs(got[k] - want[k]) <= 6e-6 * std::fabs(want[k]) || (std::isnan(got[k]) && std::isnan(want[k]));   // to at least six digits
    MC_CHECK(c, same, "array-element", what + " prints " + text);
}
void complex_arrays(Ctx &c) { if (c.flip("double")) complex_as<double>(c, 128); else complex_as<float>(c, 64); }
void deferred(Ctx &c) {
    auto pol = (bland::ndarray_deferred::eval_policy)c.choose(3, "policy");
    int accesses = c.choose(3, "accesses"); bool value = c.flip("made of an array"), twice = c.flip("printed before too");
    int runs = 0;
    ndarray src = make({2, 3}, F32, {1, 2, 3, 4, 5, 6});
    auto d = value ? bland::ndarray_deferred(src) : bland::ndarray_deferred([&] { ++runs; return src; }, pol);
    int at_start = runs;
    if (twice) d.repr();
    MC_CHECK(c, runs == at_start, "print-evaluates", "printing a deferred array evaluated it");
    for (int k = 0; k < accesses; ++k) { ndarray x = d; (void)x; }
    int before = runs;
    std::string r = d.repr();
    MC_CHECK(c, runs == before, "print-evaluates", "printing a deferred array evaluated it");
    bool known = value || pol == bland::ndarray_deferred::eval_policy::eager || (pol == bland::ndarray_deferred::eval_policy::memoize && accesses);
    c.step(); c.state(mc::hash_str(r));
    if (known) check_array(c, src, r, "deferred array");
    else MC_CHECK(c, r.find(pol == bland::ndarray_deferred::eval_policy::lazy ? "lazy" : "memoize") != std::string::npos && r.find("1 2 3") == std::string::npos, "deferred-mode", "prints " + r);
    c.outcome(mc::hash_str(r));
}
void types_devices(Ctx &c) {
    if (c.flip("devices")) {
        int ty = c.pick(std::vector<int>{1, 2, 3, 13}, "type"), id = c.pick(std::vector<int>{0, 1, 7, 100}, "id");
        bland::ndarray::dev d(DLDevice{(DLDeviceType)ty, id});
        auto f = fields(d.repr());
        c.step(); c.state(ty * 1000 + id);
        MC_CHECK(c, f.size() == 2 && atoi(f[0].second.c_str()) == ty && atoi(f[1].second.c_str()) == id, "device", "prints " + d.repr());
    } else {
        DT t = c.pick(all_dtypes(), "type");
        bland::ndarray::datatype d(dl(t));
        auto f = fields(d.repr());
        c.step(); c.state(t);
        MC_CHECK(c, f.size() == 3 && atoi(f[0].second.c_str()) == dl(t).code && atoi(f[1].second.c_str()) == dl(t).bits && atoi(f[2].second.c_str()) == 1, "datatype", "prints " + d.repr());
    }
}
bliss::hit some_hit(int base, int which, int value) {
    bliss::hit h{};
    h.start_freq_index = 100 + base; h.start_freq_MHz = 1420.123456 + base; h.rate_index = 7 + base; h.drift_rate_Hz_per_sec = -0.25 * (base + 1); h.snr = 12.5f + base; h.power = 1e6 + base; h.bandwidth = 8.4f + base;
    h.start_time_sec = 5e9; h.duration_sec = 300; h.time_span_steps = 16; h.binwidth = 3; h.coarse_channel_number = 9;
    static const double D[] = {0, -1.5, 123456.789, 1e-9, -2.123456789e3, 3.0e9, 0.9999999}; static const int64_t I[] = {0, -1, 1048575, 2147483648ll, -9000000000ll, 9007199254740993ll, 5};
    double d = D[value]; int64_t i = I[value];
    switch (which) {
    case 0: h.start_freq_index = i; break;
    case 1: h.start_freq_MHz = d; break;
    case 2: h.rate_index = i; break;
    case 3: h.drift_rate_Hz_per_sec = d; break;
    case 4: h.snr = (float)d; break;
    case 5: h.power = d; break;
    case 6: h.bandwidth = (float)d; break;
    default: break;
    }
    return h;
}
using Fields = std::vector<std::pair<std::string, std::string>>;
void check_hit(Ctx &c, const bliss::hit &h, const Fields &f, size_t at, const std::string &text) {
    auto bad = [&](const char *k) { c.fail(std::string("hit-") + k, "a hit with frequency " + mc::str(h.start_freq_MHz) + ", index " + mc::str(h.start_freq_index) + ", rate " + mc::str(h.drift_rate_Hz_per_sec) + ", rate index " + mc::str(h.rate_index) + ", snr " + mc::str(h.snr) + ", power " + mc::str(h.power) + ", bandwidth " + mc::str(h.bandwidth) + " prints " + text); };
    if (f.size() < at + 7) bad("fields");
    if (!shows(f[at].second, h.start_freq_MHz, 6)) bad("frequency");
    if (strtoll(f[at + 1].second.c_str(), nullptr, 10) != h.start_freq_index) bad("index");
    if (!shows(f[at + 2].second, h.drift_rate_Hz_per_sec, 6)) bad("drift");
    if (strtoll(f[at + 3].second.c_str(), nullptr, 10) != h.rate_index) bad("rate-index");
    if (!shows(f[at + 4].second, h.snr, 6)) bad("snr");
    if (!shows(f[at + 5].second, h.power, 0)) bad("power");
    if (!shows(f[at + 6].second, h.bandwidth, 1)) bad("bandwidth");
}
void hits_(Ctx &c) {
    int w1 = c.choose(7, "field"), v1 = c.choose(7, "value"), w2 = c.choose(8, "second field"), v2 = c.choose(7, "its value");
    c.assume(w2 > w1 || w2 == 7); c.assume(w2 < 7 || v2 == 0);
    bliss::hit h = some_hit(0, w1, v1);
    if (w2 < 7) { auto q = some_hit(0, w2, v2); switch (w2) { case 1: h.start_freq_MHz = q.start_freq_MHz; break; case 2: h.rate_index = q.rate_index; break; case 3: h.drift_rate_Hz_per_sec = q.drift_rate_Hz_per_sec; break; case 4: h.snr = q.snr; break; case 5: h.power = q.power; break; case 6: h.bandwidth = q.bandwidth; break; default: break; } }
    std::string r = h.repr();
    MC_NOTE(c, r); c.step(); c.state(mc::hash_str(r));
    auto f = fields(r);
    MC_CHECK(c, f.size() == 7, "hit-fields", r);
    check_hit(c, h, f, 0, r);
    c.outcome(mc::hash_str(r));
}
void events_(Ctx &c) {
    static const double D[] = {0, -1.5, 123456.789, 1e-9, -2.123456789e3, 3.0e9};
    int n = c.choose(4, "hits"), which = c.choose(7, "field"), val = c.choose(6, "value");
    bliss::event e;
    e.starting_frequency_Hz = 1.42e9; e.average_drift_rate_Hz_per_sec = -0.75; e.average_power = 12.25f; e.average_snr = 33.5f; e.event_start_seconds = 5.1840003e9; e.event_end_seconds = 5.184e9 + 900.125;
    double d = D[val];
    switch (which) { case 0: e.starting_frequency_Hz = d; break; case 1: e.average_drift_rate_Hz_per_sec = d; break; case 2: e.average_power = (float)d; break; case 3: e.average_snr = (float)d; break; case 4: e.event_start_seconds = d; break; case 5: e.event_end_seconds = d; break; default: c.assume(val == 0); }
    std::vector<bliss::hit> hs;
    for (int k = 0; k < n; ++k) { hs.push_back(some_hit(k, (k + val) % 7, (k * 3 + which) % 7)); e.hits.push_back(hs.back()); }
    std::string r = e.repr();
    MC_NOTE(c, r); c.step(); c.state(mc::hash_str(r));
    auto f = fields(r);
    MC_CHECK(c, f.size() == 6 + 7 * (size_t)n, "event-fields", r);
    bool ok = shows(f[0].second, e.starting_frequency_Hz, 0) && shows(f[1].second, e.average_drift_rate_Hz_per_sec, 2) && token_is<float>(f[2].second, e.average_power) && token_is<float>(f[3].second, e.average_snr) &&
              token_is<double>(f[4].second, e.event_start_seconds) && token_is<double>(f[5].second, e.event_end_seconds);
    MC_CHECK(c, ok, "event-values", r);
    for (int k = 0; k < n; ++k) check_hit(c, hs[k], f, 6 + 7 * k, r);
    c.outcome(mc::hash_str(r));
}
void noise(Ctx &c) {
    std::vector<double> v{0, 1, -2.5, 1e10, 1.0 / 3, std::numeric_limits<double>::infinity(), 4.5e-20};
    float fl = (float)c.pick(v, "floor"), po = (float)c.pick(v, "power");
    bliss::noise_stats s;
    s.set_noise_floor(make({1}, F32, {fl})); s.set_noise_power(make({1}, F32, {po}));
    std::string r = s.repr();
    MC_NOTE(c, r); c.step(); c.state(mc::hash_str(r));
    auto a = r.find("noise_floor="), b = r.find("noise_power=");
    MC_CHECK(c, a != std::string::npos && b != std::string::npos && a < b, "noise", r);
    auto shown = [&](std::string t, float w) { for (auto &line : split(t, '\n')) for (auto &x : split(line, ' ')) if (token_is<float>(x, w)) return true; return false; };
    MC_CHECK(c, shown(r.substr(a + 12, b - a - 12), fl) && shown(r.substr(b + 12), po), "noise", "floor " + mc::str(fl) + " and power " + mc::str(po) + " print as " + r);
    c.outcome(mc::hash_str(r));
}
void files(Ctx &c) {
    bs::quiet_h5();
    bs::FileSpec f;
    f.cls = c.pick(std::vector<std::string>{"FILTERBANK", "X", "{}"}, "class");
    f.version = c.pick(std::vector<std::string>{"1.0", "2.5", "{0} %s"}, "version");
    std::string nm = c.pick(std::vector<std::string>{"a.h5", "with space.h5", "{}.h5", "%s.h5"}, "name");
    std::string p = mc::scratch() + "/" + nm;
    bs::write_h5(p, f);
    std::string what = "file " + nm + " of class " + f.cls + " " + f.version;
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    bliss::h5_filterbank_file h(p);
    std::string r = h.repr();
    MC_CHECK(c, r.find(p) != std::string::npos && r.find(f.cls) != std::string::npos && r.find(f.version) != std::string::npos, "file", what + " prints " + r);
    unlink(p.c_str());
    c.outcome(mc::hash_str(r));
}
} // namespace

MC_PROPERTY(T01) {
    mc::explore("arrays", arrays);
    mc::explore("complex", complex_arrays);
    mc::explore("deferred", deferred);
    mc::explore("types-and-devices", types_devices);
    mc::explore("hits", hits_);
    mc::explore("events", events_);
    mc::explore("noise", noise);
    mc::explore("files", files);
}
