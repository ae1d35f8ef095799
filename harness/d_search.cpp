// D01 drift integration, D02 connected components, D03 local maxima, D04 hit description, D05 hit filtering, D06 event search
#include "bs.hpp"
#include <core/flag_values.hpp>
#include <core/hit.hpp>
#include <drift_search/connected_components.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/protohit_search.hpp>
#include <kernels/drift_integration_bland.hpp>
#include <kernels/drift_integration_cpu.hpp>
using namespace bs;
using bliss::coarse_channel; using bliss::scan; using bliss::observation_target; using bliss::cadence; using bliss::hit;
using bliss::flag_values; using bliss::protohit;

namespace {
using Grid = std::vector<double>;
using Rate = bliss::frequency_drift_plane::drift_rate;
const flag_values LOW = flag_values::low_spectral_kurtosis, HIGH = flag_values::high_spectral_kurtosis, ROLL = flag_values::filter_rolloff;

template <typename F> cadence one_cadence(const coarse_channel &cc, F f) {       // a pipeline step at cadence level
    std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc);
    return f(cadence({observation_target(std::vector<scan>{scan(m)})}));
}
// ------------------------------------------------------------------ D01
struct Plane { Grid v; std::vector<int> roll, low, high; };
Plane ref_plane(const Grid &g, const Grid &m, int64_t T, int64_t N, const std::vector<Rate> &rates) {
    Plane p; size_t D = rates.size();
    p.v.assign(D * N, 0); p.roll.assign(D * N, 0); p.low = p.high = p.roll;
    for (size_t d = 0; d < D; ++d) for (int64_t ch = 0; ch < N; ++ch) {
        auto &r = rates[d];
        double slope = r.drift_rate_slope;
        if (slope < 0 && ch < -r.drift_channels_span) continue;           // such tracks leave the band
        for (int64_t t = 0; t < T; ++t) for (int j = 0; j < r.desmeared_bins; ++j) {
            int64_t off = (int64_t)std::round(slope * t), c = ch + (slope >= 0 ? off + j : off - j);
            if (c < 0 || c >= N) continue;
            size_t o = d * N + ch;
            p.v[o] += g[t * N + c] / r.desmeared_bins / T;
            int f = (int)m[t * N + c];
            auto up = [](int &x) { if (x < 255) ++x; };
            if (f & 1) up(p.roll[o]);
            if (f & 2) up(p.low[o]);
            if (f & 4) up(p.high[o]);
        }
    }
    return p;
}
void check_plane(Ctx &c, bliss::frequency_drift_plane &fp, const Plane &want, const Grid &g, int64_t T, int64_t N, int64_t D, const std::string &w, int64_t bins = 1) {
    auto a = fp.integrated_drift_plane();
    MC_CHECK(c, a.shape() == (Shape{D, N}), "plane-shape", w + ": plane has shape " + mc::str(a.shape()));
    MC_CHECK(c, fp.integration_steps() == T, "integration-steps", w + ": " + mc::str(fp.integration_steps()) + " steps");
    double scale = 0; for (double x : g) scale = std::max(scale, std::fabs(x));
    auto v = bl::values(a);
    for (size_t i = 0; i < v.size(); ++i)
        MC_CHECK(c, std::fabs(v[i] - want.v[i]) <= (2e-6 + 6e-8 * bins) * scale * T, "plane-value", w + ": drift " + mc::str(i / N) + " channel " + mc::str(i % N) + " is " + mc::str(v[i]) + ", expected " + mc::str(want.v[i]));
    auto r = fp.integrated_rfi();
    auto chk = [&](const bland::ndarray &x, const std::vector<int> &e, const char *n) {
        MC_CHECK(c, x.shape() == (Shape{D, N}) && x.dtype() == bl::dl(bl::U8), "rfi-shape", w);
        auto q = bl::values(x);
        for (size_t i = 0; i < q.size(); ++i) MC_CHECK(c, (int)q[i] == e[i], std::string("rfi-") + n, w + ": " + n + " count of drift " + mc::str(i / N) + " channel " + mc::str(i % N) + " is " + mc::str(q[i]) + ", expected " + mc::str(e[i]));
    };
    chk(r.filter_rolloff, want.roll, "rolloff"); chk(r.low_spectral_kurtosis, want.low, "low-sk"); chk(r.high_spectral_kurtosis, want.high, "high-sk");
}
void check_rates(Ctx &c, const std::vector<Rate> &rates, const bliss::integrate_drifts_options &o, int64_t T, double foff, double tsamp, const std::string &w) {
    int64_t D = (o.high_rate - o.low_rate) / o.rate_step_size;
    MC_CHECK(c, (int64_t)rates.size() == D, "rate-count", w + ": " + mc::str(rates.size()) + " drift rates, expected " + mc::str(D));
    for (int64_t d = 0; d < D; ++d) {
        auto &r = rates[d];
        int64_t span = o.low_rate + d * o.rate_step_size;
        double slope = T > 1 ? (double)span / (T - 1) : 0, hz = T > 1 ? span * foff * 1e6 / (tsamp * (T - 1)) : 0;
        MC_CHECK(c, r.index_in_plane == d && r.drift_channels_span == span, "rate-span", w + ": rate " + mc::str(d) + " spans " + mc::str(r.drift_channels_span) + " channels, expected " + mc::str(span));
        MC_CHECK(c, bl::close(r.drift_rate_slope, slope, 1e-6, 0), "rate-slope", w + ": rate " + mc::str(d) + " has slope " + mc::str(r.drift_rate_slope) + ", expected " + mc::str(slope));
        MC_CHECK(c, bl::close(r.drift_rate_Hz_per_sec, hz, 1e-6, 0), "rate-hz", w + ": rate " + mc::str(d) + " is " + mc::str(r.drift_rate_Hz_per_sec) + " Hz/s, expected " + mc::str(hz));
        double f = std::fabs(slope) - std::floor(std::fabs(slope));
        int64_t want = o.desmear ? std::max<int64_t>(1, std::llround(std::fabs(slope))) : 1;
        if (std::fabs(f - 0.5) > 1e-4 || f == 0.5) MC_CHECK(c, r.desmeared_bins == want, "rate-desmear", w + ": rate " + mc::str(d) + " is averaged over " + mc::str(r.desmeared_bins) + " channels, expected " + mc::str(want));
    }
}
void integrate(Ctx &c) {
    int64_t T = c.pick(std::vector<int64_t>{1, 2, 3, 5}, "T"), N = c.pick(std::vector<int64_t>{1, 3, 6}, "N");
    struct R { int64_t lo, hi, step; };
    auto r = c.pick(std::vector<R>{{-3, 4, 1}, {0, 1, 1}, {-8, 9, 2}, {-2, 3, 3}, {4, -5, -1}, {-13, -9, 1}, {9, 14, 1}, {-40, 41, 20}}, "rates");
    bool desmear = c.flip("desmear");
    double foff = c.pick(std::vector<double>{-0.25, 2.7e-6}, "foff"), tsamp = c.pick(std::vector<double>{2.0, 18.25}, "tsamp");
    int lay = c.choose(bl::NLAYOUT, "layout");
    int level = c.choose(mc::thorough() ? 5 : 2, "level");                  // channel, cadence; kernels directly when thorough
    int64_t n = T * N;
    int at = c.choose((int)n + 1, "impulse");
    Grid g(n, 0), m(n, 0);
    if (at < n) { g[at] = 12; m[at] = 1 + at % 7; }
    else for (int64_t i = 0; i < n; ++i) { g[i] = (i * 37 % 101) - 20.5; m[i] = (i * 53 + 5) % 256; }
    std::string w = "T=" + mc::str(T) + " N=" + mc::str(N) + " rates " + mc::str(r.lo) + ":" + mc::str(r.hi) + ":" + mc::str(r.step) + (desmear ? " desmeared" : "") + " foff " + mc::str(foff) + " tsamp " + mc::str(tsamp) +
                    " " + bl::name((bl::Layout)lay) + " level " + mc::str(level);
    MC_NOTE(c, w + " data " + mc::str(g) + " mask " + mc::str(m)); c.step(); c.state(mc::hash_str(w) + at);
    bliss::integrate_drifts_options o{.desmear = desmear, .low_rate = r.lo, .high_rate = r.hi, .rate_step_size = r.step};
    CC s; s.T = T; s.N = N; s.foff = foff; s.tsamp = tsamp;
    auto cc = make_cc(s);
    auto D = bl::layout({T, N}, bl::F32, g, (bl::Layout)lay), M = bl::layout({T, N}, bl::U8, m, (bl::Layout)((lay + level) % bl::NLAYOUT), 7);
    cc.set_data(D.arr); cc.set_mask(M.arr);
    coarse_channel out = cc;
    if (level == 0) out = bliss::integrate_drifts(cc, o);
    else out = *one_cadence(cc, [&](cadence x) { return bliss::integrate_drifts(x, o); })._observations.at(0)._scans.at(0).read_coarse_channel(0);
    auto fp = out.integrated_drift_plane();
    auto rates = fp.drift_rate_info();
    check_rates(c, rates, o, T, foff, tsamp, w);
    auto want = ref_plane(g, m, T, N, rates);
    check_plane(c, fp, want, g, T, N, rates.size(), w);
    MC_CHECK(c, bl::intact(D, true) && bl::intact(M, true), "input-changed", w + ": integration changed its input");
    c.outcome(mc::hash_vec(want.v));
}
void large_integration(Ctx &c) {          // sizes of real recordings: many steps, channels and rates
    struct S { int64_t T, N; };
    auto sh = c.pick(mc::thorough() ? std::vector<S>{{16, 4099}, {64, 1024}, {300, 129}, {33, 257}, {2, 5000}, {1, 3001}} : std::vector<S>{{16, 515}, {64, 130}, {300, 33}, {2, 1501}}, "shape");
    int64_t T = sh.T, N = sh.N;
    struct R { int64_t lo, hi, step; };
    auto r = c.pick(std::vector<R>{{-130, 131, 13}, {0, 1000, 90}, {-2500, -900, 200}, {-6, 6, 1}, {300, -300, -60}}, "rates");
    bool desmear = c.flip("desmear");
    int data = c.choose(3, "data");
    int lay = mc::thorough() ? c.choose(bl::NLAYOUT, "layout") : (data + 2 * desmear) % bl::NLAYOUT;
    Grid g(T * N, 0), m(T * N, 0);
    for (int64_t t = 0; t < T; ++t) for (int64_t i = 0; i < N; ++i) {
        int64_t k = t * N + i;
        g[k] = data == 0 ? (i == N / 2 + t * 3 ? 100 : i == N - 1 || i == 0 ? 7 : 0) : data == 1 ? (k * 37 % 101) - 20.5 : 1;
        m[k] = data == 0 ? (i == N / 2 + t * 3 ? 7 : 0) : data == 1 ? (k * 53 + 5) % 256 : 1 << (i * 3 / N);
    }
    std::string w = "T=" + mc::str(T) + " N=" + mc::str(N) + " rates " + mc::str(r.lo) + ":" + mc::str(r.hi) + ":" + mc::str(r.step) + (desmear ? " desmeared" : "") + " data " + mc::str(data) + " " + bl::name((bl::Layout)lay);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    bliss::integrate_drifts_options o{.desmear = desmear, .low_rate = r.lo, .high_rate = r.hi, .rate_step_size = r.step};
    CC s; s.T = T; s.N = N; s.foff = -2.7939677238464355e-6; s.tsamp = 18.25;
    auto cc = make_cc(s);
    auto D = bl::layout({T, N}, bl::F32, g, (bl::Layout)lay), M = bl::layout({T, N}, bl::U8, m, (bl::Layout)((lay + 1) % bl::NLAYOUT), 7);
    cc.set_data(D.arr); cc.set_mask(M.arr);
    auto out = bliss::integrate_drifts(cc, o);
    auto fp = out.integrated_drift_plane();
    auto rates = fp.drift_rate_info();
    check_rates(c, rates, o, T, s.foff, s.tsamp, w);
    auto want = ref_plane(g, m, T, N, rates);
    int64_t bins = 1; for (auto &x : rates) bins = std::max<int64_t>(bins, x.desmeared_bins);
    check_plane(c, fp, want, g, T, N, rates.size(), w, bins);
    MC_CHECK(c, bl::intact(D, true) && bl::intact(M, true), "input-changed", w + ": integration changed its input");
    c.outcome(mc::hash_vec(want.v));
}
// the array-based kernel (used for devices without a kernel of their own) integrates the same plane
void kernels(Ctx &c) {
    int64_t T = c.pick(std::vector<int64_t>{2, 3, 4}, "T"), N = 8;
    bool desmear = c.flip("desmear");
    struct R { int64_t lo, hi, step; };
    auto r = c.pick(std::vector<R>{{-3, 4, 1}, {0, 1, 1}, {-4, 5, 2}, {2, 4, 1}}, "rates");
    int at = c.choose((int)(T * N) + 1, "impulse");
    Grid g(T * N, 0), m(T * N, 0);
    if (at < T * N) { g[at] = 12; m[at] = 1 + at % 7; }
    else for (int64_t i = 0; i < T * N; ++i) { g[i] = (i * 37 % 101) - 20.5; m[i] = (i * 53 + 5) % 256; }
    std::string w = "T=" + mc::str(T) + " rates " + mc::str(r.lo) + ":" + mc::str(r.hi) + ":" + mc::str(r.step) + (desmear ? " desmeared" : "");
    MC_NOTE(c, w + " data " + mc::str(g) + " mask " + mc::str(m)); c.step(); c.state(mc::hash_str(w) + at);
    bliss::integrate_drifts_options o{.desmear = desmear, .low_rate = r.lo, .high_rate = r.hi, .rate_step_size = r.step};
    CC s; s.T = T; s.N = N; s.data = g; s.mask = m;
    auto cc = make_cc(s);
    auto rates = bliss::integrate_drifts(cc, o).integrated_drift_plane().drift_rate_info();
    auto want = ref_plane(g, m, T, N, rates);
    auto a = bliss::integrate_linear_rounded_bins_cpu(cc.data(), cc.mask(), rates, o);
    check_plane(c, a, want, g, T, N, rates.size(), w + " cpu kernel");
    auto b = bliss::integrate_linear_rounded_bins_bland(cc.data(), cc.mask(), rates, o);
    check_plane(c, b, want, g, T, N, rates.size(), w + " array kernel");
    c.outcome(mc::hash_vec(want.v));
}
void many_flags(Ctx &c) {          // counts saturate
    int64_t T = c.pick(std::vector<int64_t>{100, 255, 256, 257, 512, 600}, "T"), N = 3;
    int flag = 1 << c.choose(3, "flag");
    bool neg = c.flip("negative");
    CC s; s.T = T; s.N = N; s.data.assign(T * N, 1); s.mask.assign(T * N, flag);
    std::string w = mc::str(T) + " flagged time steps";
    MC_NOTE(c, w); c.step(); c.state(T * 8 + flag); c.outcome(T + neg);
    bliss::integrate_drifts_options o{.desmear = true, .low_rate = neg ? -1 : 0, .high_rate = neg ? 0 : 1, .rate_step_size = 1};
    auto fp = bliss::integrate_drifts(make_cc(s), o).integrated_drift_plane();
    check_plane(c, fp, ref_plane(s.data, s.mask, T, N, fp.drift_rate_info()), s.data, T, N, 1, w);
}
void bad_rates(Ctx &c) {
    int64_t lo = c.choose(3, "low") - 1, hi = c.choose(3, "high") - 1, step = c.choose(3, "step") - 1;
    bool ok = step != 0 && (hi - lo) / step > 0;
    std::string w = "rates " + mc::str(lo) + ":" + mc::str(hi) + ":" + mc::str(step);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w)); c.outcome(ok);
    bliss::integrate_drifts_options o{.desmear = true, .low_rate = lo, .high_rate = hi, .rate_step_size = step};
    CC s;
    auto e = thrown([&] { (void)bliss::integrate_drifts(make_cc(s), o); });
    MC_CHECK(c, e.empty() == ok, ok ? "rates-rejected" : "no-rates-accepted", w + (ok ? " is rejected: " + e : " names no drift rates but is accepted"));
}

// ------------------------------------------------------------------ D02 / D03
struct Search {
    int64_t D, N; Grid v; Grid noise; double floor = 0, thr = 10; int L = 1;
    double snr(int64_t i) const { return (float)(((float)v[i] - (float)floor) / (float)noise[i / N]); }
};
std::vector<bliss::protohit_drift_info> noise_info(const Search &s) { std::vector<bliss::protohit_drift_info> n; for (double x : s.noise) n.push_back({(float)x}); return n; }
bliss::integrated_flags flags_of(const Search &s) {
    bliss::integrated_flags f(s.D, s.N);
    for (int64_t i = 0; i < s.D * s.N; ++i) { bl::set_at(f.filter_rolloff, i, i % 251); bl::set_at(f.low_spectral_kurtosis, i, (i * 3 + 1) % 251); bl::set_at(f.high_spectral_kurtosis, i, (i * 5 + 2) % 251); }
    return f;
}
void check_rfi(Ctx &c, const Search &s, protohit p, const std::string &w) {
    int64_t i = p.index_max.drift_index * s.N + p.index_max.frequency_channel;
    MC_CHECK(c, p.rfi_counts[ROLL] == i % 251 && p.rfi_counts[LOW] == (i * 3 + 1) % 251 && p.rfi_counts[HIGH] == (i * 5 + 2) % 251, "rfi-of-peak",
             w + ": the interference counts of the hit peaking at " + mc::str(i / s.N) + "," + mc::str(i % s.N) + " are not those of its peak (rolloff " + mc::str((int)p.rfi_counts[ROLL]) + ")");
}
// the cells within the distance of cell a, not a itself
template <typename F> void around(const Search &s, int64_t a, F f) {
    int64_t d0 = a / s.N, f0 = a % s.N;
    for (int64_t d = std::max<int64_t>(0, d0 - s.L); d <= std::min(s.D - 1, d0 + s.L); ++d) {
        int64_t r = s.L - std::abs(d - d0);
        for (int64_t x = std::max<int64_t>(0, f0 - r); x <= std::min(s.N - 1, f0 + r); ++x) if (d != d0 || x != f0) f(d * s.N + x);
    }
}
std::vector<std::vector<int64_t>> ref_components(const Search &s) {
    int64_t n = s.D * s.N;
    std::vector<std::vector<int64_t>> out; std::vector<char> seen(n, 0);
    for (int64_t i = 0; i < n; ++i) {
        if (seen[i] || !(s.snr(i) > s.thr / 2)) continue;
        std::vector<int64_t> q{i}; seen[i] = 1; bool strong = false;
        for (size_t k = 0; k < q.size(); ++k) {
            strong |= s.snr(q[k]) > s.thr;
            around(s, q[k], [&](int64_t b) { if (!seen[b] && s.snr(b) > s.thr / 2) { seen[b] = 1; q.push_back(b); } });
        }
        if (strong) { std::sort(q.begin(), q.end()); out.push_back(q); }
    }
    return out;
}
std::vector<int64_t> ref_maxima(const Search &s) {
    std::vector<int64_t> out;
    for (int64_t d = 0; d < s.D; ++d) for (int64_t f = 0; f < s.N; ++f) {
        int64_t i = d * s.N + f;
        if (!(s.snr(i) > s.thr)) continue;
        bool ok = d >= s.L && f >= s.L && d + s.L < s.D && f + s.L < s.N;        // its neighbourhood is inside of the plane
        if (ok) around(s, i, [&](int64_t b) { ok = ok && s.snr(i) > s.snr(b); });
        if (ok) out.push_back(i);
    }
    return out;
}
std::string brief(std::string x) { if (x.size() > 600) x = x.substr(0, 600) + "..."; return x; }
std::string show(const Search &s) { return mc::str(s.D) + "x" + mc::str(s.N) + " plane " + mc::str(s.v) + " noise " + mc::str(s.noise) + " L1 distance " + mc::str(s.L); }
void check_components(Ctx &c, const Search &s, std::vector<protohit> got, const std::string &w) {
    auto want = ref_components(s);
    std::set<std::vector<int64_t>> have, expected(want.begin(), want.end());
    for (auto &p : got) {
        std::vector<int64_t> l;
        for (auto &x : p.locations) l.push_back(x.drift_index * s.N + x.frequency_channel);
        std::sort(l.begin(), l.end());
        MC_CHECK(c, have.insert(l).second, "component-repeated", w + ": the group " + mc::str(l) + " is reported twice");
        MC_CHECK(c, expected.count(l), "component-cells", w + ": reported group " + brief(mc::str(l)) + ", expected groups " + brief(mc::str(want)));
        int64_t m = p.index_max.drift_index * s.N + p.index_max.frequency_channel;
        double best = -1e30; for (auto i : l) best = std::max(best, s.snr(i));
        MC_CHECK(c, std::find(l.begin(), l.end(), m) != l.end() && s.snr(m) >= best - 1e-5 * std::fabs(best), "component-peak", w + ": the peak of group " + mc::str(l) + " is reported at " + mc::str(m));
        MC_CHECK(c, bl::close(p.snr, best, 1e-6, 0) && p.max_integration == (float)s.v[m] && p.desmeared_noise == (float)s.noise[m / s.N], "component-power", w + ": snr " + mc::str((double)p.snr) + " power " + mc::str((double)p.max_integration));
        int64_t lo = m % s.N, hi = lo;
        for (auto i : l) if (i / s.N == m / s.N) { lo = std::min(lo, i % s.N); hi = std::max(hi, i % s.N); }
        MC_CHECK(c, p.binwidth == hi - lo && p.index_center.drift_index == m / s.N && p.index_center.frequency_channel == (lo + hi) / 2, "component-width", w + ": width " + mc::str(p.binwidth) + " centre " + mc::str(p.index_center.frequency_channel) + " of group " + mc::str(l));
        check_rfi(c, s, p, w);
    }
    MC_CHECK(c, have.size() == want.size(), "component-missing", w + ": " + mc::str(have.size()) + " groups reported, expected " + mc::str(want.size()) + ": " + brief(mc::str(want)));
    c.outcome(want.size() * 64 + (want.empty() ? 0 : want[0].size()));
}
void check_maxima(Ctx &c, const Search &s, std::vector<protohit> got, const std::string &w) {
    auto want = ref_maxima(s);
    std::vector<int64_t> have;
    for (auto &p : got) {
        int64_t m = p.index_max.drift_index * s.N + p.index_max.frequency_channel, d = m / s.N;
        have.push_back(m);
        MC_CHECK(c, bl::close(p.snr, s.snr(m), 1e-6, 0) && p.max_integration == (float)s.v[m] && p.desmeared_noise == (float)s.noise[d], "maximum-power", w + ": snr " + mc::str((double)p.snr));
        int64_t lo = m - 1, hi = m + 1;
        while (lo >= d * s.N && s.snr(lo) > s.thr && s.v[lo] < s.v[lo + 1]) --lo;
        while (hi < (d + 1) * s.N && s.snr(hi) > s.thr && s.v[hi] < s.v[hi - 1]) ++hi;
        MC_CHECK(c, p.binwidth == hi - lo && p.index_center.drift_index == d && p.index_center.frequency_channel == (lo - d * s.N + hi - d * s.N) / 2, "maximum-width",
                 w + ": maximum " + mc::str(m) + " has width " + mc::str(p.binwidth) + " and centre " + mc::str(p.index_center.frequency_channel) + ", expected between " + mc::str(lo) + " and " + mc::str(hi));
        check_rfi(c, s, p, w);
    }
    std::sort(have.begin(), have.end());
    MC_CHECK(c, have == want, "maxima", w + ": local maxima at " + brief(mc::str(have)) + ", expected " + brief(mc::str(want)));
    c.outcome(want.size());
}
bl::Built plane_of(const Search &s, int lay) { return bl::layout({s.D, s.N}, bl::F32, s.v, (bl::Layout)lay); }
void components(Ctx &c) {
    struct S { int64_t D, N; };
    auto sh = c.pick(mc::thorough() ? std::vector<S>{{1, 8}, {8, 1}, {2, 4}, {4, 2}, {3, 3}} : std::vector<S>{{1, 7}, {7, 1}, {2, 4}, {4, 2}}, "shape");
    Search s; s.D = sh.D; s.N = sh.N; s.L = 1 + c.choose(3, "L");
    int pr = mc::thorough() || s.L == 2 || sh.D * sh.N < 8 ? c.choose(2, "noise") : s.L == 1;
    for (int64_t d = 0; d < s.D; ++d) s.noise.push_back(pr ? 1.0 / (1 + d) : 1);
    s.floor = pr ? 2 : 0;
    int lay = pr;
    Grid al{0, 6, 11, 15};
    for (int64_t i = 0; i < s.D * s.N; ++i) { double x = al[c.choose(4, "cell")]; s.v.push_back(x * s.noise[i / s.N] + s.floor); }
    std::string w = show(s);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto p = plane_of(s, lay);
    check_components(c, s, bliss::find_components_above_threshold(p.arr, flags_of(s), (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    MC_CHECK(c, bl::intact(p, true), "plane-changed", w);
}
void sparse(Ctx &c, bool maxima) {                // larger planes with few strong cells
    int k = 1 + c.choose(mc::thorough() ? 4 : 3, "cells");
    bool big = k <= (mc::thorough() ? 3 : 2);
    Search s; s.D = big ? 7 : 5; s.N = big ? 8 : 5; s.L = 1 + c.choose(3, "L"); s.noise.assign(s.D, 2.0); s.floor = 1;
    int layout = mc::thorough() || k < 3 ? c.choose(2, "layout") : s.L % 2;
    s.v.assign(s.D * s.N, 1.0);
    int prev = -1;
    for (int i = 0; i < k; ++i) {
        int left = (int)s.v.size() - prev - 1 - (k - 1 - i);
        prev += 1 + c.choose(left, "at");
        s.v[prev] = 1 + 2 * (k == 4 ? Grid{11, 15} : Grid{7, 11, 15})[c.choose(k == 4 ? 2 : 3, "value")];
    }
    std::string w = show(s);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto p = plane_of(s, layout * 2);
    auto f = flags_of(s);
    if (maxima) check_maxima(c, s, bliss::find_local_maxima_above_threshold(p.arr, f, (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    else check_components(c, s, bliss::find_components_above_threshold(p.arr, f, (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    MC_CHECK(c, bl::intact(p, true), "plane-changed", w);
}
void large(Ctx &c, bool maxima) {                 // planes of thousands of cells with many, long and nested groups
    struct S { int64_t D, N; };
    auto sh = c.pick(mc::thorough() ? std::vector<S>{{1, 5000}, {70, 300}, {300, 70}, {16, 4099}, {257, 129}, {5000, 3}, {64, 1024}} : std::vector<S>{{1, 5000}, {70, 300}, {90, 30}}, "shape");
    Search s; s.D = sh.D; s.N = sh.N; s.L = c.pick(mc::thorough() ? std::vector<int>{1, 2, 3, 5, 7, 10, 15} : std::vector<int>{1, 4, 8}, "L"); s.floor = 3;
    int pattern = c.choose(8, "pattern"), layout = c.choose(2, "layout");
    for (int64_t d = 0; d < s.D; ++d) s.noise.push_back(1.0 / (1 + d % 4));
    s.v.assign(s.D * s.N, 0);
    uint32_t r = 7;
    for (int64_t d = 0; d < s.D; ++d) for (int64_t f = 0; f < s.N; ++f) {
        double x = 0;
        int64_t period = 2 * s.L + 3;
        r = r * 1664525u + 1013904223u;
        double h = 11 + ((d * 31 + f * 17) % 97) * 0.5;              // heights that differ around a cell
        switch (pattern) {
        case 0: x = d % (s.L + 1) == 0 && f % (s.L + 1) == 0 ? h : 0; break;                        // as many groups as fit
        case 1: x = h; break;                                                                      // one group of everything
        case 2: x = (d + f) % 2 ? h : 0; break;                                                    // checkerboard
        case 3: x = (f + d) % period == 0 ? h : 0; break;                                          // diagonal lines
        case 4: x = d % period == 0 || f % (5 * period) == 0 ? (f == 4 * period + 1 ? h : 6) : 0; break;   // a net of weak lines, strong in one channel
        case 5: x = d % (2 * period) < period ? 6 : 0; if (d % (2 * period) == period / 2 && f == s.N - 1) x = 60; break;   // bands with a peak at one end
        case 6: x = (r >> 20) % 64 == 0 ? 11 + (r >> 26) : 4; break;                               // scattered
        default: x = (r >> 22) / 1024.0 * 24; break;                                               // noise around the thresholds
        }
        s.v[d * s.N + f] = x * s.noise[d] + s.floor;
    }
    std::string w = mc::str(s.D) + "x" + mc::str(s.N) + " plane with pattern " + mc::str(pattern) + ", L1 distance " + mc::str(s.L);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto p = plane_of(s, layout * 2);
    auto f = flags_of(s);
    if (maxima) check_maxima(c, s, bliss::find_local_maxima_above_threshold(p.arr, f, (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    else check_components(c, s, bliss::find_components_above_threshold(p.arr, f, (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    MC_CHECK(c, bl::intact(p, true), "plane-changed", w);
}
void maxima_dense(Ctx &c) {
    Search s; s.D = 3; s.N = c.pick(mc::thorough() ? std::vector<int64_t>{3, 4} : std::vector<int64_t>{3}, "N"); s.L = 1;
    int pr = c.choose(2, "noise");
    for (int64_t d = 0; d < s.D; ++d) s.noise.push_back(pr ? 1.0 / (1 << d) : 1);
    s.floor = pr ? -3 : 0;
    Grid al{5, 11, 15};
    for (int64_t i = 0; i < s.D * s.N; ++i) s.v.push_back(al[c.choose(3, "cell")] * s.noise[i / s.N] + s.floor);
    std::string w = show(s);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto p = plane_of(s, pr);
    check_maxima(c, s, bliss::find_local_maxima_above_threshold(p.arr, flags_of(s), (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
    MC_CHECK(c, bl::intact(p, true), "plane-changed", w);
}
void ramps(Ctx &c) {               // peaks with shoulders: every row pattern next to a peak
    Search s; s.D = 3; s.N = mc::thorough() ? 9 : 8; s.L = 1; s.noise = {1, 0.5, 2}; s.floor = 1;
    s.v.assign(s.D * s.N, 1.0);
    Grid al{0, 11, 13, 17};
    for (int64_t i = 0; i < s.N; ++i) s.v[s.N + i] = 1 + 0.5 * al[c.choose(4, "cell")];
    std::string w = show(s);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto p = plane_of(s, 0);
    check_maxima(c, s, bliss::find_local_maxima_above_threshold(p.arr, flags_of(s), (float)s.floor, noise_info(s), (float)s.thr, s.L), w);
}
void binary(Ctx &c) {
    struct S { int64_t D, N; };
    auto sh = c.pick(std::vector<S>{{3, 4}, {4, 3}, {1, 6}, {2, 2}}, "shape");
    int hood = c.choose(3, "neighbourhood"), lay = c.choose(2, "layout") * 2;
    std::vector<bland::nd_coords> nb;
    for (int64_t d = -2; d <= 2; ++d) for (int64_t f = -2; f <= 2; ++f) {
        int64_t l1 = std::abs(d) + std::abs(f);
        if (!l1) continue;
        if (hood == 0 ? l1 == 1 : hood == 1 ? std::abs(d) < 2 && std::abs(f) < 2 : l1 <= 2 && d * f == 0) nb.push_back({d, f});
    }
    int64_t n = sh.D * sh.N; Grid m;
    for (int64_t i = 0; i < n; ++i) m.push_back(c.flip("cell") ? (i % 3 ? 1 : 200) : 0);
    std::string w = mc::str(sh.D) + "x" + mc::str(sh.N) + " mask " + mc::str(m) + " neighbourhood " + mc::str(hood);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto b = bl::layout({sh.D, sh.N}, bl::U8, m, (bl::Layout)lay);
    auto got = bliss::find_components_in_binary_mask(b.arr, nb);
    std::vector<int> comp(n, -1); int k = 0;
    for (int64_t i = 0; i < n; ++i) if (m[i] && comp[i] < 0) {
        std::vector<int64_t> q{i}; comp[i] = k;
        for (size_t z = 0; z < q.size(); ++z) for (auto &o : nb) {
            int64_t d = q[z] / sh.N + o[0], f = q[z] % sh.N + o[1];
            if (d >= 0 && f >= 0 && d < sh.D && f < sh.N && m[d * sh.N + f] && comp[d * sh.N + f] < 0) { comp[d * sh.N + f] = k; q.push_back(d * sh.N + f); }
        }
        ++k;
    }
    std::vector<int> seen(n, 0); std::set<int> ids;
    for (auto &p : got) {
        MC_CHECK(c, !p.locations.empty(), "mask-empty-group", w);
        int id = -2;
        for (auto &l : p.locations) {
            int64_t i = l.drift_index * sh.N + l.frequency_channel;
            ++seen[i];
            if (id == -2) id = comp[i];
            MC_CHECK(c, comp[i] == id, "mask-groups", w + ": cells of different groups are reported together");
        }
        MC_CHECK(c, ids.insert(id).second, "mask-groups", w + ": one group is reported in two parts");
    }
    for (int64_t i = 0; i < n; ++i) MC_CHECK(c, seen[i] == (m[i] != 0), "mask-cells", w + ": cell " + mc::str(i) + " is reported " + mc::str(seen[i]) + " times");
    MC_CHECK(c, bl::intact(b, true), "mask-changed", w);
    c.outcome(k);
}
// ------------------------------------------------------------------ D04
void describe(Ctx &c) {
    bool maxima = c.flip("method");
    Search s; s.D = maxima ? 3 : 2; s.N = 5; s.L = 1 + (maxima ? 0 : c.choose(2, "L"));
    int64_t T = c.pick(std::vector<int64_t>{1, 4}, "steps");
    double foff = c.pick(std::vector<double>{-0.25, 2.7939677238464355e-06}, "foff"), fch1 = c.pick(std::vector<double>{1024.0, 8421.38671875}, "fch1");
    double tsamp = c.pick(std::vector<double>{2.0, 18.253611008}, "tsamp"), tstart = c.pick(std::vector<double>{60000.5, 57386.0}, "tstart");
    int64_t number = c.pick(std::vector<int64_t>{0, 11}, "number");
    double power = 3, thr = c.pick(std::vector<double>{10, 4}, "threshold");
    int level = c.choose(3, "level");
    s.floor = 100; s.thr = thr;
    std::vector<Rate> rates;
    for (int64_t d = 0; d < s.D; ++d) {
        Rate r; r.index_in_plane = d; r.drift_channels_span = (int)(d * 4 - 4); r.drift_rate_slope = d * 0.5 - 0.5; r.drift_rate_Hz_per_sec = d * 1.25 - 1.0; r.desmeared_bins = 1 + 3 * (int)(d % 2);
        rates.push_back(r);
        s.noise.push_back((float)(power / std::sqrt((double)(T * r.desmeared_bins))));
    }
    int pat = c.choose(maxima ? 81 : 27, "pattern");
    for (int64_t i = 0; i < s.D * s.N; ++i) s.v.push_back(100);
    Grid al{0, 7, 12};
    int64_t row = maxima ? 1 : 0;
    for (int k = 0, q = pat; k < (maxima ? 4 : 3); ++k, q /= 3) s.v[row * s.N + k + (maxima ? 0 : (k == 2))] = (float)(100 + al[q % 3] * s.noise[row] * (1 + 0.01 * k));
    if (!maxima) s.v[s.N + 4] = 100 + 50 * s.noise[1];
    std::string w = std::string(maxima ? "local maxima " : "components ") + show(s) + " steps " + mc::str(T) + " fch1 " + mc::str(fch1) + " foff " + mc::str(foff) + " level " + mc::str(level);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w) + T + (int64_t)tstart + number);
    CC q; q.T = T; q.N = s.N; q.fch1 = fch1; q.foff = foff; q.tsamp = tsamp; q.tstart = tstart; q.number = number;
    auto cc = make_cc(q);
    bliss::frequency_drift_plane fp(bland::ndarray_deferred(bl::make({s.D, s.N}, bl::F32, s.v)), flags_of(s), T, rates);
    cc.set_integrated_drift_plane(fp);
    bliss::noise_stats ns; ns.set_noise_floor(bl::make({1}, bl::F32, {s.floor})); ns.set_noise_power(bl::make({1}, bl::F32, {power}));
    cc.set_noise_estimate(ns);
    bliss::hit_search_options o{.method = maxima ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS, .snr_threshold = (float)thr, .neighbor_l1_dist = s.L};
    std::list<hit> hits;
    if (level == 0) hits = bliss::hit_search(cc, o);
    else {
        auto ca = one_cadence(cc, [&](cadence x) { return bliss::hit_search(x, o); });
        auto &sc = ca._observations.at(0)._scans.at(0);
        hits = level == 1 ? sc.hits() : sc.read_coarse_channel(0)->hits();
    }
    auto proto = bliss::protohit_search(fp, ns, o);
    if (maxima) check_maxima(c, s, proto, w); else check_components(c, s, proto, w);
    MC_CHECK(c, hits.size() == proto.size(), "hit-count", w + ": " + mc::str(hits.size()) + " hits of " + mc::str(proto.size()) + " detections");
    size_t k = 0;
    for (auto &h : hits) {
        auto p = proto[k++];
        MC_CHECK(c, h.rate_index == p.index_max.drift_index && h.start_freq_index == p.index_max.frequency_channel, "hit-index", w + ": hit at rate " + mc::str(h.rate_index) + " channel " + mc::str(h.start_freq_index));
        double f = fch1 + foff * p.index_center.frequency_channel;
        MC_CHECK(c, bl::close(h.start_freq_MHz, f, 1e-14, 0), "hit-frequency", w + ": hit starts at " + mc::str(h.start_freq_MHz) + " MHz, expected " + mc::str(f));
        MC_CHECK(c, h.drift_rate_Hz_per_sec == rates[p.index_max.drift_index].drift_rate_Hz_per_sec, "hit-drift", w + ": drift rate " + mc::str(h.drift_rate_Hz_per_sec));
        MC_CHECK(c, bl::close(h.power, p.max_integration - s.floor, 1e-5, 0) && bl::close(h.snr, (p.max_integration - s.floor) / s.noise[p.index_max.drift_index], 1e-5, 0), "hit-power", w + ": power " + mc::str(h.power) + " snr " + mc::str((double)h.snr));
        MC_CHECK(c, h.binwidth == p.binwidth && bl::close(h.bandwidth, p.binwidth * std::fabs(foff) * 1e6, 1e-6, 0), "hit-bandwidth", w + ": bandwidth " + mc::str((double)h.bandwidth));
        MC_CHECK(c, bl::close(h.start_time_sec, tstart * 86400, 1e-15, 0) && bl::close(h.duration_sec, tsamp * T, 1e-14, 0), "hit-time", w + ": starts at " + mc::str(h.start_time_sec) + " for " + mc::str(h.duration_sec));
        MC_CHECK(c, h.time_span_steps == T, "hit-steps", w + ": spans " + mc::str(h.time_span_steps) + " time steps, expected " + mc::str(T));
        MC_CHECK(c, h.coarse_channel_number == number, "hit-channel", w + ": coarse channel " + mc::str(h.coarse_channel_number));
        MC_CHECK(c, h.rfi_counts == p.rfi_counts, "hit-rfi", w);
    }
}
void no_prerequisites(Ctx &c) {
    int what = c.choose(3, "missing");
    c.step(); c.state(what); c.outcome(what);
    CC q; auto cc = make_cc(q);
    bliss::noise_stats ns; ns.set_noise_floor(bl::make({1}, bl::F32, {1})); ns.set_noise_power(bl::make({1}, bl::F32, {1}));
    if (what == 1) cc.set_noise_estimate(ns);
    if (what == 2) cc = bliss::integrate_drifts(cc, {.desmear = true, .low_rate = -1, .high_rate = 2, .rate_step_size = 1});
    auto e = thrown([&] { (void)bliss::hit_search(cc, {}); });
    MC_CHECK(c, !e.empty(), "missing-step-accepted", "searching a channel without noise estimate or integrated drifts is not reported");
}
// ------------------------------------------------------------------ D05
hit make_hit(int64_t id, int roll, int low, int high, double drift) {
    hit h{}; h.start_freq_index = id; h.drift_rate_Hz_per_sec = drift; h.snr = 20 + id;
    if (roll >= 0) h.rfi_counts[ROLL] = roll;
    if (low >= 0) h.rfi_counts[LOW] = low;
    if (high >= 0) h.rfi_counts[HIGH] = high;
    return h;
}
void filtering(Ctx &c) {
    int n = c.choose(mc::thorough() ? 5 : 4, "hits");
    bool zero = c.flip("filter zero drift");
    int level = c.choose(3, "level");
    int twice = c.choose(2, "twice");
    struct K { int roll, low, high; double drift; };
    static const std::vector<K> kinds{{0, 0, 0, 1}, {1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 255, -1}, {0, 0, 0, 0}, {0, 0, 3, 9e-7}, {0, 0, 0, -2e-6}, {255, 255, 0, 0}, {-1, -1, -1, -0.5}, {0, 0, 0, -5e-7}};
    std::list<hit> in; std::vector<int64_t> want; std::string w = "filter " + std::string(zero ? "zero drift " : "") + "level " + mc::str(level) + ":";
    for (int i = 0; i < n; ++i) {
        int x = c.choose(n > 3 ? 6 : (int)kinds.size(), "kind"); auto k = kinds[x];
        in.push_back(make_hit(i, k.roll, k.low, k.high, k.drift));
        if (k.roll <= 0 && k.low <= 0 && !(zero && std::fabs(k.drift) < 1e-6)) want.push_back(i);
        w += " " + mc::str(x);
    }
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w)); c.outcome(mc::hash_vec(want));
    bliss::filter_options o{.filter_zero_drift = zero};
    std::list<hit> out; auto orig = in;
    auto cc = make_cc({});
    cc.set_hits(in);
    if (level == 0) { out = bliss::filter_hits(in, o); if (twice) out = bliss::filter_hits(out, o); }
    else if (level == 1) { auto r = bliss::filter_hits(cc, o); if (twice) r = bliss::filter_hits(r, o); out = r.hits(); }
    else { auto ca = one_cadence(cc, [&](cadence x) { x = bliss::filter_hits(x, o); return twice ? bliss::filter_hits(x, o) : x; }); out = ca._observations.at(0)._scans.at(0).hits(); }
    std::vector<int64_t> got; for (auto &h : out) { got.push_back(h.start_freq_index); auto it = std::next(orig.begin(), h.start_freq_index); MC_CHECK(c, h.snr == it->snr && h.drift_rate_Hz_per_sec == it->drift_rate_Hz_per_sec, "hit-changed", w); }
    MC_CHECK(c, got == want, "filtered", w + ": kept hits " + mc::str(got) + ", expected " + mc::str(want));
    auto kept = cc.hits(); MC_CHECK(c, kept.size() == in.size() && std::equal(kept.begin(), kept.end(), in.begin()) && in == orig, "input-changed", w + ": filtering changed the hits it was given");
}
void filter_nothing(Ctx &c) {
    int level = c.choose(2, "level"); c.step(); c.state(level); c.outcome(level);
    auto cc = make_cc({});
    auto e = thrown([&] { if (level == 0) (void)bliss::filter_hits(cc, {}); else (void)one_cadence(cc, [](cadence x) { return bliss::filter_hits(x, {}); })._observations[0]._scans[0].read_coarse_channel(0); });
    MC_CHECK(c, !e.empty(), "no-hits-accepted", "filtering the hits of a channel which was not searched is not reported");
}
// ------------------------------------------------------------------ D06
double dist(const hit &a, const hit &b) {
    double da = a.drift_rate_Hz_per_sec, db = b.drift_rate_Hz_per_sec, dd = std::fabs(da - db) / (1e-8 + da * da + db * db);
    double first = std::min(a.start_time_sec, b.start_time_sec), last = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec), mid = (first + last) / 2;
    double fa = a.start_freq_MHz * 1e6 + da * (mid - a.start_time_sec), fb = b.start_freq_MHz * 1e6 + db * (mid - b.start_time_sec);
    return 0.01 * std::fabs(fa - fb) + 10 * dd * dd;
}
void check_events(Ctx &c, const std::vector<observation_target> &obs, const std::vector<std::vector<std::vector<hit>>> &H, int nobs, double T0, const std::string &w) {
    // reference: a hit of the target continues into the nearest unused hit of every later scan of the target
    struct Ev { std::vector<hit> h; };
    std::vector<Ev> want;
    auto left = nobs ? H[0] : std::vector<std::vector<hit>>{};
    auto near50 = [&](double d) { if (std::fabs(d - 50) < 1) throw mc::Skip{}; return d < 50; };
    for (size_t s = 0; s < left.size(); ++s) for (auto h : left[s]) {
        Ev e; e.h.push_back(h);
        for (size_t n = s + 1; n < left.size(); ++n) {
            double best = 1e300; size_t at = 0; std::vector<double> ds;
            for (size_t k = 0; k < left[n].size(); ++k) {
                double d = 1e300; for (auto &x : e.h) d = std::min(d, dist(x, left[n][k]));
                ds.push_back(d);
                if (d < best) { best = d; at = k; }
            }
            for (size_t k = 0; k < ds.size(); ++k) if (k != at && ds[k] < 60 && std::fabs(ds[k] - best) < 0.05) throw mc::Skip{};
            if (!ds.empty() && near50(best)) { e.h.push_back(left[n][at]); left[n].erase(left[n].begin() + at); }
        }
        bool off = false;
        for (int o = 1; o < nobs; ++o) for (auto &sc : H[o]) for (auto &x : sc) { double d = 0; for (auto &y : e.h) d += dist(x, y); off |= near50(d / e.h.size()); }
        if (e.h.size() > 1 && !off) want.push_back(e);
    }
    auto got = bliss::event_search(cadence(obs));
    std::vector<std::vector<int64_t>> gi, wi;
    for (auto &e : got) { gi.emplace_back(); for (auto &h : e.hits) gi.back().push_back(h.start_freq_index); }
    for (auto &e : want) { wi.emplace_back(); for (auto &h : e.h) wi.back().push_back(h.start_freq_index); }
    MC_CHECK(c, gi == wi, "events", w + ": events of hits " + brief(mc::str(gi)) + ", expected " + brief(mc::str(wi)));
    for (size_t k = 0; k < got.size(); ++k) {
        double dr = 0, po = 0, sn = 0, bw = 0, n = want[k].h.size();
        double end = 0, start = 1e300; for (auto &h : want[k].h) { end = std::max(end, h.start_time_sec + h.duration_sec); start = std::min(start, h.start_time_sec); }
        for (auto &h : want[k].h) { dr += h.drift_rate_Hz_per_sec / n; po += h.power / n; sn += h.snr / n; bw += h.bandwidth / n; }
        auto &e = got[k];
        MC_CHECK(c, bl::close(e.average_drift_rate_Hz_per_sec, dr, 1e-9, 1e-12) && bl::close(e.average_power, po, 1e-6, 0) && bl::close(e.average_snr, sn, 1e-6, 0) && bl::close(e.average_bandwidth, bw, 1e-6, 0), "event-averages",
                 w + ": averages drift " + mc::str(e.average_drift_rate_Hz_per_sec) + " power " + mc::str((double)e.average_power) + " snr " + mc::str((double)e.average_snr) + " bandwidth " + mc::str((double)e.average_bandwidth));
        MC_CHECK(c, bl::close(e.starting_frequency_Hz, want[k].h[0].start_freq_MHz * 1e6, 1e-14, 0) && bl::close(e.event_start_seconds, start, 1e-12, 0), "event-start", w + ": an event starts at " + mc::str(e.event_start_seconds - T0 * 86400) + " s, its earliest hit at " + mc::str(start - T0 * 86400));
        MC_CHECK(c, bl::close(e.event_end_seconds, end, 1e-13, 0), "event-end", w + ": an event ends at " + mc::str(e.event_end_seconds - T0 * 86400) + " s, the scan of its last hit at " + mc::str(end - T0 * 86400));
    }
    c.outcome(mc::hash_str(mc::str(wi)));
}
void events(Ctx &c) {
    int nobs = c.choose(4, "observations");
    std::vector<int> per;
    for (int o = 0; o < nobs; ++o) per.push_back(o == 0 ? c.choose(mc::thorough() ? 5 : 4, "on scans") : o == 1 && (per[0] <= 2 || mc::thorough()) ? 1 + c.choose(2, "off scans") : 1);
    const double T0 = 60000.0, DUR = 300;
    // lines on the sky: frequency at the start of the observation (MHz) and drift rate; id 0: no hit
    struct Line { double f, d; };
    static const std::vector<Line> lines{{0, 0}, {1400.0, 0.5}, {1400.0 + 1500e-6, 0.5}, {1400.05, -2.0}};
    std::vector<std::vector<std::vector<hit>>> H(nobs);
    std::string w; int64_t id = 0; int slot = 0;
    std::vector<observation_target> obs;
    for (int o = 0; o < nobs; ++o) {
        H[o].resize(per[o]);
        std::vector<scan> scans;
        w += " obs" + mc::str(o) + "{";
        for (int s = 0; s < per[o]; ++s) {
            double ts = T0 + (slot++) * 400.0 / 86400;
            int nh = c.choose(o == 0 && per[0] == 2 && nobs <= 2 ? 4 : o == 0 && per[0] <= 3 ? 3 : o == 1 && per[0] == 2 ? 3 : 2, "hits");
            CC q; q.T = 3; q.N = 4; q.tsamp = DUR / 3; q.tstart = ts;
            auto cc = make_cc(q);
            std::list<hit> hs;
            w += " [";
            for (int k = 0; k < nh; ++k) {
                int li = 1 + c.choose(nh < 2 || (o == 0 && per[0] == 2) ? 3 : 2, "line");
                hit h{};
                h.start_freq_index = ++id; h.drift_rate_Hz_per_sec = lines[li].d; h.start_time_sec = ts * 86400; h.duration_sec = DUR;
                h.start_freq_MHz = lines[li].f + (lines[li].d * (h.start_time_sec - T0 * 86400) + 7 * (id % 5)) * 1e-6;
                h.power = 1000 + 10 * id; h.snr = 15 + id; h.bandwidth = 3 + id; h.time_span_steps = 3;
                hs.push_back(h); H[o][s].push_back(h);
                w += mc::str(li);
            }
            w += "]";
            cc.set_hits(hs);
            std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc);
            scans.push_back(scan(m));
        }
        w += " }";
        obs.emplace_back(scans);
    }
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    check_events(c, obs, H, nobs, T0, w);
}
void event_times(Ctx &c) {          // scans of any length in any order of time
    int on = 2 + c.choose(mc::thorough() ? 3 : 2, "on scans"), off = c.choose(2, "off");
    const double T0 = 60000.0;
    std::vector<std::vector<std::vector<hit>>> H(1 + off); std::vector<observation_target> obs;
    int64_t id = 0; std::string w;
    for (int o = 0; o <= off; ++o) {
        std::vector<scan> scans;
        for (int s = 0; s < (o ? 1 : on); ++s) {
            int slot = c.choose(on + 1, "slot"), len = 1 + c.choose(o ? 1 : 3, "length"), line = c.choose(o ? 2 : 3, "line");
            CC q; q.T = 3 * len; q.N = 4; q.tsamp = 100; q.tstart = T0 + slot * 400.0 / 86400;
            auto cc = make_cc(q);
            std::list<hit> hs; H[o].resize(s + 1);
            if (line) {
                hit h{}; double d = line == 1 ? 0.5 : -0.75;
                h.start_freq_index = ++id; h.drift_rate_Hz_per_sec = o ? -d : d; h.start_time_sec = q.tstart * 86400; h.duration_sec = q.T * q.tsamp;
                h.start_freq_MHz = 1400 + 0.05 * line + (d * (h.start_time_sec - T0 * 86400) + 7 * (id % 5)) * 1e-6;
                h.power = 1000 + 10 * id; h.snr = 15 + id; h.bandwidth = 3 + id; h.time_span_steps = q.T;
                hs.push_back(h); H[o][s].push_back(h);
            }
            cc.set_hits(hs);
            std::map<int, std::shared_ptr<coarse_channel>> m; m[0] = std::make_shared<coarse_channel>(cc);
            scans.push_back(scan(m));
            w += (o ? " off@" : " on@") + mc::str(slot) + "x" + mc::str(len) + ":" + mc::str(line);
        }
        obs.emplace_back(scans);
    }
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    check_events(c, obs, H, 1 + off, T0, w);
}
void many_events(Ctx &c) {          // long cadences with crowded scans of several coarse channels
    int on = c.pick(std::vector<int>{4, 7}, "on scans"), nobs = 1 + c.choose(3, "off targets"), nl = c.pick(mc::thorough() ? std::vector<int>{3, 12, 40, 100} : std::vector<int>{3, 12, 40}, "lines"), ncc = c.pick(std::vector<int>{1, 3}, "coarse");
    int pattern = c.choose(6, "pattern"), offp = c.choose(3, "off pattern");
    c.assume(offp == 0 || nobs > 1);
    const double T0 = 60000.0, DUR = 300;
    std::vector<std::vector<std::vector<hit>>> H(nobs); std::vector<observation_target> obs;
    int64_t id = 0; int slot = 0;
    for (int o = 0; o < nobs; ++o) {
        int n = o == 0 ? on : 2; H[o].resize(n);
        std::vector<scan> scans;
        for (int s = 0; s < n; ++s) {
            double ts = T0 + (slot++) * 400.0 / 86400;
            std::vector<std::list<hit>> per(ncc);
            for (int l = 0; l < nl; ++l) {
                bool has = o ? (offp == 0 ? false : offp == 1 ? l % 3 == o - 1 : l == nl - 1 && s == 1)
                             : pattern == 0 || (pattern == 1 ? (l + s) % 2 == 0 : pattern == 2 ? l % on == s || l % 5 == 0 : pattern == 3 ? s >= l % on : pattern == 4 ? s <= l % on : (l * 7 + s * 13) % 10 < 6);
                for (int twin = 0; twin < (has ? 1 + (o == 0 && pattern >= 3 && l % 4 == 1) : 0); ++twin) {
                    hit h{};
                    h.start_freq_index = ++id; h.drift_rate_Hz_per_sec = (l % 2 ? 1 : -1) * (0.75 + l % 5); h.start_time_sec = ts * 86400; h.duration_sec = DUR;
                    h.start_freq_MHz = 1400 + 0.05 * l + (h.drift_rate_Hz_per_sec * (h.start_time_sec - T0 * 86400) + 7 * (id % 5) + 900 * twin) * 1e-6;
                    h.power = 1000 + 10 * id; h.snr = 15 + id % 50; h.bandwidth = 3 + id; h.time_span_steps = 3; h.coarse_channel_number = l * ncc / nl;
                    per[l * ncc / nl].push_back(h); H[o][s].push_back(h);
                }
            }
            std::map<int, std::shared_ptr<coarse_channel>> m;
            for (int k = 0; k < ncc; ++k) { CC q; q.T = 3; q.N = 4; q.tsamp = DUR / 3; q.tstart = ts; q.number = k; auto cc = make_cc(q); cc.set_hits(per[k]); m[k] = std::make_shared<coarse_channel>(cc); }
            scans.push_back(scan(m));
        }
        obs.emplace_back(scans);
    }
    std::string w = mc::str(on) + " scans of the target, " + mc::str(nobs - 1) + " other targets, " + mc::str(nl) + " lines over " + mc::str(ncc) + " coarse channels, patterns " + mc::str(pattern) + "/" + mc::str(offp);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    check_events(c, obs, H, nobs, T0, w);
}
} // namespace

MC_PROPERTY(D01) { mc::explore("bad-rates", bad_rates); mc::explore("saturation", many_flags); mc::explore("kernels", kernels); mc::explore("integration", integrate); mc::explore("large", large_integration); }
MC_PROPERTY(D02) { mc::explore("binary", binary); mc::explore("sparse", [](Ctx &c) { sparse(c, false); }); mc::explore("dense", components); mc::explore("large", [](Ctx &c) { large(c, false); }); }
MC_PROPERTY(D03) { mc::explore("dense", maxima_dense); mc::explore("ramps", ramps); mc::explore("sparse", [](Ctx &c) { sparse(c, true); }); mc::explore("large", [](Ctx &c) { large(c, true); }); }
MC_PROPERTY(D04) { mc::explore("missing", no_prerequisites); mc::explore("describe", describe); }
MC_PROPERTY(D05) { mc::explore("nothing", filter_nothing); mc::explore("filter", filtering); }
MC_PROPERTY(D06) { mc::explore("events", events); mc::explore("times", event_times); mc::explore("many", many_events); }
