// F01 flag accumulation, F02 flagger decisions, N01 noise estimates, E01 normalization and passband equalization
#include "bs.hpp"
#include <bland/ops/ops.hpp>
#include <core/flag_values.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
using namespace bs;
using bliss::coarse_channel; using bliss::scan; using bliss::observation_target; using bliss::cadence;

namespace {
using Grid = std::vector<double>;
const int ROLL = 1, LOWSK = 2, HIGHSK = 4, MAG = 16, SIG = 32;

// ---------------------------------------------------------------- reference decisions (double); `close` marks undecidable cells
struct Ref { std::vector<int> add; bool close = false; };
Ref ref_roll(int64_t T, int64_t N, double w) {
    Ref r; r.add.assign(T * N, 0);
    int64_t k = std::llround(N * w);
    for (int64_t t = 0; t < T; ++t) for (int64_t i = 0; i < N; ++i) if (i < k || i >= N - k) r.add[t * N + i] = ROLL;
    double x = N * w; r.close = std::fabs(x - std::floor(x) - 0.5) < 1e-4;
    return r;
}
bool near(double a, double b) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); }
Ref ref_mag(const Grid &g, double thr) {
    Ref r; for (double v : g) { r.add.push_back(v > thr ? MAG : 0); }
    return r;
}
Ref ref_mag_auto(const Grid &g) {
    double m = 0, s = 0; for (double v : g) m += v; m /= g.size();
    for (double v : g) s += (v - m) * (v - m); s = std::sqrt(s / g.size());
    Ref r; for (double v : g) { r.add.push_back(v > m + 10 * s ? MAG : 0); r.close |= near(v, m + 10 * s); }
    return r;
}
Ref ref_sk(const Grid &g, int64_t T, int64_t N, double foff, double tsamp, double lo, double hi, double d) {
    Ref r; r.add.assign(T * N, 0);
    double n = std::round(tsamp * std::fabs(1e6 * foff));
    for (int64_t i = 0; i < N; ++i) {
        double s1 = 0, s2 = 0;
        for (int64_t t = 0; t < T; ++t) { s1 += g[t * N + i]; s2 += g[t * N + i] * g[t * N + i]; }
        double k = (T * n * d + 1) / (T - 1.0) * (T * s2 / (s1 * s1) - 1);
        if (T == 1) continue;                              // no spread to judge: nothing flagged
        if (near(k, lo) || near(k, hi) || near(T * s2 / (s1 * s1) - 1, 0)) { if (!(near(T * s2 / (s1 * s1) - 1, 0) && lo > 0.5 && hi > 0.5)) r.close |= std::fabs(k) > 1e-9; }
        int f = k < lo ? LOWSK : k > hi ? HIGHSK : 0;
        for (int64_t t = 0; t < T; ++t) r.add[t * N + i] = f;
    }
    return r;
}
Ref ref_sig(const Grid &g, int iters, double lo, double hi) {
    Ref r; r.add.assign(g.size(), 0);
    auto stats = [&](double &m, double &s) {
        double n = 0; m = s = 0;
        for (size_t i = 0; i < g.size(); ++i) if (!r.add[i]) { m += g[i]; ++n; }
        if (n < 1) { r.close = true; return; }
        m /= n;
        for (size_t i = 0; i < g.size(); ++i) if (!r.add[i]) s += (g[i] - m) * (g[i] - m);
        s = std::sqrt(s / n);
    };
    double m, s; stats(m, s);
    for (int k = 0; k < iters; ++k) {
        for (size_t i = 0; i < g.size(); ++i) { r.close |= near(g[i], m - lo * s) || near(g[i], m + hi * s); r.add[i] = (g[i] < m - lo * s || g[i] > m + hi * s) ? SIG : 0; }
        double m2, s2; stats(m2, s2);
        if (r.close) break;
        if (std::fabs(m2 - m) < 1e-6 && std::fabs(s2 - s) < 1e-6) break;
        m = m2; s = s2;
    }
    return r;
}
struct Op { int kind; double a, b, d; int iters; std::string name; };
Op make_op(int k) {
    switch (k) {
    case 0: return {0, 0.25, 0, 0, 0, "rolloff(.25)"};
    case 1: return {0, 0.0, 0, 0, 0, "rolloff(0)"};
    case 2: return {0, 0.5, 0, 0, 0, "rolloff(.5)"};
    case 3: return {1, 0.8, 1.2, 1, 0, "sk"};
    case 4: return {2, 1, 1, 0, 3, "sigmaclip"};
    default: return {3, 4.5, 0, 0, 0, "magnitude(4.5)"};
    }
}
const int NOPS = 6;
Ref ref(const Op &o, const Grid &g, int64_t T, int64_t N) {
    if (o.kind == 0) return ref_roll(T, N, o.a);
    if (o.kind == 1) return ref_sk(g, T, N, -1e-6, 2.0, o.a, o.b, o.d);
    if (o.kind == 2) return ref_sig(g, o.iters, o.a, o.b);
    return ref_mag(g, o.a);
}
template <typename X> X run(const Op &o, X x) {
    if (o.kind == 0) return bliss::flag_filter_rolloff(x, (float)o.a);
    if (o.kind == 1) return bliss::flag_spectral_kurtosis(x, (float)o.a, (float)o.b, (float)o.d);
    if (o.kind == 2) return bliss::flag_sigmaclip(x, o.iters, (float)o.a, (float)o.b);
    return bliss::flag_magnitude(x, (float)o.a);
}
std::vector<Grid> grids(int64_t T, int64_t N) {
    std::vector<Grid> v;
    Grid a, b, z;
    for (int64_t i = 0; i < T * N; ++i) { a.push_back(1 + (i * 7) % 5); b.push_back(i == T * N / 2 ? 50 : 1 + (i % 3) * 0.5); z.push_back(2); }
    v = {a, b, z};
    return v;
}
void accumulate(Ctx &c) {
    struct S { int64_t T, N; };
    S s = c.pick(std::vector<S>{{3, 4}, {2, 5}, {4, 1}}, "shape");
    Grid g = grids(s.T, s.N)[c.choose(3, "data")];
    int initial = c.choose(4, "initial mask");
    int level = c.choose(4, "level");       // coarse channel, scan, observation, cadence
    Grid m0(s.T * s.N, 0);
    if (initial) for (size_t i = 0; i < m0.size(); ++i) m0[i] = initial == 1 ? 255 : initial == 2 ? (i % 2 ? 0x88 : 1) : (int)((i * 37) % 256);
    int n = 1 + c.choose(mc::thorough() ? 4 : 3, "length");
    std::vector<Op> ops; std::string w = mc::str(s.T) + "x" + mc::str(s.N) + " level " + mc::str(level) + " initial " + mc::str(initial) + ":";
    for (int k = 0; k < n; ++k) { ops.push_back(make_op(c.choose(NOPS, "flagger"))); w += " " + ops.back().name; }
    std::vector<int> want; for (double v : m0) want.push_back((int)v);
    for (auto &o : ops) { auto r = ref(o, g, s.T, s.N); if (r.close) throw mc::Skip{}; for (size_t i = 0; i < want.size(); ++i) want[i] |= r.add[i]; }
    MC_NOTE(c, w);
    c.state(mc::hash_str(w) + mc::hash_vec(g));
    CC spec; spec.T = s.T; spec.N = s.N; spec.data = g; spec.mask = m0; spec.foff = -1e-6; spec.tsamp = 2.0;
    coarse_channel src = make_cc(spec);
    auto src_mask = src.mask(); auto src_data = src.data();
    coarse_channel out = src;
    auto get_scan = [&] { std::map<int, std::shared_ptr<coarse_channel>> mm; mm[0] = std::make_shared<coarse_channel>(src); return scan(mm); };
    if (level == 0) { for (auto &o : ops) { c.step(); out = run(o, out); } }
    else {
        scan sc = get_scan();
        observation_target ot(std::vector<scan>{sc});
        cadence ca(std::vector<observation_target>{ot, ot});
        for (auto &o : ops) { c.step(); if (level == 1) sc = run(o, sc); else if (level == 2) ot = run(o, ot); else ca = run(o, ca); }
        auto pipe = level == 1 ? sc : level == 2 ? ot._scans.at(0) : ca._observations.at(1)._scans.at(0);
        (void)pipe.read_coarse_channel(0)->mask();
        out = *pipe.read_coarse_channel(0);            // a second read gives the same flags again
    }
    auto om = out.mask();
    MC_CHECK(c, om.dtype() == bl::dl(bl::U8), "mask-dtype", w + ": mask is not uint8");
    MC_CHECK(c, om.shape() == (Shape{s.T, s.N}), "mask-shape", w + ": mask has shape " + mc::str(om.shape()));
    auto got = bl::values(om);
    for (size_t i = 0; i < got.size(); ++i)
        MC_CHECK(c, (int)got[i] == want[i], "flags", w + ": element " + mc::str(i) + " has flags " + mc::str(got[i]) + ", expected " + mc::str(want[i]) + " (initially " + mc::str(m0[i]) + ", value " + mc::str(g[i]) + ")");
    auto again = bl::values(out.mask());
    MC_CHECK(c, bl::same(again, got), "mask-read-twice", w + ": reading the mask twice gives different flags");
    MC_CHECK(c, bl::same(bl::values(out.data()), g) && bl::same(bl::values(src_data), g), "data-changed", w + ": flagging changed the data");
    MC_CHECK(c, bl::same(bl::values(src_mask), m0) && bl::same(bl::values(src.mask()), m0), "source-mask-changed", w + ": flagging changed the mask of the channel it was given");
    uint64_t h = 0; for (int v : want) h = mc::mix(h, v); c.outcome(h);
}
// every overload of every flagger (default thresholds too) on channels that all differ, at every level
std::vector<CC> many_channels(int kinds, int rot) {
    std::vector<CC> v;
    for (int k = 0; k < 9; ++k) {
        CC q; q.T = 11; q.N = 11; q.foff = -1e-6; q.tsamp = 2; q.number = k;
        q.data.resize(121); q.mask.resize(121, 0);
        for (int i = 0; i < 121; ++i) q.data[i] = 1 + ((i + k) % 3) * 0.25 + (k % 2 ? 0.125 : 0);
        if (kinds) { q.data[(17 * k + 5 * rot) % 121] = k % 3 == 2 ? -500 - k : 500 + k; q.mask[(11 * k + 3) % 121] = 0x40; }
        if (kinds == 2) { for (int t = 0; t < 11; ++t) q.data[t * 11 + (k + rot) % 11] = t == k ? 900 : 0.0078125; }
        v.push_back(q);
    }
    return v;
}
void levels(Ctx &c) {
    int level = c.choose(4, "level"), op = c.choose(9, "flagger"), kinds = c.choose(3, "data"), rot = c.choose(mc::thorough() ? 11 : 3, "place");
    auto cs = many_channels(kinds, rot);
    static const char *names[] = {"rolloff(.2)", "sk(.8,1.2,1)", "sk()", "sigmaclip(4,2,3)", "sigmaclip()", "magnitude(4.5)", "magnitude()", "sigmaclip(1)", "rolloff(0)"};
    std::string w = std::string(names[op]) + " at level " + mc::str(level) + " data " + mc::str(kinds) + "/" + mc::str(rot);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto got = at_level(level, cs, [&](auto x) {
        switch (op) {
        case 0: return bliss::flag_filter_rolloff(x, 0.2f);
        case 1: return bliss::flag_spectral_kurtosis(x, 0.8f, 1.2f, 1.0f);
        case 2: return bliss::flag_spectral_kurtosis(x);
        case 3: return bliss::flag_sigmaclip(x, 4, 2.f, 3.f);
        case 4: return bliss::flag_sigmaclip(x);
        case 5: return bliss::flag_magnitude(x, 4.5f);
        case 6: return bliss::flag_magnitude(x);
        case 7: return bliss::flag_sigmaclip(x, 1);
        default: return bliss::flag_filter_rolloff(x, 0.0f);
        }
    });
    MC_CHECK(c, got.size() == cs.size(), "channels", w + ": " + mc::str(got.size()) + " channels after flagging " + mc::str(cs.size()));
    uint64_t h = 0;
    for (size_t k = 0; k < cs.size(); ++k) {
        auto &g = cs[k].data;
        Ref r = op == 0 ? ref_roll(11, 11, 0.2) : op == 1 ? ref_sk(g, 11, 11, -1e-6, 2, 0.8, 1.2, 1) : op == 2 ? ref_sk(g, 11, 11, -1e-6, 2, level ? 0.25 : 0.05, 50, 2)
              : op == 3 ? ref_sig(g, 4, 2, 3) : op == 4 ? ref_sig(g, 5, 3, 4) : op == 5 ? ref_mag(g, 4.5) : op == 6 ? ref_mag_auto(g) : op == 7 ? ref_sig(g, 1, 3, 4) : ref_roll(11, 11, 0);
        MC_CHECK(c, bl::same(bl::values(got[k].data()), g), "level-data", w + ": the data of channel " + mc::str(k) + " changed");
        if (r.close) continue;
        auto m = bl::values(got[k].mask());
        MC_CHECK(c, m.size() == g.size(), "level-shape", w);
        for (size_t i = 0; i < m.size(); ++i) {
            int want = r.add[i] | (int)cs[k].mask[i];
            MC_CHECK(c, (int)m[i] == want, "level-flags", w + ": sample " + mc::str(i) + " (" + mc::str(g[i]) + ") of channel " + mc::str(k) + " has flags " + mc::str(m[i]) + ", expected " + mc::str(want));
            h = mc::mix(h, want);
        }
    }
    c.outcome(h);
}
// ---------------------------------------------------------------- F02
void check_flags(Ctx &c, const bland::ndarray &m, const std::vector<int> &want, const Grid &g, const std::string &w) {
    auto got = bl::values(m);
    MC_CHECK(c, got.size() == want.size(), "flag-shape", w + ": " + mc::str(got.size()) + " flags for " + mc::str(want.size()) + " samples");
    for (size_t i = 0; i < got.size(); ++i) MC_CHECK(c, (int)got[i] == want[i], "decision", w + ": sample " + mc::str(i) + " of " + mc::str(g) + " is flagged " + mc::str(got[i]) + ", expected " + mc::str(want[i]));
}
void sk_space(Ctx &c) {
    int64_t T = 1 + c.choose(4, "T"), N = T >= 4 ? 1 : 2;
    Grid vals = mc::thorough() ? Grid{0, 1, 2, 5, 30} : Grid{0, 1, 2, 5}, g;
    struct P { double foff, tsamp, lo, hi, d; };
    P p = c.pick(std::vector<P>{{-1e-6, 4, 0.3, 2, 1}, {2.5e-6, 3, 0.05, 5, 2}, {1e-6, 1, 0.25, 50, 2}}, "params");
    for (int64_t i = 0; i < T * N; ++i) g.push_back(vals[c.choose((int)vals.size(), "value")]);
    auto r = ref_sk(g, T, N, p.foff, p.tsamp, p.lo, p.hi, p.d);
    if (r.close) throw mc::Skip{};
    std::string w = "spectral kurtosis T=" + mc::str(T) + " foff " + mc::str(p.foff) + " tsamp " + mc::str(p.tsamp) + " thresholds " + mc::str(p.lo) + ".." + mc::str(p.hi) + " d=" + mc::str(p.d);
    MC_NOTE(c, w + " data " + mc::str(g)); c.step(); c.state(mc::hash_str(w) + mc::hash_vec(g));
    CC s; s.T = T; s.N = N; s.data = g; s.foff = p.foff; s.tsamp = p.tsamp;
    auto cc = make_cc(s);
    check_flags(c, bliss::flag_spectral_kurtosis(cc, (float)p.lo, (float)p.hi, (float)p.d).mask(), r.add, g, w);
    uint64_t h = 0; for (int v : r.add) h = mc::mix(h, v); c.outcome(h);
}
// the estimate itself, from a channel and from an array in any layout
void sk_estimate(Ctx &c) {
    int64_t T = 1 + c.choose(mc::thorough() ? 4 : 3, "T"), N = 1 + c.choose(2, "N");
    Grid vals{0, 1, 2.5, 30}, g;
    for (int64_t i = 0; i < T * N; ++i) g.push_back(vals[c.choose(T * N > 6 ? 3 : 4, "value")]);
    int form = c.choose(5, "form");                    // a channel, or an array in one of four layouts
    struct P { int n; double d; };
    P p = c.pick(std::vector<P>{{1, 1}, {4, 2}, {1000, 0.5}}, "params");
    bool dflt = p.d == 2 && c.flip("default shape");
    std::string w = "kurtosis estimate form " + mc::str(form) + " of " + mc::str(T) + "x" + mc::str(N) + " " + mc::str(g) + " n " + mc::str(p.n) + " d " + mc::str(p.d);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    bland::ndarray k;
    bl::Built b = bl::layout({T, N}, bl::F32, g, form ? (bl::Layout)(form - 1) : bl::CONTIG);
    if (form == 0) {
        CC s; s.T = T; s.N = N; s.data = g; s.foff = -1e-6 * p.n / 2; s.tsamp = 2;
        auto cc = make_cc(s);
        k = dflt ? bliss::estimate_spectral_kurtosis(cc) : bliss::estimate_spectral_kurtosis(cc, (float)p.d);
        MC_CHECK(c, bl::same(bl::values(cc.data()), g), "estimate-changed-input", w);
    } else {
        k = dflt ? bliss::estimate_spectral_kurtosis(b.arr, p.n, T) : bliss::estimate_spectral_kurtosis(b.arr, p.n, T, (float)p.d);
        MC_CHECK(c, bl::intact(b, true), "estimate-changed-input", w);
    }
    MC_CHECK(c, k.shape() == (bl::Shape{N}), "estimate-shape", w + ": shape " + mc::str(k.shape()));
    auto got = bl::values(k);
    uint64_t h = 0;
    for (int64_t i = 0; i < N; ++i) {
        double s1 = 0, s2 = 0;
        for (int64_t t = 0; t < T; ++t) { s1 += g[t * N + i]; s2 += g[t * N + i] * g[t * N + i]; }
        if (T == 1 || s1 == 0) continue;                     // not defined
        double a = (T * p.n * p.d + 1) / (T - 1.0), x = T * s2 / (s1 * s1);
        MC_CHECK(c, std::fabs(got[i] - a * (x - 1)) <= 2e-6 * a * (1 + x), "kurtosis-estimate", w + ": channel " + mc::str(i) + " is " + mc::str(got[i]) + ", expected " + mc::str(a * (x - 1)));
        h = mc::mix(h, mc::hash_str(mc::str(got[i])));
    }
    c.outcome(h);
}
void sig_space(Ctx &c) {
    struct S { int64_t T, N; };
    S s = c.pick(std::vector<S>{{1, 5}, {2, 3}, {3, 2}}, "shape");
    Grid vals = mc::thorough() ? Grid{-6, 1, 2, 40, 900} : Grid{1, 2, 40, -7}, g;
    for (int64_t i = 0; i < s.T * s.N; ++i) g.push_back(vals[c.choose((int)vals.size(), "value")]);
    struct P { int it; double lo, hi; };
    P p = c.pick(std::vector<P>{{0, 1, 1}, {1, 1, 1.2}, {2, 0.5, 1.5}, {5, 1.5, 1}, {5, 1.1, 1.3}}, "params");
    auto r = ref_sig(g, p.it, p.lo, p.hi);
    if (r.close) throw mc::Skip{};
    std::string w = "sigma clip iterations " + mc::str(p.it) + " -" + mc::str(p.lo) + " +" + mc::str(p.hi);
    MC_NOTE(c, w + " data " + mc::str(g)); c.step(); c.state(mc::hash_str(w) + mc::hash_vec(g));
    CC q; q.T = s.T; q.N = s.N; q.data = g;
    check_flags(c, bliss::flag_sigmaclip(make_cc(q), p.it, (float)p.lo, (float)p.hi).mask(), r.add, g, w);
    uint64_t h = 0; for (int v : r.add) h = mc::mix(h, v); c.outcome(h);
}
// outliers of several sizes on both sides: bigger ones hide smaller ones until they are clipped
void sig_cascade(Ctx &c) {
    static const double lev[3] = {8, 40, 300};
    int most = mc::thorough() ? 3 : 2, base = c.pick(std::vector<int>{24, 60}, "background");
    double off = c.pick(std::vector<double>{0, 500}, "offset");
    Grid g; for (int i = 0; i < base; ++i) g.push_back(off + (i % 2 ? 1 : -1));
    std::string w = "background " + mc::str(base) + " offset " + mc::str(off) + " outliers";
    for (int l = 0; l < 3; ++l) for (int neg = 0; neg < 2; ++neg) {
        int n = c.choose(most + 1, "count"); w += " " + mc::str(n);
        for (int k = 0; k < n; ++k) g.insert(g.begin() + (7 * g.size() / 3) % g.size(), off + (neg ? -1 : 1) * lev[l] * (1 + 0.01 * k));
    }
    if (g.size() % 2) g.push_back(off + 1);
    struct P { int it; double lo, hi; };
    P p = c.pick(std::vector<P>{{1, 3, 3}, {2, 3, 3}, {3, 2.5, 3}, {10, 3, 3}, {10, 2.5, 4}, {30, 5, 3}}, "params");
    auto r = ref_sig(g, p.it, p.lo, p.hi);
    if (r.close) throw mc::Skip{};
    w = "sigma clip iterations " + mc::str(p.it) + " -" + mc::str(p.lo) + " +" + mc::str(p.hi) + " " + w;
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    CC q; q.T = 2; q.N = g.size() / 2; q.data = g;
    check_flags(c, bliss::flag_sigmaclip(make_cc(q), p.it, (float)p.lo, (float)p.hi).mask(), r.add, g, w);
    uint64_t h = 0; for (int v : r.add) h = mc::mix(h, v); c.outcome(h);
}
void roll_space(Ctx &c) {
    int64_t N = 1 + c.choose(12, "channels"), T = 1 + c.choose(2, "T");
    double w = c.choose(41, "width") * 0.0125;
    auto r = ref_roll(T, N, w);
    if (r.close) throw mc::Skip{};
    std::string d = "rolloff " + mc::str(w) + " of " + mc::str(N) + " channels";
    MC_NOTE(c, d); c.step(); c.state(mc::hash_str(d) + T);
    CC q; q.T = T; q.N = N;
    check_flags(c, bliss::flag_filter_rolloff(make_cc(q), (float)w).mask(), r.add, q.data, d);
    c.outcome(std::llround(N * w));
}
void mag_space(Ctx &c) {
    if (c.choose(2, "auto")) {
        int64_t T = 11, N = 11; int at = c.choose(T * N, "spike"), kind = c.choose(3, "size");
        Grid g(T * N); for (int64_t i = 0; i < T * N; ++i) g[i] = 1 + (i % 3) * 0.25;
        g[at] = kind == 0 ? 3 : kind == 1 ? 500 : -500;
        auto r = ref_mag_auto(g); if (r.close) throw mc::Skip{};
        std::string w = "automatic magnitude, sample " + mc::str(at) + " = " + mc::str(g[at]);
        MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
        CC q; q.T = T; q.N = N; q.data = g;
        auto cc = make_cc(q);
        check_flags(c, bliss::flag_magnitude(cc).mask(), r.add, g, w);
        std::map<int, std::shared_ptr<coarse_channel>> mm; mm[0] = std::make_shared<coarse_channel>(cc);
        check_flags(c, bliss::flag_magnitude(scan(mm)).read_coarse_channel(0)->mask(), r.add, g, w + " (scan)");
        c.outcome(r.add[at]);
        return;
    }
    Grid vals{-1, 0, 0.5, 1, 2}, g; for (int i = 0; i < 4; ++i) g.push_back(vals[c.choose(5, "value")]);
    double thr = c.pick(std::vector<double>{-1, 0, 0.5, 1.5, 2}, "threshold");
    auto r = ref_mag(g, thr);
    std::string w = "magnitude above " + mc::str(thr);
    MC_NOTE(c, w + mc::str(g)); c.step(); c.state(mc::hash_str(w) + mc::hash_vec(g));
    CC q; q.T = 2; q.N = 2; q.data = g;
    check_flags(c, bliss::flag_magnitude(make_cc(q), (float)thr).mask(), r.add, g, w);
    check_flags(c, bliss::flag_magnitude(make_cc(q).data(), (float)thr), r.add, g, w + " (array)");
    uint64_t h = 0; for (int v : r.add) h = mc::mix(h, v); c.outcome(h);
}
// ---------------------------------------------------------------- N01
void noise(Ctx &c) {
    struct S { int64_t T, N; };
    S s = c.pick(std::vector<S>{{1, 1}, {2, 2}, {1, 5}, {3, 2}}, "shape");
    int64_t n = s.T * s.N;
    Grid vals{1, 4, 1000.5}, g, m;
    for (int64_t i = 0; i < n; ++i) g.push_back(vals[c.choose(n > 4 ? 2 : 3, "value")] + 0.25 * i);
    std::vector<int> mv{0, 1, 36};
    for (int64_t i = 0; i < n; ++i) m.push_back(mv[c.choose(n > 4 ? 2 : 3, "flag")] * (n > 4 ? 0x80 : 1));
    int level = c.choose(n > 4 ? 2 : 4, "level");
    int method = c.choose(3, "method");            // masked stddev, unmasked stddev, unmasked MAD
    std::string w = "noise of " + mc::str(g) + " flags " + mc::str(m) + " level " + mc::str(level) + " method " + mc::str(method);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    CC q; q.T = s.T; q.N = s.N; q.data = g; q.mask = m;
    auto cc = make_cc(q);
    bliss::noise_power_estimate_options o{method == 2 ? bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : bliss::noise_power_estimator::STDDEV, method == 0};
    float floor = 0, power = 0, amp = 0;
    auto err = thrown([&] {
        bliss::noise_stats st;
        if (level == 0) st = bliss::estimate_noise_power(cc, o);
        else {
            std::map<int, std::shared_ptr<coarse_channel>> mm; mm[0] = std::make_shared<coarse_channel>(cc);
            scan sc(mm); observation_target ot(std::vector<scan>{sc}); cadence ca(std::vector<observation_target>{ot});
            scan p = level == 1 ? bliss::estimate_noise_power(sc, o) : level == 2 ? bliss::estimate_noise_power(ot, o)._scans.at(0) : bliss::estimate_noise_power(ca, o)._observations.at(0)._scans.at(0);
            st = p.read_coarse_channel(0)->noise_estimate();
        }
        floor = st.noise_floor(); power = st.noise_power(); amp = st.noise_amplitude();
    });
    std::vector<double> use;
    for (int64_t i = 0; i < n; ++i) if (method != 0 || m[i] == 0) use.push_back(g[i]);
    if (method == 2) {
        if (err.empty()) {
            auto med = [](std::vector<double> v) { std::sort(v.begin(), v.end()); size_t k = v.size(); return k % 2 ? v[k / 2] : (v[k / 2 - 1] + v[k / 2]) / 2; };
            double md = med(use); std::vector<double> dv; for (double v : use) dv.push_back(std::fabs(v - md));
            MC_CHECK(c, bl::close(floor, md, 1e-5, 1e-5) && bl::close(power, med(dv), 1e-5, 1e-5), "mad", w + ": floor " + mc::str(floor) + " power " + mc::str(power));
        }
        c.outcome(err.empty());
        return;
    }
    c.outcome(use.size());
    if (use.empty()) { MC_CHECK(c, !err.empty(), "all-flagged", w + ": everything is flagged but an estimate (" + mc::str(floor) + "," + mc::str(power) + ") is given"); return; }
    MC_CHECK(c, err.empty(), "noise-error", w + ": " + err);
    double mean = 0, sd = 0; for (double v : use) mean += v; mean /= use.size();
    for (double v : use) sd += (v - mean) * (v - mean);
    MC_CHECK(c, bl::close(floor, mean, 1e-5, 1e-6), "noise-floor", w + ": floor " + mc::str(floor) + ", expected " + mc::str(mean));
    sd = std::sqrt(sd / use.size());
    MC_CHECK(c, bl::close(power, sd, 2e-4, 2e-4 * mean), "noise-power", w + ": power " + mc::str(power) + ", expected " + mc::str(sd));
    MC_CHECK(c, std::isnan(amp) == (power < 0) && (std::isnan(amp) || bl::close(amp, std::sqrt((double)power), 1e-5, 1e-6)), "noise-amplitude", w);
    MC_CHECK(c, bl::same(bl::values(cc.data()), g) && bl::same(bl::values(cc.mask()), m), "noise-changed-input", w);
}
// estimates of plain arrays in any layout
void noise_arrays(Ctx &c) {
    bl::Shape s = c.pick(std::vector<bl::Shape>{{1}, {4}, {2, 2}, {3, 2}, {1, 5}, {2, 1, 3}}, "shape");
    auto l = (bl::Layout)c.choose(bl::NLAYOUT, "layout");
    bool mad = c.flip("mad"), masked = c.flip("mask asked for");
    Grid vals{1, 4, 1000.5}, g;
    for (int64_t i = 0; i < bl::numel(s); ++i) g.push_back(vals[c.choose(i < 4 ? 3 : 2, "value")] + 0.25 * i);
    std::string w = "noise of the array " + mc::str(s) + " " + mc::str(g) + " " + bl::name(l) + (mad ? " mad" : "");
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto b = bl::layout(s, bl::F32, g, l, 1e6);
    bliss::noise_power_estimate_options o{mad ? bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : bliss::noise_power_estimator::STDDEV, masked};
    double mean = 0, sd = 0; for (double v : g) mean += v; mean /= g.size();
    for (double v : g) sd += (v - mean) * (v - mean);
    sd = std::sqrt(sd / g.size());
    if (mad) {
        auto med = [](std::vector<double> v) { std::sort(v.begin(), v.end()); size_t k = v.size(); return k % 2 ? v[k / 2] : (v[k / 2 - 1] + v[k / 2]) / 2; };
        mean = med(g); std::vector<double> dv; for (double v : g) dv.push_back(std::fabs(v - mean));
        sd = med(dv);
    }
    float floor = 0, power = 0, amp = 0;
    auto err = thrown([&] { auto st = bliss::estimate_noise_power(b.arr, o); floor = st.noise_floor(); power = st.noise_power(); amp = st.noise_amplitude(); });
    c.outcome(mc::hash_str(err));
    MC_CHECK(c, err.empty() || mad, "noise-error", w + ": " + err);
    MC_CHECK(c, bl::intact(b, true), "noise-changed-input", w);
    if (!err.empty()) return;
    MC_CHECK(c, bl::close(floor, mean, 1e-5, 1e-6), "noise-floor", w + ": floor " + mc::str(floor) + ", expected " + mc::str(mean));
    MC_CHECK(c, bl::close(power, sd, 2e-4, 2e-4 * mean) && bl::close(amp, std::sqrt((double)power), 1e-5, 1e-6), "noise-power", w + ": power " + mc::str(power) + ", expected " + mc::str(sd));
}
void noise_levels(Ctx &c) {
    int level = c.choose(4, "level"), masked = c.choose(2, "masked"), kinds = c.choose(3, "data"), rot = c.choose(mc::thorough() ? 11 : 4, "place");
    auto cs = many_channels(kinds, rot);
    for (auto &q : cs) for (int i = 0; i < 121; ++i) if (std::fabs(q.data[i]) > 400) q.mask[i] = 1 << (q.number % 8);
    std::string w = std::string(masked ? "masked" : "unmasked") + " noise at level " + mc::str(level) + " data " + mc::str(kinds) + "/" + mc::str(rot);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    bliss::noise_power_estimate_options o{bliss::noise_power_estimator::STDDEV, masked == 1};
    auto got = at_level(level, cs, [&](auto x) {
        if constexpr (std::is_same_v<decltype(x), coarse_channel>) { x.set_noise_estimate(bliss::estimate_noise_power(x, o)); return x; }
        else return bliss::estimate_noise_power(x, o);
    });
    MC_CHECK(c, got.size() == cs.size(), "channels", w);
    for (size_t k = 0; k < cs.size(); ++k) {
        double n = 0, mean = 0, sd = 0;
        auto use = [&](int i) { return !masked || cs[k].mask[i] == 0; };
        for (int i = 0; i < 121; ++i) if (use(i)) { mean += cs[k].data[i]; ++n; }
        mean /= n;
        for (int i = 0; i < 121; ++i) if (use(i)) sd += (cs[k].data[i] - mean) * (cs[k].data[i] - mean);
        sd = std::sqrt(sd / n);
        auto st = got[k].noise_estimate();
        MC_CHECK(c, bl::close(st.noise_floor(), mean, 1e-4, 1e-5) && bl::close(st.noise_power(), sd, 1e-3, 1e-4), "level-noise", w + ": channel " + mc::str(k) + " has floor " + mc::str(st.noise_floor()) + " power " + mc::str(st.noise_power()) + ", expected " + mc::str(mean) + " and " + mc::str(sd));
        c.outcome(mc::mix(mc::hash_str(mc::str(mean)), mc::hash_str(mc::str(sd))));
    }
}
// ---------------------------------------------------------------- E01
void equalize(Ctx &c) {
    struct S { int64_t T, N; };
    S s = c.pick(std::vector<S>{{1, 2}, {2, 3}, {3, 1}}, "shape");
    int64_t n = s.T * s.N;
    int level = c.choose(4, "level");
    std::vector<int> ops; int len = 1 + c.choose(3, "length");
    for (int i = 0; i < len; ++i) ops.push_back(c.choose(3, "op"));    // 0 normalize, 1 equalize with array, 2 equalize from file
    int pattern = c.choose(3, "data");
    Grid g; for (int64_t i = 0; i < n; ++i) g.push_back(pattern == 0 ? 1 + (i * 5) % 7 : pattern == 1 ? (float)(1000.0 / (1 + i)) : -(1.0 + i));
    Grid h; for (int64_t i = 0; i < s.N; ++i) h.push_back(0.25 * (i + 1));
    std::string w = mc::str(g) + " level " + mc::str(level) + " ops " + mc::str(ops);
    MC_NOTE(c, w); c.state(mc::hash_str(w) + s.T);
    auto ha = bl::make({s.N}, bl::F32, h);
    std::string path = mc::scratch() + "/h" + mc::str(s.N) + ".f32";
    { std::ofstream f(path, std::ios::binary); for (double v : h) { float x = (float)v; f.write((char *)&x, 4); } }
    CC q; q.T = s.T; q.N = s.N; q.data = g;
    auto cc = make_cc(q);
    auto src = cc.data();
    std::map<int, std::shared_ptr<coarse_channel>> mm; mm[0] = std::make_shared<coarse_channel>(cc);
    scan sc(mm); observation_target ot(std::vector<scan>{sc}); cadence ca(std::vector<observation_target>{ot});
    coarse_channel out = cc;
    std::vector<float> want(g.begin(), g.end());
    auto F = bland::ndarray::datatype::float32;
    for (int o : ops) {
        c.step();
        if (o == 0) {
            float mx = -INFINITY; for (float v : want) mx = std::max(mx, v);
            for (float &v : want) v = v / mx;
            if (level == 0) out = bliss::normalize(out); else if (level == 1) sc = bliss::normalize(sc); else if (level == 2) ot = bliss::normalize(ot); else ca = bliss::normalize(ca);
        } else {
            for (int64_t i = 0; i < n; ++i) want[i] = want[i] / (float)h[i % s.N];
            if (o == 1) { if (level == 0) out = bliss::equalize_passband_filter(out, ha); else if (level == 1) sc = bliss::equalize_passband_filter(sc, ha); else if (level == 2) ot = bliss::equalize_passband_filter(ot, ha); else ca = bliss::equalize_passband_filter(ca, ha); }
            else { if (level == 0) out = bliss::equalize_passband_filter(out, path, F); else if (level == 1) sc = bliss::equalize_passband_filter(sc, path, F); else if (level == 2) ot = bliss::equalize_passband_filter(ot, path, F); else ca = bliss::equalize_passband_filter(ca, path, F); }
        }
    }
    if (level) {
        scan p = level == 1 ? sc : level == 2 ? ot._scans.at(0) : ca._observations.at(0)._scans.at(0);
        (void)p.read_coarse_channel(0)->data();
        out = *p.read_coarse_channel(0);
    }
    auto got = bl::values(out.data());
    MC_CHECK(c, out.data().shape() == (Shape{s.T, s.N}), "shape", w);
    for (int64_t i = 0; i < n; ++i) MC_CHECK(c, bl::close(got[i], want[i], 1e-6, 0), "values", w + ": sample " + mc::str(i) + " is " + mc::str(got[i]) + ", expected " + mc::str((double)want[i]));
    MC_CHECK(c, bl::same(bl::values(src), g), "source-changed", w + ": the channel it was given changed");
    MC_CHECK(c, bl::same(bl::values(ha), h), "response-changed", w);
    c.outcome(mc::hash_vec(want));
}
void equalize_levels(Ctx &c) {
    int level = c.choose(4, "level"), op = c.choose(3, "op"), second = c.choose(4, "second"), rot = c.choose(2, "place");
    auto cs = many_channels(1, rot);
    Grid h; for (int i = 0; i < 11; ++i) h.push_back(0.25 * (i + 1));
    auto ha = bl::make({11}, bl::F32, h);
    std::string path = mc::scratch() + "/h11.f32";
    { std::ofstream f(path, std::ios::binary); for (double v : h) { float x = (float)v; f.write((char *)&x, 4); } }
    static const char *names[] = {"normalize", "equalize(array)", "equalize(file)", "nothing"};
    std::string w = std::string(names[op]) + " then " + names[second] + " at level " + mc::str(level) + " data " + mc::str(rot);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto one = [&](int o, auto x) { return o == 0 ? bliss::normalize(x) : o == 1 ? bliss::equalize_passband_filter(x, ha) : o == 2 ? bliss::equalize_passband_filter(x, path) : x; };
    auto got = at_level(level, cs, [&](auto x) { return one(second, one(op, x)); });
    MC_CHECK(c, got.size() == cs.size(), "channels", w);
    for (size_t k = 0; k < cs.size(); ++k) {
        std::vector<float> want(cs[k].data.begin(), cs[k].data.end());
        for (int o : {op, second}) {
            float mx = -INFINITY; for (float v : want) mx = std::max(mx, v);
            for (int i = 0; i < 121; ++i) want[i] = o == 0 ? want[i] / mx : o == 3 ? want[i] : want[i] / (float)h[i % 11];
        }
        auto v = bl::values(got[k].data());
        MC_CHECK(c, v.size() == want.size(), "level-shape", w);
        for (int i = 0; i < 121; ++i) MC_CHECK(c, bl::close(v[i], want[i], 1e-6, 0), "level-values", w + ": sample " + mc::str(i) + " of channel " + mc::str(k) + " is " + mc::str(v[i]) + ", expected " + mc::str((double)want[i]));
        MC_CHECK(c, bl::same(bl::values(got[k].mask()), cs[k].mask), "level-mask", w + ": the mask of channel " + mc::str(k) + " changed");
        c.outcome(mc::hash_vec(want));
    }
}
// the response file is replaced between two uses
void replaced_response(Ctx &c) {
    int level = c.choose(4, "level"); bool array = c.flip("array"), longer = c.flip("rewritten with the same path"), keep = c.flip("first result kept");
    std::string path = mc::scratch() + "/replaced.f32";
    CC q; q.T = 2; q.N = 3; q.data = {3, 5, 7, 11, 13, 17}; q.mask = Grid(6, 0);
    std::string w = "level " + mc::str(level) + (array ? " array" : " file") + (longer ? " same path" : " other path") + (keep ? " first result kept" : "");
    MC_NOTE(c, w); c.state(mc::hash_str(w));
    std::vector<coarse_channel> kept; std::vector<Grid> wants;
    for (int round = 0; round < 3; ++round) {
        Grid h; for (int i = 0; i < 3; ++i) h.push_back(0.25 * (i + 1) * (1 << round));
        std::string at = longer ? path : path + mc::str(round);
        { std::ofstream f(at, std::ios::binary); for (double v : h) { float x = (float)v; f.write((char *)&x, 4); } }
        auto ha = bl::make({3}, bl::F32, h);
        auto got = at_level(level, {q}, [&](auto x) { return array ? bliss::equalize_passband_filter(x, ha) : bliss::equalize_passband_filter(x, at); });
        Grid want; for (int i = 0; i < 6; ++i) want.push_back((float)q.data[i] / (float)h[i % 3]);
        c.step();
        auto v = bl::values(got.at(0).data());
        for (int i = 0; i < 6; ++i) MC_CHECK(c, bl::close(v[i], want[i], 1e-6, 0), "replaced-response", w + ": use " + mc::str(round) + ": sample " + mc::str(i) + " is " + mc::str(v[i]) + ", expected " + mc::str(want[i]));
        if (keep) { kept.push_back(got.at(0)); wants.push_back(want); }
        for (size_t r = 0; r < kept.size(); ++r) { auto k = bl::values(kept[r].data()); for (int i = 0; i < 6; ++i) MC_CHECK(c, bl::close(k[i], wants[r][i], 1e-6, 0), "kept-result", w + ": the result of use " + mc::str(r) + " changed in use " + mc::str(round)); }
        c.outcome(mc::hash_vec(v));
    }
}
void response(Ctx &c) {
    int fine = c.pick(std::vector<int>{2, 4, 6, 8}, "fine"), coarse = c.pick(std::vector<int>{2, 3, 4, 8}, "coarse"), taps = c.pick(std::vector<int>{1, 2, 3}, "taps");
    if (taps > fine) throw mc::Skip{};
    std::string w = "response of " + mc::str(coarse) + " coarse x " + mc::str(fine) + " fine, " + mc::str(taps) + " taps";
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    int nt = taps * coarse, L = coarse * fine;
    std::vector<double> h(L, 0);
    for (int n = 0; n < nt; ++n) {
        double t = n - (nt - 1) / 2.0, x = M_PI * t / coarse;
        h[n] = (x == 0 ? 1 : std::sin(x) / x) * (0.54 - 0.46 * std::cos(2 * M_PI * n / (nt - 1)));
    }
    auto f = bliss::firdes(nt, 1.0f / coarse, "hamming");
    MC_CHECK(c, f.shape() == (Shape{nt}), "taps-shape", w);
    for (int n = 0; n < nt; ++n) MC_CHECK(c, bl::close(bl::get(f, {n}), h[n], 1e-4, 1e-5), "taps", w + ": tap " + mc::str(n) + " is " + mc::str(bl::get(f, {n})) + ", expected " + mc::str(h[n]));
    std::vector<double> P(L);
    for (int k = 0; k < L; ++k) {
        double re = 0, im = 0; for (int n = 0; n < nt; ++n) { double a = -2 * M_PI * k * n / L; re += h[n] * std::cos(a); im += h[n] * std::sin(a); }
        P[(k + L / 2) % L] = re * re + im * im;
    }
    std::vector<double> R(fine, 0); double mx = 0;
    for (int k = 0; k < (coarse - 1) * fine; ++k) R[k % fine] += P[fine / 2 + k];
    for (double v : R) mx = std::max(mx, v);
    auto r = bliss::gen_coarse_channel_response(fine, coarse, taps);
    MC_CHECK(c, r.shape() == (Shape{fine}), "response-shape", w + ": shape " + mc::str(r.shape()));
    for (int k = 0; k < fine; ++k) MC_CHECK(c, bl::close(bl::get(r, {k}), R[k] / mx, 1e-4, 1e-4), "response", w + ": channel " + mc::str(k) + " is " + mc::str(bl::get(r, {k})) + ", expected " + mc::str(R[k] / mx));
    c.outcome(L);
}
// ---------------------------------------------------------------- sizes of real channels
struct Sz { int64_t T, N; };
std::vector<Sz> sizes() { return mc::thorough() ? std::vector<Sz>{{16, 4099}, {300, 129}, {64, 1024}, {3, 20001}, {1, 5003}, {279, 1000}} : std::vector<Sz>{{16, 1031}, {300, 65}, {3, 4001}, {1, 5003}}; }
// noise in steps of 1/8 with a dead channel, a pulsed one, a constant strong one, a burst over all channels and stray samples
Grid big_data(Sz s, int kind) {
    Grid g(s.T * s.N); uint32_t r = 99;
    for (int64_t t = 0; t < s.T; ++t) for (int64_t i = 0; i < s.N; ++i) {
        r = r * 1664525u + 1013904223u;
        double u = ((r >> 16) % 33) / 8.0 + ((r >> 24) % 17) / 8.0, v = (kind == 2 ? 5000 : 10) + u;
        if (kind != 1) {
            if (i == s.N / 2) v = kind == 2 ? 5002 : 12;
            if (i == s.N - 2) v += t % 5 == 4 ? 4000 : 0;
            if (i == 1) v += 900;
            if (t == s.T - 1 && s.T > 1) v += 60;
            if ((t * s.N + i) % 911 == 910) v += i % 2 ? -250 : 330;
        }
        g[t * s.N + i] = v;
    }
    return g;
}
Grid big_mask(Sz s, int kind) {
    Grid m(s.T * s.N, 0);
    for (int64_t i = 0; i < s.T * s.N; ++i) m[i] = kind == 0 ? 0 : kind == 1 ? (i % 3 == 0 ? 0x40 : 0) : (i * 37) % 256;
    return m;
}
void large_flags(Ctx &c) {
    Sz s = c.pick(sizes(), "shape");
    int kind = c.choose(3, "data"), mk = c.choose(3, "mask"), lay = c.choose(2, "layout") ? 2 : 0, op = c.choose(9, "flagger");
    Grid g = big_data(s, kind), m0 = big_mask(s, mk);
    static const char *names[] = {"rolloff(.05)", "rolloff(.33)", "sk(.3,3,1)", "sk(.05,25,2)", "sigmaclip(1,2,3)", "sigmaclip(5,3,4)", "sigmaclip(20,2.5,2.25)", "magnitude(400)", "magnitude()"};
    double foff = -2.7939677238464355e-6, tsamp = 18.253611008;
    Ref r; std::vector<char> open(s.N, 0);
    if (op < 2) r = ref_roll(s.T, s.N, op ? 0.33 : 0.05);
    else if (op < 4) {
        double lo = op == 2 ? 0.3 : 0.05, hi = op == 2 ? 3 : 25, d = op == 2 ? 1 : 2;
        r = ref_sk(g, s.T, s.N, foff, tsamp, lo, hi, d);
        for (int64_t i = 0; i < s.N && s.T > 1; ++i) {          // channels too near to a threshold to judge
            double a = 0, b = 0; for (int64_t t = 0; t < s.T; ++t) { double v = g[t * s.N + i]; a += v; b += v * v; }
            double e = s.T * b / (a * a) - 1, f = (s.T * std::round(tsamp * std::fabs(1e6 * foff)) * d + 1) / (s.T - 1.0), k = f * e;
            open[i] = std::fabs(k - lo) < 1e-3 * lo + f * 1e-6 || std::fabs(k - hi) < 1e-3 * hi + f * 1e-6;
        }
        r.close = false;
    } else if (op < 7) r = ref_sig(g, op == 4 ? 1 : op == 5 ? 5 : 20, op == 4 ? 2 : op == 5 ? 3 : 2.5, op == 4 ? 3 : op == 5 ? 4 : 2.25);
    else if (op == 7) r = ref_mag(g, kind == 2 ? 5400 : 400);
    else r = ref_mag_auto(g);
    c.assume(!r.close);
    std::string w = std::string(names[op]) + " of " + mc::str(s.T) + "x" + mc::str(s.N) + " samples, data " + mc::str(kind) + " mask " + mc::str(mk);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    CC q; q.T = s.T; q.N = s.N; q.foff = foff; q.tsamp = tsamp;
    auto cc = make_cc(q);
    auto D = bl::layout({s.T, s.N}, bl::F32, g, (bl::Layout)lay), M = bl::layout({s.T, s.N}, bl::U8, m0, (bl::Layout)lay, 7);
    cc.set_data(D.arr); cc.set_mask(M.arr);
    coarse_channel out = op == 0 ? bliss::flag_filter_rolloff(cc, 0.05f) : op == 1 ? bliss::flag_filter_rolloff(cc, 0.33f) : op == 2 ? bliss::flag_spectral_kurtosis(cc, .3f, 3.f, 1.f) : op == 3 ? bliss::flag_spectral_kurtosis(cc, .05f, 25.f, 2.f)
        : op == 4 ? bliss::flag_sigmaclip(cc, 1, 2.f, 3.f) : op == 5 ? bliss::flag_sigmaclip(cc, 5, 3.f, 4.f) : op == 6 ? bliss::flag_sigmaclip(cc, 20, 2.5f, 2.25f) : op == 7 ? bliss::flag_magnitude(cc, kind == 2 ? 5400.f : 400.f) : bliss::flag_magnitude(cc);
    auto got = bl::values(out.mask());
    MC_CHECK(c, out.mask().shape() == (Shape{s.T, s.N}), "large-shape", w);
    uint64_t h = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        if (open[i % s.N]) continue;
        int want = r.add[i] | (int)m0[i]; h = mc::mix(h, want);
        MC_CHECK(c, (int)got[i] == want, "large-flags", w + ": sample " + mc::str(i / s.N) + "," + mc::str(i % s.N) + " (" + mc::str(g[i]) + ") has flags " + mc::str(got[i]) + ", expected " + mc::str(want));
    }
    MC_CHECK(c, bl::intact(D, true) && bl::intact(M, true), "large-input-changed", w);
    c.outcome(h);
}
void large_noise(Ctx &c) {
    Sz s = c.pick(mc::thorough() ? std::vector<Sz>{{16, 65537}, {3, 262147}, {1, 1048583}, {16, 16384}, {300, 1027}} : std::vector<Sz>{{16, 4099}, {3, 20011}, {1, 131101}, {300, 129}}, "shape");
    int kind = c.choose(3, "data"), mk = c.choose(4, "mask"), lay = c.choose(2, "layout") ? 2 : 0;
    Grid g = big_data(s, kind), m = big_mask(s, mk % 3);
    if (mk == 3) for (int64_t i = 0; i < s.T * s.N; ++i) m[i] = i % s.N == s.N - 1 ? 0 : 1 + i % 7;      // all but one channel
    std::string w = "noise of " + mc::str(s.T) + "x" + mc::str(s.N) + " samples, data " + mc::str(kind) + " mask " + mc::str(mk);
    MC_NOTE(c, w); c.state(mc::hash_str(w));
    CC q; q.T = s.T; q.N = s.N;
    auto cc = make_cc(q);
    auto D = bl::layout({s.T, s.N}, bl::F32, g, (bl::Layout)lay), M = bl::layout({s.T, s.N}, bl::U8, m, (bl::Layout)lay, 7);
    cc.set_data(D.arr); cc.set_mask(M.arr);
    for (bool masked : {false, true}) {
        c.step();
        auto st = bliss::estimate_noise_power(cc, bliss::noise_power_estimate_options{bliss::noise_power_estimator::STDDEV, masked});
        double n = 0, mean = 0, sd = 0;
        for (size_t i = 0; i < g.size(); ++i) if (!masked || m[i] == 0) { mean += g[i]; ++n; }
        mean /= n;
        for (size_t i = 0; i < g.size(); ++i) if (!masked || m[i] == 0) sd += (g[i] - mean) * (g[i] - mean);
        sd = std::sqrt(sd / n);
        MC_CHECK(c, bl::close(st.noise_floor(), mean, 1e-5, 0) && bl::close(st.noise_power(), sd, 1e-3, 0), "large-noise", w + (masked ? " masked" : "") + ": floor " + mc::str(st.noise_floor()) + " power " + mc::str(st.noise_power()) + ", expected " + mc::str(mean) + " and " + mc::str(sd));
        c.outcome(mc::mix(mc::hash_str(mc::str(mean)), mc::hash_str(mc::str(sd))));
    }
    MC_CHECK(c, bl::intact(D, true) && bl::intact(M, true), "large-input-changed", w);
}
void large_equalize(Ctx &c) {
    Sz s = c.pick(sizes(), "shape");
    int kind = c.choose(3, "data"), lay = c.choose(2, "layout") ? 2 : 0, op = c.choose(3, "op");
    Grid g = big_data(s, kind), h; for (int64_t i = 0; i < s.N; ++i) h.push_back(0.25 * (i % 37 + 1));
    std::string w = mc::str(op) + " of " + mc::str(s.T) + "x" + mc::str(s.N) + " samples, data " + mc::str(kind);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w) + lay);
    std::string path = mc::scratch() + "/large.f32";
    { std::ofstream f(path, std::ios::binary); for (double v : h) { float x = (float)v; f.write((char *)&x, 4); } }
    CC q; q.T = s.T; q.N = s.N;
    auto cc = make_cc(q);
    auto D = bl::layout({s.T, s.N}, bl::F32, g, (bl::Layout)lay);
    cc.set_data(D.arr);
    auto out = op == 0 ? bliss::normalize(cc) : op == 1 ? bliss::equalize_passband_filter(cc, bl::make({s.N}, bl::F32, h)) : bliss::equalize_passband_filter(cc, path, bland::ndarray::datatype::float32);
    auto got = bl::values(out.data());
    MC_CHECK(c, out.data().shape() == (Shape{s.T, s.N}), "large-shape", w);
    double mx = *std::max_element(g.begin(), g.end());
    for (size_t i = 0; i < got.size(); ++i) { double want = op == 0 ? g[i] / mx : g[i] / h[i % s.N]; MC_CHECK(c, bl::close(got[i], want, 1e-6, 0), "large-values", w + ": sample " + mc::str(i) + " is " + mc::str(got[i]) + ", expected " + mc::str(want)); }
    MC_CHECK(c, bl::intact(D, true), "large-input-changed", w);
    c.outcome(mc::hash_vec(got));
}
} // namespace

MC_PROPERTY(F01) { mc::explore("sequences", accumulate); mc::explore("levels", levels); }
MC_PROPERTY(F02) { mc::explore("spectral-kurtosis", sk_space); mc::explore("kurtosis-estimate", sk_estimate); mc::explore("sigma-clip", sig_space); mc::explore("sigma-cascade", sig_cascade); mc::explore("rolloff", roll_space); mc::explore("magnitude", mag_space); mc::explore("large", large_flags); }
MC_PROPERTY(N01) { mc::explore("estimates", noise); mc::explore("arrays", noise_arrays); mc::explore("levels", noise_levels); mc::explore("large", large_noise); }
MC_PROPERTY(E01) { mc::explore("preprocess", equalize); mc::explore("levels", equalize_levels); mc::explore("replaced", replaced_response); mc::explore("response", response); mc::explore("large", large_equalize); }
