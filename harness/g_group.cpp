// S04: the outcome of a pipeline does not depend on how the channels are grouped, sliced, stored and read
#include "bs.hpp"
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
using namespace bs;
using bliss::cadence; using bliss::coarse_channel; using bliss::observation_target; using bliss::scan;

namespace {
constexpr int64_t T = 6, FPC = 12, NC = 3;

// ---- the stages; each is applied through the overload of the level of x
enum Kind { NORMALIZE, EQUALIZE, ROLLOFF, KURTOSIS, SIGMACLIP, MAGNITUDE, NOISE, INTEGRATE, SEARCH, FILTER };
struct Stage { Kind kind; int variant; };
const char *kind_name(Kind k) { static const char *n[] = {"normalize", "equalize", "rolloff", "kurtosis", "sigmaclip", "magnitude", "noise", "integrate", "search", "filter"}; return n[k]; }
bland::ndarray response() {
    std::vector<double> v;
    for (int64_t i = 0; i < FPC; ++i) v.push_back(0.5 + 0.0625 * ((i * 5) % 7));
    return bl::make({FPC}, bl::F32, v);
}
std::string response_file() {
    static std::string p;
    if (p.empty()) {
        p = mc::scratch() + "/response.f32";
        std::ofstream o(p, std::ios::binary);
        auto v = bl::values(response());
        for (double d : v) { float f = (float)d; o.write((char *)&f, 4); }
    }
    return p;
}
bliss::noise_power_estimate_options noise_options(int v) {
    bliss::noise_power_estimate_options o;
    o.estimator_method = v == 2 ? bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION : bliss::noise_power_estimator::STDDEV;
    o.masked_estimate = v != 1;
    return o;
}
bliss::integrate_drifts_options drift_options(int v) {
    bliss::integrate_drifts_options o;
    o.desmear = v != 1; o.low_rate = v == 2 ? -11 : -4; o.high_rate = v == 3 ? 12 : 5; o.rate_step_size = v == 3 ? 2 : 1;
    return o;
}
bliss::hit_search_options search_options(int v) {
    bliss::hit_search_options o;
    o.method = v == 0 || v == 3 ? bliss::hit_search_methods::CONNECTED_COMPONENTS : bliss::hit_search_methods::LOCAL_MAXIMA;
    o.snr_threshold = v == 2 ? 1.5f : v == 3 ? 6.0f : 3.0f;
    o.neighbor_l1_dist = v == 1 ? 1 : v == 2 ? 2 : 3;
    return o;
}
template <typename X> X run(X x, Stage s) {
    switch (s.kind) {
    case NORMALIZE: return bliss::normalize(x);
    case EQUALIZE:  return s.variant == 0 ? bliss::equalize_passband_filter(x, response()) : bliss::equalize_passband_filter(x, std::string_view(response_file()));
    case ROLLOFF:   return bliss::flag_filter_rolloff(x, s.variant == 0 ? 0.2f : 0.1f);
    case KURTOSIS:  return s.variant == 0 ? bliss::flag_spectral_kurtosis(x, 0.3f, 1.5f, 2.0f) : bliss::flag_spectral_kurtosis(x, 0.05f, 0.9f, 1.0f);
    case SIGMACLIP: return s.variant == 0 ? bliss::flag_sigmaclip(x, 3, 2.0f, 2.0f) : bliss::flag_sigmaclip(x, 1, 1.0f, 3.0f);
    case MAGNITUDE: return s.variant == 0 ? bliss::flag_magnitude(x) : bliss::flag_magnitude(x, 1.25f);
    case INTEGRATE: return bliss::integrate_drifts(x, drift_options(s.variant));
    case FILTER:    { bliss::filter_options o; o.filter_zero_drift = s.variant == 0; return bliss::filter_hits(x, o); }
    case NOISE:     if constexpr (std::is_same_v<X, coarse_channel>) { x.set_noise_estimate(bliss::estimate_noise_power(x, noise_options(s.variant))); return x; }
                    else return bliss::estimate_noise_power(x, noise_options(s.variant));
    case SEARCH:    if constexpr (std::is_same_v<X, coarse_channel>) { x.set_hits(bliss::hit_search(x, search_options(s.variant))); return x; }
                    else return bliss::hit_search(x, search_options(s.variant));
    }
    throw std::logic_error("stage");
}

// ---- the samples: noise from a fixed table, a drifting signal, a constant one and a burst, in other places for every scan
FileSpec recording(int which, int64_t nc = NC) {
    FileSpec f; f.T = T; f.N = FPC * nc; f.foff = (which % 2 ? -2.0 : -1.0) / (1 << 19); f.fch1 = 1024 + 64 * which; f.tstart = 60000.5 + which; f.source = which < 2 ? "A" : "B";
    uint32_t r = 12345 + 977 * which;
    f.data.resize(f.T * f.N);
    for (auto &v : f.data) { r = r * 1664525u + 1013904223u; v = 8.0f + (float)((r >> 20) & 255) / 16.0f; }
    auto add = [&](int64_t t, int64_t ch, float v) { if (ch >= 0 && ch < f.N) f.data[t * f.N + ch] += v; };
    for (int64_t t = 0; t < T; ++t) {
        for (int64_t k = 0; k < nc; ++k) {
            add(t, k * FPC + 3 + (which + k) % 3 + t / 2, 25.0f + 5 * k);          // drifts
            if ((which + k) % 2 == 0) add(t, k * FPC + 9, 20.0f);                  // does not
        }
        if (t == 2) add(t, 7 + which, 60.0f);
    }
    return f;
}
std::vector<CC> channels_of(const FileSpec &f, bool alike = false) {    // alike: channels gathered from several recordings, which have the same number there
    std::vector<CC> v;
    for (int64_t k = 0; k < f.N / FPC; ++k) {
        CC c; c.T = f.T; c.N = FPC; c.fch1 = f.fch1 + f.foff * FPC * k; c.foff = f.foff; c.tsamp = f.tsamp; c.tstart = f.tstart; c.number = alike ? 5 : k; c.source = f.source;
        for (int64_t t = 0; t < f.T; ++t) for (int64_t i = 0; i < FPC; ++i) c.data.push_back(f.data[t * f.N + k * FPC + i]);
        v.push_back(c);
    }
    return v;
}
std::vector<double> plane_values(coarse_channel &cc) {
    auto p = cc.integrated_drift_plane();
    auto v = bl::values(p.integrated_drift_plane());
    auto f = p.integrated_rfi();
    for (auto &a : {f.filter_rolloff, f.low_spectral_kurtosis, f.high_spectral_kurtosis}) { auto x = bl::values(a); v.insert(v.end(), x.begin(), x.end()); }
    v.push_back((double)p.integration_steps());
    for (auto &r : p.drift_rate_info()) { v.push_back(r.index_in_plane); v.push_back(r.drift_channels_span); v.push_back(r.drift_rate_slope); v.push_back(r.drift_rate_Hz_per_sec); v.push_back(r.desmeared_bins); }
    return v;
}
std::vector<double> hit_values(const std::list<bliss::hit> &hs) {
    std::vector<double> v;
    for (auto &h : hs) {
        for (double d : {(double)h.start_freq_index, h.start_freq_MHz, h.start_time_sec, h.duration_sec, (double)h.rate_index, h.drift_rate_Hz_per_sec, h.power, (double)h.time_span_steps,
                         (double)h.snr, (double)h.bandwidth, (double)h.binwidth, (double)h.coarse_channel_number}) v.push_back(d);
        v.push_back((double)h.rfi_counts.size());
        for (auto &kv : h.rfi_counts) { v.push_back((double)kv.first); v.push_back(kv.second); }
    }
    return v;
}
struct Outcome { std::string error; std::vector<double> data, mask, noise, plane, hits, meta; };
Outcome outcome_of(coarse_channel cc) {
    Outcome o;
    o.data = bl::values(cc.data()); o.mask = bl::values(cc.mask());
    try { auto n = cc.noise_estimate(); o.noise = {n.noise_floor(), n.noise_power(), n.noise_amplitude()}; } catch (std::exception &) { o.noise = {-1}; }
    try { o.plane = plane_values(cc); } catch (std::exception &) { o.plane = {-1}; }
    if (cc.has_hits()) { o.hits = hit_values(cc.hits()); o.hits.push_back(-2); }
    o.meta = {cc.fch1(), cc.foff(), (double)cc.nchans(), (double)cc.ntsteps(), cc.tsamp(), cc.tstart(), (double)cc._coarse_channel_number, cc.src_raj(), cc.src_dej(), cc.az_start(), cc.za_start(), (double)cc.machine_id(), (double)cc.telescope_id()};
    return o;
}
// the stages applied to each channel on its own
Outcome direct(const CC &s, const std::vector<Stage> &stages) {
    auto cc = make_cc(s);
    Outcome o;
    o.error = thrown([&] { for (auto st : stages) cc = run(cc, st); });
    if (!o.error.empty()) { std::string e = o.error; o = Outcome{}; o.error = e; return o; }
    return outcome_of(cc);
}
void compare(Ctx &c, const Outcome &got, const Outcome &want, const std::string &w) {
    c.step();
    MC_CHECK(c, got.error.empty() == want.error.empty(), "failure", w + ": " + (got.error.empty() ? "succeeds, but fails channel by channel: " + want.error : "fails: " + got.error));
    auto same = [&](const std::vector<double> &a, const std::vector<double> &b, const char *key) {
        MC_CHECK(c, bl::same(a, b), key, w + ": " + key + " is " + mc::str(a).substr(0, 300) + ", channel by channel it is " + mc::str(b).substr(0, 300));
    };
    same(got.meta, want.meta, "metadata"); same(got.data, want.data, "data"); same(got.mask, want.mask, "mask");
    same(got.noise, want.noise, "noise estimate"); same(got.plane, want.plane, "drift plane"); same(got.hits, want.hits, "hits");
}

// a group of scans behind one interface
struct Group {
    int level;                                   // 1 scans, 2 observations, 3 cadence
    std::vector<int> per;                        // scans of each observation
    std::vector<scan> scans; std::vector<observation_target> obs; cadence cad;
    Group(int lv, const std::vector<scan> &s, const std::vector<int> &p) : level(lv), per(p), scans(s) {
        if (level == 1) return;
        size_t at = 0;
        for (int k : per) { obs.emplace_back(std::vector<scan>(s.begin() + at, s.begin() + at + k)); at += k; }
        if (level == 3) cad = cadence(obs);
    }
    void stage(Stage s) {
        if (level == 1) for (auto &x : scans) x = run(x, s);
        else if (level == 2) for (auto &x : obs) x = run(x, s);
        else cad = run(cad, s);
    }
    void slice(int64_t start, int64_t count) {
        if (level == 1) for (auto &x : scans) x = x.slice_scan_channels(start, count);
        else if (level == 2) for (auto &x : obs) x = x.slice_observation_channels(start, count);
        else cad = cad.slice_cadence_channels(start, count);
    }
    std::vector<scan *> all() {
        std::vector<scan *> v;
        if (level == 1) for (auto &x : scans) v.push_back(&x);
        else for (auto &o : level == 2 ? obs : cad._observations) for (auto &x : o._scans) v.push_back(&x);
        return v;
    }
};
std::vector<Stage> choose_stages(Ctx &c, std::string &w) {
    std::vector<Stage> st;
    auto opt = [&](Kind k, int variants, bool by_default) {        // 0: the default; others: variants, or absent/present
        int v = c.deviate(variants + 1, kind_name(k));
        bool present = by_default ? v != variants : v != 0;
        if (present) st.push_back({k, by_default ? v : v - 1});
    };
    opt(NORMALIZE, 1, true); opt(EQUALIZE, 2, false); opt(ROLLOFF, 2, true); opt(KURTOSIS, 2, true); opt(SIGMACLIP, 2, true); opt(MAGNITUDE, 2, false);
    opt(NOISE, 3, true); opt(INTEGRATE, 4, true); opt(SEARCH, 4, true); opt(FILTER, 2, true);
    if (!st.empty()) {
        int s = c.deviate((int)st.size(), "swap");                 // one pair of neighbours the other way around
        if (s) std::swap(st[s - 1], st[s]);
        int r = c.deviate((int)st.size() + 1, "repeat");           // one stage once more at the end
        if (r) st.push_back(st[r - 1]);
    }
    for (auto s : st) w += std::string(" ") + kind_name(s.kind) + mc::str(s.variant);
    return st;
}
void grouping(Ctx &c) {
    quiet_h5();
    c.deviation_bound = mc::thorough() ? 3 : 2;
    c._shard_at = ~0ull;                          // every choice is made before any work: divide complete paths
    std::string list;
    auto stages = choose_stages(c, list);
    int level = 1 + c.choose(3, "level");
    int backing = c.deviate(3, "backing");        // a file; channels in memory; channels in memory that have the same number
    bool from_file = backing == 0, alike = backing == 2;
    std::string w = std::string(level == 1 ? "scans" : level == 2 ? "observations" : "cadence") + (from_file ? " of files:" : alike ? " in memory of channels 5:" : " in memory:") + list;
    int layout = c.deviate(3, "groups");
    std::vector<int> per = layout == 0 ? std::vector<int>{1, 1} : layout == 1 ? std::vector<int>{2} : std::vector<int>{1, 2};
    int n = std::accumulate(per.begin(), per.end(), 0);
    // slicing at some point of the pipeline: 1 before it, .. after it
    int64_t first = 0, count = NC;
    int at = c.deviate((int)stages.size() + 2, "slice") - 1;
    if (at >= 0) { first = c.choose((int)NC, "first"); count = 1 + c.choose((int)(NC - first), "count"); if (first == 0 && count == NC) throw mc::Skip{}; w += " sliced(" + mc::str(first) + "," + mc::str(count) + ") before stage " + mc::str(at); }
    int reads = c.deviate(4, "reading");         // backwards; one channel while the pipeline is half built; every channel beforehand
    if (reads) w += reads == 1 ? " read backwards" : reads == 2 ? " read half way" : " read beforehand";
    MC_NOTE(c, w);
    if (!c._shard_decided) c.decide_shard();
    std::vector<FileSpec> files; std::vector<scan> scans;
    for (int i = 0; i < n; ++i) {
        files.push_back(recording(i));
        scans.push_back(from_file ? scan(cached_h5("g" + mc::str(i), files.back()), (int)FPC) : make_scan(channels_of(files.back(), alike)));
    }
    Group g(level, scans, per), original(level, scans, per);
    if (reads == 3) for (auto s : g.all()) for (int k = 0; k < NC; ++k) (void)s->read_coarse_channel(k)->data();
    for (size_t i = 0; i <= stages.size(); ++i) {
        if ((int)i == at) g.slice(first, count);
        if (reads == 2 && i == stages.size() / 2) for (auto s : g.all()) (void)thrown([&] { (void)s->read_coarse_channel(0)->data(); });
        if (i < stages.size()) g.stage(stages[i]);
    }
    c.state(mc::hash_str(w));
    static std::string known_list = "?"; static std::map<std::pair<int, int64_t>, Outcome> known;     // outcomes of the channels on their own for the last list of stages
    if (known_list != list + (alike ? "=" : "")) { known_list = list + (alike ? "=" : ""); known.clear(); }
    auto reference = [&](int i, int64_t k) -> const Outcome & {
        auto it = known.find({i, k});
        if (it == known.end()) it = known.emplace(std::make_pair(i, k), direct(channels_of(files[i], alike)[k], stages)).first;
        return it->second;
    };
    auto all = g.all();
    MC_CHECK(c, (int)all.size() == n, "scan lost", w);
    uint64_t sum = 0;
    for (int i = 0; i < n; ++i) {
        auto specs = channels_of(files[i], alike);
        auto &s = *all[i];
        MC_CHECK(c, s.get_number_coarse_channels() == count, "channels", w + ": scan " + mc::str(i) + " has " + mc::str(s.get_number_coarse_channels()) + " channels");
        std::vector<double> hits; bool searched = true;
        for (int64_t j = 0; j < count; ++j) {
            int64_t k = reads == 1 ? count - 1 - j : j;
            const Outcome &want = reference(i, first + k); Outcome got;
            for (int again = 0; again < (j || i ? 1 : 2); ++again) {
                got = Outcome{};
                got.error = thrown([&] { got = outcome_of(*s.read_coarse_channel((int)k)); });
                compare(c, got, want, w + ": channel " + mc::str(k) + " of scan " + mc::str(i) + (again ? ", read again" : ""));
            }
            sum = mc::mix(mc::mix(mc::mix(sum, mc::hash_vec(got.hits)), mc::hash_vec(got.mask)), mc::hash_vec(got.plane));
            MC_NOTE(c, "channel " + mc::str(k) + ": " + mc::str(std::count_if(got.mask.begin(), got.mask.end(), [](double v) { return v != 0; })) + " flagged, " + mc::str(got.hits.size() / 13) + " hits " + got.error);
            searched &= got.error.empty() && !got.hits.empty();
        }
        if (searched && i == n - 1) {
            for (int64_t k = 0; k < count; ++k) { auto h = reference(i, first + k).hits; h.pop_back(); hits.insert(hits.end(), h.begin(), h.end()); }
            auto got = hit_values(s.hits());
            MC_CHECK(c, bl::same(got, hits), "scan hits", w + ": scan " + mc::str(i) + " lists " + mc::str(got) + ", its channels " + mc::str(hits));
        }
        // what the pipeline was built from is unchanged
        auto raw = outcome_of(*original.all()[i]->read_coarse_channel((int)(first + count - 1)));
        compare(c, raw, outcome_of(make_cc(specs[first + count - 1])), w + ": original of scan " + mc::str(i));
    }
    c.outcome(sum);
}
} // namespace
MC_PROPERTY(S04) { mc::explore("grouping", grouping); }
