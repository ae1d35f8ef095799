// R04: searching for events in stored results finds what searching in the live ones finds
#include "bs.hpp"
#include <core/event.hpp>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>
#include <flaggers/filter_rolloff.hpp>
using namespace bs;
using bliss::cadence; using bliss::coarse_channel; using bliss::event; using bliss::hit; using bliss::observation_target; using bliss::scan;

namespace {
const double DAY = 86400;
// ---- routes through storage
enum Route { CADENCE, TARGETS, SCANS, SCANS_ANY, CHANNELS, TWICE, ONE_PATH, ROUTES };
const char *route_name(int r) { static const char *n[] = {"one cadence file", "files of targets", "files of scans", "hits files of scans", "files of channels", "stored twice", "one path used again"}; return n[r]; }
int next_file = 0;
std::string fresh() { return mc::scratch() + "/stored" + mc::str(next_file++); }
struct Files { std::vector<std::string> all; ~Files() { for (auto &f : all) unlink(f.c_str()); } std::string make(const char *ext = "") { all.push_back(fresh() + ext); return all.back(); } };
cadence through(int route, cadence ca) {
    Files files;
    if (route == CADENCE || route == TWICE) {
        for (int k = 0; k < (route == TWICE ? 2 : 1); ++k) {
            auto p = files.make();
            bliss::write_cadence_hits_to_capnp_files(ca, p);
            ca = bliss::read_cadence_hits_from_capnp_files(p);
        }
        return ca;
    }
    if (route == TARGETS) {
        std::vector<std::string> ps; std::vector<observation_target> ts;
        for (auto &o : ca._observations) { ps.push_back(files.make()); bliss::write_observation_target_hits_to_capnp_files(o, ps.back()); }
        for (auto &p : ps) ts.push_back(bliss::read_observation_target_hits_from_capnp_files(p));
        return cadence(ts);
    }
    std::vector<observation_target> ts;
    std::string same = files.make(".capnp");
    for (auto &o : ca._observations) {
        std::vector<scan> ss;
        for (auto &s : o._scans) {
            if (route == CHANNELS) {
                std::map<int, std::shared_ptr<coarse_channel>> m;
                for (int k = 0; k < s.get_number_coarse_channels(); ++k) {
                    auto p = files.make();
                    bliss::write_coarse_channel_hits_to_capnp_file(*s.read_coarse_channel(k), p);
                    m[k] = std::make_shared<coarse_channel>(bliss::read_coarse_channel_hits_from_capnp_file(p));
                }
                ss.push_back(scan(m));
            } else if (route == SCANS) {
                auto p = files.make();
                bliss::write_scan_hits_to_capnp_file(s, p);
                ss.push_back(bliss::read_scan_hits_from_capnp_file(p));
            } else {
                auto p = route == ONE_PATH ? same : files.make(".cp");
                bliss::write_scan_hits_to_file(s, p);
                ss.push_back(bliss::read_scan_hits_from_file(p));
            }
        }
        ts.emplace_back(ss);
    }
    return cadence(ts);
}

// ---- comparison; stored results have single precision in power, snr, bandwidth and durations
bool same_hit(const hit &a, const hit &b) {
    auto f = [](double x, double y) { return bl::close(x, y, 2e-6, 1e-9); };
    return a.start_freq_index == b.start_freq_index && a.start_freq_MHz == b.start_freq_MHz && a.start_time_sec == b.start_time_sec && f(a.duration_sec, b.duration_sec) && a.rate_index == b.rate_index &&
           a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec && f(a.power, b.power) && a.time_span_steps == b.time_span_steps && f(a.snr, b.snr) && f(a.bandwidth, b.bandwidth) && a.binwidth == b.binwidth &&
           a.coarse_channel_number == b.coarse_channel_number;
}
std::string describe(const std::vector<event> &es) {
    std::string s = mc::str(es.size()) + " events:";
    for (auto &e : es) { s += " {"; for (auto &h : e.hits) s += " " + mc::str(h.coarse_channel_number) + "/" + mc::str(h.start_freq_index) + "@" + mc::str(h.start_time_sec - 60000 * DAY); s += " }"; }
    return s;
}
void same_events(Ctx &c, const std::vector<event> &got, const std::vector<event> &want, const std::string &w, bool hits_only = false) {
    c.step();
    bool same = got.size() == want.size();
    for (size_t k = 0; same && k < got.size(); ++k) {
        auto &g = got[k].hits, &h = want[k].hits;
        same = g.size() == h.size() && std::equal(g.begin(), g.end(), h.begin(), same_hit);
    }
    MC_CHECK(c, same, "events", w + ": " + describe(got) + ", from the live hits " + describe(want));
    if (hits_only) return;
    for (size_t k = 0; k < got.size(); ++k) {
        auto &g = got[k], &h = want[k];
        MC_CHECK(c, bl::close(g.starting_frequency_Hz, h.starting_frequency_Hz, 1e-14, 0) && bl::close(g.average_drift_rate_Hz_per_sec, h.average_drift_rate_Hz_per_sec, 1e-9, 1e-12) &&
                 bl::close(g.average_power, h.average_power, 2e-6, 0) && bl::close(g.average_snr, h.average_snr, 2e-6, 0) && bl::close(g.average_bandwidth, h.average_bandwidth, 2e-6, 0), "averages", w);
        MC_CHECK(c, bl::close(g.event_start_seconds, h.event_start_seconds, 0, 1e-3) && bl::close(g.event_end_seconds, h.event_end_seconds, 0, 1e-3), "times",
                 w + ": from " + mc::str(g.event_start_seconds - 60000 * DAY) + " to " + mc::str(g.event_end_seconds - 60000 * DAY) + " s, from the live hits " + mc::str(h.event_start_seconds - 60000 * DAY) + " to " + mc::str(h.event_end_seconds - 60000 * DAY));
    }
}
// the distance event_search uses; hits near its threshold or at about the same distance may go either way in single precision
double dist(const hit &a, const hit &b) {
    double da = a.drift_rate_Hz_per_sec, db = b.drift_rate_Hz_per_sec, dd = std::fabs(da - db) / (1e-8 + da * da + db * db);
    double first = std::min(a.start_time_sec, b.start_time_sec), last = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec), mid = (first + last) / 2;
    double fa = a.start_freq_MHz * 1e6 + da * (mid - a.start_time_sec), fb = b.start_freq_MHz * 1e6 + db * (mid - b.start_time_sec);
    return 0.01 * std::fabs(fa - fb) + 10 * dd * dd;
}
void decided(const std::vector<std::vector<std::list<hit>>> &hits) {
    std::vector<std::vector<hit>> scans;
    for (auto &o : hits) for (auto &s : o) scans.emplace_back(s.begin(), s.end());
    for (size_t a = 0; a < scans.size(); ++a) for (auto &x : scans[a]) for (size_t b = 0; b < scans.size(); ++b) if (a != b) {
        std::vector<double> ds;
        for (auto &y : scans[b]) { double d = dist(x, y); if (std::fabs(d - 50) < 0.01) throw mc::Skip{}; if (d < 60) ds.push_back(d); }
        std::sort(ds.begin(), ds.end());
        for (size_t k = 1; k < ds.size(); ++k) if (ds[k] - ds[k - 1] < 1e-3) throw mc::Skip{};
    }
}

// ---- hits set by hand
void stored_hits(Ctx &c) {
    int route = c.choose(ROUTES, "route");
    int nobs = 1 + c.choose(mc::thorough() ? 4 : 3, "observations");
    std::vector<int> per;
    for (int o = 0; o < nobs; ++o) per.push_back(o == 0 ? 2 + c.choose(mc::thorough() && nobs < 3 ? 3 : 2, "on scans") : c.choose(2, "off scans"));
    int nch = 1 + c.choose(2, "channels");
    struct Line { double f, d; };
    static const std::vector<Line> lines{{1400.0, 0.5}, {1400.0 + 1500e-6, 0.5}, {1400.05, -2.0}};
    std::string w; int slot = 0; int64_t id = 0;
    std::vector<observation_target> obs;
    std::vector<std::vector<std::list<hit>>> all;
    for (int o = 0; o < nobs; ++o) {
        std::vector<scan> scans; all.emplace_back();
        w += "{";
        for (int s = 0; s < per[o]; ++s) {
            double ts = 60000.0 + (slot++) * 400.0 / DAY;
            int n = 3 + (slot % 2);                  // scans are of different length
            // which lines are seen
            int seen = o == 0 ? c.choose(per[0] <= 2 ? 8 : 4, "lines") : c.choose(3, "lines");
            if (o && seen == 2) seen = 4;
            w += " " + mc::str(seen);
            std::map<int, std::shared_ptr<coarse_channel>> m;
            all.back().emplace_back();
            for (int k = 0; k < nch; ++k) {
                CC q; q.T = n; q.N = 4; q.tsamp = 100.03; q.tstart = ts; q.fch1 = 1401.0 - k; q.foff = -0.25; q.number = k;
                auto cc = make_cc(q);
                std::list<hit> hs;
                for (int l = 0; l < 3; ++l) if (seen >> l & 1 && (nch == 1 ? 0 : l % 2) == k) {
                    hit h{}; ++id;
                    h.start_freq_index = id; h.drift_rate_Hz_per_sec = lines[l].d; h.start_time_sec = ts * DAY; h.duration_sec = n * q.tsamp; h.rate_index = 7 + l; h.binwidth = 1 + id % 4;
                    h.start_freq_MHz = lines[l].f + (lines[l].d * (h.start_time_sec - 60000.0 * DAY) + 7.3 * (id % 5)) * 1e-6;
                    h.power = 1000.7 + 10 * id; h.snr = 15.3f + id; h.bandwidth = 3.7f + id; h.time_span_steps = n; h.coarse_channel_number = k;
                    if (id % 3 == 0) h.rfi_counts[bliss::flag_values::low_spectral_kurtosis] = (uint8_t)id;
                    hs.push_back(h); all.back().back().push_back(h);
                }
                cc.set_hits(hs);
                m[k] = std::make_shared<coarse_channel>(cc);
            }
            scans.push_back(scan(m));
        }
        w += " }";
        obs.emplace_back(scans);
    }
    w = std::string(route_name(route)) + ", " + mc::str(nch) + " channels, lines seen " + w;
    MC_NOTE(c, w); c.state(mc::hash_str(w));
    decided(all);
    auto want = bliss::event_search(cadence(obs));
    c.outcome(mc::hash_str(describe(want)));
    auto got = bliss::event_search(through(route, cadence(obs)));
    same_events(c, got, want, w);
    // the events themselves can be stored: as their hits
    if (route == CADENCE) {
        Files f; auto p = f.make();
        bliss::write_events_to_file(want, p);
        same_events(c, bliss::read_events_from_file(p), want, w + ", the events stored", true);
    }
}

// ---- hits of a search which has not run yet when the results are stored
constexpr int64_t FPC = 24, T = 6;
FileSpec record(int which, bool on, int tones, int64_t nc) {
    FileSpec f; f.T = T; f.N = FPC * nc; f.tsamp = 16; f.foff = -1.0 / (1 << 18); f.fch1 = 1024; f.tstart = 60000.0 + which * 128.0 / DAY; f.source = on ? "A" : "B";
    uint32_t r = 999 + 977 * which;
    f.data.resize(f.T * f.N);
    for (auto &v : f.data) { r = r * 1664525u + 1013904223u; v = 100.0f + (float)((r >> 20) & 255) / 64.0f; }
    auto tone = [&](int64_t ch, double rate, float v) { for (int64_t t = 0; t < T; ++t) { int64_t x = ch + (int64_t)std::floor(rate * t + 0.5); if (x >= 0 && x < f.N) f.data[t * f.N + x] += v; } };
    if (on && (tones & 1)) tone(6, 0.8, 40);
    if (on && (tones & 2) && which == 2) tone(6, 0.8, 40);
    if (tones & 4) tone(nc > 1 ? FPC + 14 : 18, -0.6, 30);
    if (tones & 8) tone(nc > 1 ? FPC + 4 : 2, 0, 30);
    return f;
}
void pipeline(Ctx &c) {
    int route = c.choose(ROUTES, "route");
    int tones = c.choose(16, "tones");
    int64_t nc = 1 + c.choose(2, "channels");
    int filters = c.choose(2, "filter"), from = c.choose(3, "storage"), method = c.choose(2, "method");
    std::string w = std::string(route_name(route)) + ", tones " + mc::str(tones) + ", " + mc::str(nc) + " channels" + (filters ? ", filtered" : "") + (from ? ", from files" : ", from memory") + (from == 2 ? " sliced" : "") + (method ? ", local maxima" : ", connected components");
    MC_NOTE(c, w); c.state(mc::hash_str(w));
    auto make = [&] {
        std::vector<observation_target> ts; int which = 0;
        for (int o = 0; o < 2; ++o) {
            std::vector<scan> ss;
            for (int s = 0; s < (o == 0 ? 2 : 1); ++s) {
                which = o == 0 ? 2 * s : 1;
                auto f = record(which, o == 0, tones, nc);
                if (from == 0) {
                    std::vector<CC> v;
                    for (int64_t k = 0; k < nc; ++k) {
                        CC q; q.T = T; q.N = FPC; q.fch1 = f.fch1 + f.foff * FPC * k; q.foff = f.foff; q.tsamp = f.tsamp; q.tstart = f.tstart; q.number = k; q.source = f.source;
                        for (int64_t t = 0; t < T; ++t) for (int64_t i = 0; i < FPC; ++i) q.data.push_back(f.data[t * f.N + k * FPC + i]);
                        v.push_back(q);
                    }
                    ss.push_back(make_scan(v));
                } else {
                    scan x(cached_h5("ev" + mc::str(which) + "_" + mc::str(o) + "_" + mc::str(tones) + "_" + mc::str(nc), f), FPC);
                    ss.push_back(from == 2 ? x.slice_scan_channels(nc - 1, 1) : x);
                }
            }
            ts.emplace_back(ss);
        }
        cadence ca(ts);
        ca = bliss::flag_filter_rolloff(ca, 0.05f);
        bliss::noise_power_estimate_options n; n.masked_estimate = false;
        ca = bliss::estimate_noise_power(ca, n);
        bliss::integrate_drifts_options i; i.low_rate = -8; i.high_rate = 9; i.rate_step_size = 1; i.desmear = true;
        ca = bliss::integrate_drifts(ca, i);
        bliss::hit_search_options h; h.method = method ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS; h.snr_threshold = 8; h.neighbor_l1_dist = method ? 2 : 5;
        ca = bliss::hit_search(ca, h);
        if (filters) ca = bliss::filter_hits(ca, {.filter_zero_drift = true});
        return ca;
    };
    auto live = make();
    std::vector<std::vector<std::list<hit>>> all;
    for (auto &o : live._observations) { all.emplace_back(); for (auto &s : o._scans) all.back().push_back(s.hits()); }
    decided(all);
    auto want = bliss::event_search(live);
    c.outcome(mc::hash_str(describe(want)));
    auto stored = through(route, make());
    for (size_t o = 0; o < all.size(); ++o) for (size_t s = 0; s < all[o].size(); ++s) {
        MC_CHECK(c, stored._observations.size() == all.size() && stored._observations[o]._scans.size() == all[o].size(), "shape", w);
        auto g = stored._observations[o]._scans[s].hits(); auto &h = all[o][s];
        MC_CHECK(c, g.size() == h.size() && std::equal(g.begin(), g.end(), h.begin(), same_hit), "hits", w + ": scan " + mc::str(s) + " of target " + mc::str(o) + " has " + mc::str(g.size()) + " stored hits, " + mc::str(h.size()) + " live ones, or their order or fields differ");
    }
    same_events(c, bliss::event_search(stored), want, w);
}
} // namespace

MC_PROPERTY(R04) { mc::explore("stored-hits", stored_hits); mc::explore("pipeline", pipeline); }
