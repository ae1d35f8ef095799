// P01 the command line programs, P02 injected signals end to end
#include "bs.hpp"
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/hits_file.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>

// the programs themselves: their main() compiled unchanged and renamed in the object file
extern "C" int find_hits_main(int, char **);
extern "C" int hits_to_dat_main(int, char **);
extern "C" int channelizer_response_main(int, char **);

using namespace bliss;
using bl::Shape;
using bs::FileSpec;
using mc::Ctx;
namespace {
void expect(Ctx &c, bool ok, const std::string &key, const std::string &msg) { if (!ok) c.fail(key, msg); }

// ---------------------------------------------------------------- running a program
struct Ran { int code; std::string err, out; };      // code -1: left main with an exception (the process would be aborted)
std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::string work() { static std::string d = [] { auto p = mc::scratch() + "/work"; mkdir(p.c_str(), 0777); return p; }(); return d; }
void fresh_dir() {
    auto d = work();
    if (DIR *h = opendir(d.c_str())) {
        while (auto *e = readdir(h)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
        closedir(h);
    }
}
std::set<std::string> listing() {
    std::set<std::string> r;
    if (DIR *h = opendir(work().c_str())) { while (auto *e = readdir(h)) if (e->d_name[0] != '.') r.insert(e->d_name); closedir(h); }
    return r;
}
Ran run(int (*prog)(int, char **), std::vector<std::string> args, bool capture = false) {
    args.insert(args.begin(), "program");
    std::vector<char *> v;
    for (auto &a : args) v.push_back(a.data());
    v.push_back(nullptr);
    Ran r{0, "", ""};
    char old[4096];
    if (!getcwd(old, sizeof old) || chdir(work().c_str())) throw mc::Divergence{"no working directory"};
    int saved = -1;
    std::string cap = mc::scratch() + "/captured";
    if (capture) { fflush(stdout); std::cout.flush(); saved = dup(1); int f = open(cap.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(f, 1); close(f); }
    try { r.code = prog((int)args.size(), v.data()); }
    catch (std::exception &e) { r.code = -1; r.err = e.what(); }
    catch (H5::Exception &e) { r.code = -1; r.err = e.getDetailMsg(); }
    if (capture) { fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved); r.out = slurp(cap); }
    if (chdir(old)) throw mc::Divergence{"lost the working directory"};
    return r;
}

// ---------------------------------------------------------------- data
const double FOFF = -2.7939677238464355e-06, TSAMP = 18.253611008;
struct Tone { int64_t start; double drift; double amp; };
// background noise of mean 1000 with the spread of an average over tsamp*foff samples, plus tones (channel = start + drift * t/(T-1), rounded)
std::vector<float> make_data(int64_t T, int64_t N, uint64_t seed, const std::vector<Tone> &tones) {
    std::vector<float> d(T * N);
    uint64_t s = 88172645463325252ull + seed * 7919;
    auto uni = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double)(s >> 11) / 9007199254740992.0; };
    for (auto &x : d) { double g = 0; for (int i = 0; i < 12; ++i) g += uni(); x = (float)(1000 * (1 + (g - 6) / std::sqrt(51.0))); }
    double sigma = 1000 / std::sqrt(51.0);
    for (auto &t : tones) for (int64_t k = 0; k < T; ++k) {
        int64_t ch = t.start + std::llround(t.drift * k / (double)(T - 1));
        if (ch >= 0 && ch < N) d[k * N + ch] += (float)(t.amp * sigma);
    }
    return d;
}
FileSpec spec(int64_t T, int64_t N, uint64_t seed, const std::vector<Tone> &tones) {
    FileSpec f; f.T = T; f.N = N; f.foff = FOFF; f.tsamp = TSAMP; f.fch1 = 8421.386717353016; f.tstart = 59046.92634259259;
    f.data = make_data(T, N, seed, tones);
    return f;
}
const std::vector<Tone> &many() {
    static std::vector<Tone> t{{20, 4, 30}, {40, -6, 12}, {33, 0, 40}, {90, 9, 60}, {104, -2, 25}, {70, 5, 7}, {150, -15, 80}, {170, 1, 200}, {200, 7, 20}, {230, -5, 35}, {226, 6, 35}, {250, 3, 50}, {130, 2, 50}};
    return t;
}

// ---------------------------------------------------------------- the documented pipeline, from its options
struct Opt {
    int coarse = 0, number = 1, per = 64;
    std::string taps;
    integrate_drifts_options drift{.desmear = true, .low_rate = -8, .high_rate = 8, .rate_step_size = 1};
    hit_search_options search{.method = hit_search_methods::CONNECTED_COMPONENTS, .snr_threshold = 10.0f, .neighbor_l1_dist = 7};
    float rolloff = 0.25, sk_low = 0.25, sk_high = 50, sk_d = 2, sc_low = 3, sc_high = 4;
    int sc_iters = 5;
};
scan expected(const std::string &file, const Opt &o) {
    scan s(file, o.per);
    s = s.slice_scan_channels(o.coarse, o.number);
    s = normalize(s);
    if (!o.taps.empty()) s = equalize_passband_filter(s, o.taps);
    else s = flag_filter_rolloff(s, o.rolloff);
    s = flag_spectral_kurtosis(s, o.sk_low, o.sk_high, o.sk_d);
    s = flag_sigmaclip(s, o.sc_iters, o.sc_low, o.sc_high);
    s = estimate_noise_power(s, noise_power_estimate_options{.estimator_method = noise_power_estimator::STDDEV, .masked_estimate = true});
    s = integrate_drifts(s, o.drift);
    s = hit_search(s, o.search);
    return filter_hits(s, filter_options{.filter_zero_drift = true});
}
std::string text(const hit &h) {
    std::ostringstream o; o.precision(12);
    o << "idx=" << h.start_freq_index << " f=" << h.start_freq_MHz << " t=" << h.start_time_sec << " dur=" << (float)h.duration_sec << " ri=" << h.rate_index << " dr=" << h.drift_rate_Hz_per_sec << " p=" << (float)h.power
      << " steps=" << h.time_span_steps << " snr=" << h.snr << " bw=" << h.bandwidth << " bin=" << h.binwidth << " cc=" << h.coarse_channel_number << "\n";
    return o.str();
}
std::string text(const std::list<hit> &hs) { std::string s; for (auto &h : hs) s += text(h); return s; }
std::string dat_of(scan s) { auto p = mc::scratch() + "/expected.dat"; unlink(p.c_str()); write_scan_hits_to_dat_file(s, p); return slurp(p); }

struct Choice { const char *name; std::vector<std::string> args; std::function<void(Opt &)> set; };
const std::vector<std::vector<Choice>> &options() {
    static std::string taps[2];
    static std::vector<std::vector<Choice>> v;
    if (!v.empty()) return v;
    for (int i = 0; i < 2; ++i) {
        taps[i] = mc::scratch() + (i ? "/short.f32" : "/taps.f32");
        std::ofstream f(taps[i], std::ios::binary);
        for (int k = 0; k < (i ? 5 : 64); ++k) { float x = 0.5f + 0.01f * k; f.write((char *)&x, 4); }
    }
    v = {
        {{"coarse channel 1", {"-c", "1"}, [](Opt &o) { o.coarse = 1; }}, {"coarse channel 3", {"--coarse-channel", "3"}, [](Opt &o) { o.coarse = 3; }}, {"coarse channel 4 (none)", {"-c", "4"}, [](Opt &o) { o.coarse = 4; }}},
        {{"2 coarse channels", {"--number-coarse", "2"}, [](Opt &o) { o.number = 2; }}, {"4 coarse channels", {"--number-coarse", "4"}, [](Opt &o) { o.number = 4; }}},
        {{"128 channels per coarse", {"--nchan-per-coarse", "128"}, [](Opt &o) { o.per = 128; }}, {"automatic channels per coarse", {"--nchan-per-coarse", "0"}, [](Opt &o) { o.per = 0; }}},
        {{"equalizer", {"-e", taps[0]}, [](Opt &o) { o.taps = taps[0]; }}, {"equalizer of another size", {"--equalizer-channel", taps[1]}, [](Opt &o) { o.taps = taps[1]; }}},
        {{"no desmearing", {"--nodesmear"}, [](Opt &o) { o.drift.desmear = false; }}, {"desmearing", {"--desmear"}, [](Opt &o) { o.drift.desmear = true; }}},
        {{"min rate -3", {"-m", "-3"}, [](Opt &o) { o.drift.low_rate = -3; }}, {"min rate -18", {"--min-rate", "-18"}, [](Opt &o) { o.drift.low_rate = -18; }}},
        {{"max rate 5", {"-M", "5"}, [](Opt &o) { o.drift.high_rate = 5; }}, {"max rate 20", {"--max-rate", "20"}, [](Opt &o) { o.drift.high_rate = 20; }}},
        {{"rate step 2", {"-rs", "2"}, [](Opt &o) { o.drift.rate_step_size = 2; }}, {"rate step 5", {"--rate-step", "5"}, [](Opt &o) { o.drift.rate_step_size = 5; }}},
        {{"rolloff 0", {"--filter-rolloff", "0"}, [](Opt &o) { o.rolloff = 0; }}, {"rolloff 0.4", {"--filter-rolloff", "0.4"}, [](Opt &o) { o.rolloff = 0.4f; }}},
        {{"no sigma clip iterations", {"--sigmaclip-iters", "0"}, [](Opt &o) { o.sc_iters = 0; }}, {"1 sigma clip iteration", {"--sigmaclip-iters", "1"}, [](Opt &o) { o.sc_iters = 1; }}},
        {{"sigma clip low 1", {"--sigmaclip-low", "1"}, [](Opt &o) { o.sc_low = 1; }}, {"sigma clip low 20", {"--sigmaclip-low", "20"}, [](Opt &o) { o.sc_low = 20; }}},
        {{"sigma clip high 1.5", {"--sigmaclip-high", "1.5"}, [](Opt &o) { o.sc_high = 1.5f; }}, {"sigma clip high 20", {"--sigmaclip-high", "20"}, [](Opt &o) { o.sc_high = 20; }}},
        {{"SK low 3", {"--sk-low", "3"}, [](Opt &o) { o.sk_low = 3; }}, {"SK low 0", {"--sk-low", "0"}, [](Opt &o) { o.sk_low = 0; }}},
        {{"SK high 4", {"--sk-high", "4"}, [](Opt &o) { o.sk_high = 4; }}, {"SK high 1000", {"--sk-high", "1000"}, [](Opt &o) { o.sk_high = 1000; }}},
        {{"SK d 0.2", {"--sk-d", "0.2"}, [](Opt &o) { o.sk_d = 0.2f; }}, {"SK d 4", {"--sk-d", "4"}, [](Opt &o) { o.sk_d = 4; }}},
        {{"local maxima", {"--local-maxima"}, [](Opt &o) { o.search.method = hit_search_methods::LOCAL_MAXIMA; }}, {"connected components", {"--connected-components"}, [](Opt &o) { o.search.method = hit_search_methods::CONNECTED_COMPONENTS; }}},
        {{"SNR 4", {"-s", "4"}, [](Opt &o) { o.search.snr_threshold = 4; }}, {"SNR 30", {"--snr", "30"}, [](Opt &o) { o.search.snr_threshold = 30; }}},
        {{"distance 1", {"--distance", "1"}, [](Opt &o) { o.search.neighbor_l1_dist = 1; }}, {"distance 15", {"--distance", "15"}, [](Opt &o) { o.search.neighbor_l1_dist = 15; }}},
    };
    return v;
}
// every choice of at most `bound` options departing from the defaults, as a capnp or dat file
void cli_options(Ctx &c) {
    bs::quiet_h5();
    c.deviation_bound = mc::thorough() ? 3 : 2;
    auto file = bs::cached_h5("cli", spec(8, 256, 1, many()));
    Opt o;
    std::vector<std::string> args{file, "-d", "cpu", "--nchan-per-coarse", "64", "-m", "-8", "-M", "8"};
    std::string what = "bliss_find_hits";
    for (auto &g : options()) {
        int v = c.deviate((int)g.size() + 1, "option");
        if (!v) continue;
        auto &x = g[v - 1];
        x.set(o);
        for (size_t i = 0; i < x.args.size(); ++i) {
            // an option is given once: replace the base value of the same option
            if (i == 0) {
                auto same = [&](const char *s, const char *l) { return x.args[0] == s || x.args[0] == l; };
                const char *key = same("-m", "--min-rate") ? "-m" : same("-M", "--max-rate") ? "-M" : x.args[0] == "--nchan-per-coarse" ? "--nchan-per-coarse" : nullptr;
                if (key) { auto it = std::find(args.begin(), args.end(), key); args.erase(it, it + 2); }
            }
            args.push_back(x.args[i]);
        }
        what += std::string(", ") + x.name;
    }
    bool dat = c.flip("dat");
    args.insert(args.end(), {"-o", dat ? "out.dat" : "out.capnp"});
    MC_NOTE(c, what + (dat ? " to dat" : " to capnp"));
    c.step();
    // what it must find, once per set of options
    static std::map<std::string, std::pair<std::string, std::string>> memo;      // options -> (error, contents)
    auto &m = memo[what + (dat ? "d" : "c")];
    if (m.first.empty() && m.second.empty()) {
        m.first = bs::thrown([&] { auto s = expected(file, o); m.second = dat ? dat_of(s) : "hits:\n" + text(s.hits()); });
    }
    fresh_dir();
    auto r = run(find_hits_main, args);
    auto out = work() + (dat ? "/out.dat" : "/out.capnp");
    if (!m.first.empty()) {
        expect(c, r.code != 0, "failure-exit-code", what + ": the pipeline fails (" + m.first + ") but the program ends with exit code 0");
        c.outcome(mc::hash_str(m.first));
        return;
    }
    expect(c, r.code == 0, "exit-code", what + ": exit code " + mc::str(r.code) + " " + r.err);
    expect(c, listing() == std::set<std::string>{dat ? "out.dat" : "out.capnp"}, "output-file", what + ": files " + mc::str((int)listing().size()));
    std::string got = dat ? slurp(out) : "hits:\n" + text(read_scan_hits_from_file(out).hits());
    expect(c, got == m.second, "output-contents", what + ": wrote\n" + got + "\nexpected\n" + m.second);
    c.outcome(mc::hash_str(got));
}
// where the results of several scans go, and what happens when something fails
void cli_outputs(Ctx &c) {
    bs::quiet_h5();
    int n = 1 + c.choose(3, "scans - 1");
    std::vector<std::string> files;
    std::vector<int> which;
    bool elsewhere = false;
    for (int i = 0; i < n; ++i) {
        int k = c.choose(3, "scan");                  // two ordinary scans and one without hits
        which.push_back(k);
        files.push_back(bs::cached_h5("cli_scan" + mc::str(k), spec(8, 128, 7 + k, k == 2 ? std::vector<Tone>{} : std::vector<Tone>{{40 + 5 * k, 4, 30}, {85, -5.0 - k, 30}})));
    }
    (void)elsewhere;
    int form = c.choose(8, "output");
    struct F { const char *name; std::vector<std::string> args; const char *file; bool dat; };
    static const std::vector<F> forms{{"default", {}, "", false}, {"x.dat", {"-o", "x.dat"}, "x.dat", true}, {"x.capnp", {"--output", "x.capnp"}, "x.capnp", false}, {"x.cp", {"-o", "x.cp"}, "x.cp", false}, {"x.bin", {"-o", "x.bin"}, "x.bin", false},
                                      {"x.bin dat", {"-o", "x.bin", "dat"}, "x.bin", true}, {"x.dat capnp", {"-o", "x.dat", "capnp"}, "x.dat", false}, {"-", {"-o", "-"}, nullptr, false}};
    auto &f = forms[form];
    int fault = c.choose(6, "fault");
    // 0 none, 1 the last scan does not exist, 2 unwritable directory, 3 no such device, 4 channel out of range, 5 the default output exists as a directory
    c.assume(!(fault == 2 && (form == 0 || form == 7)));
    c.assume(!(fault == 5 && form != 0));
    std::vector<std::string> args = files;
    if (fault == 1) args.back() = work() + "/missing.h5";
    args.insert(args.end(), {"-d", fault == 3 ? "abacus" : "cpu", "--nchan-per-coarse", "128", "-m", "-8", "-M", "8"});
    if (fault == 4) args.insert(args.end(), {"-c", "1"});
    auto oa = f.args;
    std::string outfile = f.file ? f.file : "";
    if (fault == 2) oa[1] = "missing_directory/" + oa[1];
    args.insert(args.end(), oa.begin(), oa.end());
    std::string what = mc::str(n) + " scans " + mc::str(which) + ", output " + f.name + ", fault " + mc::str(fault);
    MC_NOTE(c, what);
    c.step();
    fresh_dir();
    auto base = [](std::string p) { p = p.substr(p.rfind('/') + 1); return p.substr(0, p.rfind('.')); };
    std::string blocked = work() + "/" + base(files[0]) + ".capnp";
    if (fault == 5) mkdir(blocked.c_str(), 0777);
    auto r = run(find_hits_main, args, form == 7);
    if (fault == 5) rmdir(blocked.c_str());
    if (fault) {
        expect(c, r.code != 0, "failure-exit-code", what + ": ends with exit code 0");
        return;
    }
    expect(c, r.code == 0, "exit-code", what + ": exit code " + mc::str(r.code) + " " + r.err);
    static std::map<int, std::pair<std::string, std::string>> memo;
    for (int i = 0; i < n; ++i) {
        Opt o; o.per = 128;
        auto &m = memo[which[i]];
        if (m.first.empty()) { auto s = expected(files[i], o); m = {"hits:\n" + text(s.hits()), dat_of(s)}; if (which[i] != 2 && s.hits().size() != 2) throw mc::Divergence{"the scans of this space must have two hits, not " + mc::str(s.hits().size())}; }
    }
    std::set<int> kinds(which.begin(), which.end());
    if (form == 7) {
        // every hit's description is printed, scan by scan
        size_t pos = 0;
        for (int i = 0; i < n; ++i) {
            Opt o; o.per = 128;
            auto s = expected(files[i], o);
            for (auto &h : s.hits()) { pos = r.out.find(h.repr(), pos); expect(c, pos != std::string::npos, "printed-hits", what + ": a hit of scan " + mc::str(i) + " is not printed"); ++pos; }
        }
        expect(c, listing().empty(), "output-file", what + ": printing also wrote a file");
    } else if (form == 0) {
        std::set<std::string> want;
        for (auto &x : files) want.insert(base(x) + ".capnp");
        expect(c, listing() == want, "default-output-files", what + ": there are " + mc::str((int)listing().size()) + " output files for " + mc::str((int)want.size()) + " scans");
        for (int i = 0; i < n; ++i) expect(c, "hits:\n" + text(read_scan_hits_from_file(work() + "/" + base(files[i]) + ".capnp").hits()) == memo[which[i]].first, "default-output-contents", what + ": the file of scan " + mc::str(i) + " has other hits");
    } else {
        expect(c, listing().size() >= 1, "output-file", what);
        // the results of every scan can be found in some file written
        std::vector<std::string> contents;
        for (auto &x : listing()) contents.push_back(f.dat ? slurp(work() + "/" + x) : "hits:\n" + text(read_scan_hits_from_file(work() + "/" + x).hits()));
        auto &last = f.dat ? memo[which[n - 1]].second : memo[which[n - 1]].first;
        for (int k : kinds) {
            auto &w = f.dat ? memo[k].second : memo[k].first;
            expect(c, std::find(contents.begin(), contents.end(), w) != contents.end(), contents.size() == 1 && contents[0] == last ? "several-scans-one-output" : "output-contents", what + ": the hits of scan kind " + mc::str(k) + " are in none of the files written");
        }
    }
    c.outcome(mc::hash_str(what));
}
// converting result files
void to_dat(Ctx &c) {
    bs::quiet_h5();
    int k = c.choose(4, "scan");
    auto file = k == 3 ? bs::cached_h5("cli", spec(8, 256, 1, many()))
                       : bs::cached_h5("cli_scan" + mc::str(k), spec(8, 128, 7 + k, k == 2 ? std::vector<Tone>{} : std::vector<Tone>{{40 + 5 * k, 4, 30}, {85, -5.0 - k, 30}}));
    Opt o; o.per = 128; if (k == 3) { o.per = 64; o.number = 4; o.search.snr_threshold = 5; o.rolloff = 0; o.sk_low = 0; }
    static std::map<int, scan> memo;
    if (!memo.count(k)) { memo[k] = expected(file, o); memo[k].hits(); }
    auto s = memo[k];
    fresh_dir();
    std::string in = c.pick(std::vector<std::string>{"in.capnp", "in.cp", "in", "in.more.dots.capnp"}, "input name");
    write_scan_hits_to_capnp_file(s, work() + "/" + in);
    int form = c.choose(3, "output");     // default, given, printed
    int fault = c.choose(4, "fault");     // none, missing input, truncated input, unwritable output
    c.assume(!(fault == 3 && form != 1));
    std::vector<std::string> args{c.flip("long option") ? "--input" : "-i", fault == 1 ? "other.capnp" : in};
    std::string outname = in.substr(0, in.rfind('.') == std::string::npos ? in.size() : in.rfind('.')) + ".dat";
    if (form == 1) { outname = "given.dat"; args.insert(args.end(), {"-o", fault == 3 ? "missing_directory/given.dat" : outname}); }
    if (form == 2) args.insert(args.end(), {"--output", "-"});
    if (fault == 2) { auto b = slurp(work() + "/" + in); std::ofstream f(work() + "/" + in, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size() - 8); }
    std::string what = "bliss_hits_to_dat, scan " + mc::str(k) + ", input " + in + ", output " + mc::str(form) + ", fault " + mc::str(fault);
    MC_NOTE(c, what);
    c.step();
    auto before = slurp(work() + "/" + in);
    auto r = run(hits_to_dat_main, args, form == 2);
    if (fault) { expect(c, r.code != 0, "failure-exit-code", what + ": ends with exit code 0"); return; }
    expect(c, r.code == 0, "exit-code", what + ": exit code " + mc::str(r.code) + " " + r.err);
    expect(c, slurp(work() + "/" + in) == before, "input-changed", what);
    if (form == 2) {
        size_t pos = 0;
        for (auto &h : read_scan_hits_from_file(work() + "/" + in).hits()) { pos = r.out.find(h.repr(), pos); expect(c, pos != std::string::npos, "printed-hits", what + ": a hit is not printed"); ++pos; }
    } else {
        // everything but the name of the scan's file, which result files do not hold
        auto anon = [](std::string t) { auto a = t.find("# File ID:"); if (a != std::string::npos) { auto b = t.find('\n', a); t = t.substr(0, a) + t.substr(b); } return t; };
        auto got = anon(slurp(work() + "/" + outname)), want = anon(dat_of(s));
        expect(c, got == want, "dat-contents", what + ": wrote\n" + got + "\nexpected\n" + want);
        expect(c, (int)listing().size() == 2, "output-file", what);
        c.outcome(mc::hash_str(got));
    }
}
void response_file(Ctx &c) {
    int fine = c.pick(std::vector<int>{2, 4, 6, 16}, "fine"), coarse = c.pick(std::vector<int>{2, 3, 4, 8}, "coarse"), taps = c.pick(std::vector<int>{1, 2, 4}, "taps");
    c.assume(taps <= fine);
    bool lng = c.flip("long options");
    int form = c.choose(3, "output");     // default, given, unwritable
    std::vector<std::string> args{lng ? "--nchan-per-coarse" : "-f", mc::str(fine), lng ? "--number-coarse" : "-M", mc::str(coarse), lng ? "--taps-per-channel" : "-N", mc::str(taps)};
    std::string name = "channelizer_response.f32";
    if (form) { name = form == 1 ? "resp.f32" : "missing_directory/resp.f32"; args.insert(args.end(), {"-o", name}); }
    std::string what = "bliss_generate_channelizer_response " + mc::str(fine) + " " + mc::str(coarse) + " " + mc::str(taps) + " to " + name;
    MC_NOTE(c, what); c.step();
    fresh_dir();
    auto r = run(channelizer_response_main, args);
    if (form == 2) { expect(c, r.code != 0, "failure-exit-code", what + ": ends with exit code 0"); return; }
    expect(c, r.code == 0, "exit-code", what + ": exit code " + mc::str(r.code) + " " + r.err);
    auto want = bl::values(gen_coarse_channel_response(fine, coarse, taps));
    auto got = slurp(work() + "/" + name);
    expect(c, got.size() == 4 * want.size(), "response-size", what + ": the file has " + mc::str(got.size()) + " bytes for " + mc::str(want.size()) + " channels");
    for (size_t i = 0; i < want.size(); ++i) { float x; memcpy(&x, got.data() + 4 * i, 4); expect(c, x == (float)want[i], "response-contents", what); }
    // and the search accepts it as an equalizer for channels of that many fine channels
    c.outcome(mc::hash_str(got));
}

// ---------------------------------------------------------------- P02
// a drifting tone over noise is found where it was put, and nothing is found elsewhere
void tones(Ctx &c) {
    bs::quiet_h5();
    const int64_t T = 8, N = 256, per = 128;
    uint64_t seed = c.choose(mc::thorough() ? 3 : 2, "noise");
    int64_t cc = c.choose(2, "coarse channel");
    int64_t start = 44 + c.choose(mc::thorough() ? 40 : 10, "start") * (mc::thorough() ? 1 : 4);
    int drift = c.choose(33, "drift") - 16;
    c.assume(drift != 0 && start + drift >= 33 && start + drift <= 94);      // the edges are flagged
    double amp = c.pick(std::vector<double>{30, 100}, "amplitude");
    Opt o; o.per = per; o.coarse = (int)cc; o.drift.low_rate = -24; o.drift.high_rate = 25;
    o.sk_low = 0;       // a quiet channel next to the tone is not the subject here
    o.drift.desmear = !c.flip("no desmearing");
    if (c.flip("local maxima")) o.search.method = hit_search_methods::LOCAL_MAXIMA;
    std::string what = "tone at channel " + mc::str(start) + " of coarse channel " + mc::str(cc) + " drifting by " + mc::str(drift) + " channels, " + mc::str(amp) + " sigma, noise " + mc::str(seed) +
                       (o.drift.desmear ? "" : ", no desmearing") + (o.search.method == hit_search_methods::LOCAL_MAXIMA ? ", local maxima" : "");
    MC_NOTE(c, what);
    c.step();
    // one scan per tone, several searches
    static std::string have; static std::string file;
    std::string key = mc::str(seed) + "_" + mc::str(cc) + "_" + mc::str(start) + "_" + mc::str(drift) + "_" + mc::str(amp);
    if (have != key) { file = bs::write_h5(mc::scratch() + "/tone.h5", spec(T, N, seed, {{cc * per + start, (double)drift, amp}})); have = key; }
    auto s = expected(file, o);
    auto hs = s.hits();
    expect(c, !hs.empty(), "tone-missed", what + ": no hits");
    const hit *best = nullptr;
    std::string all = text(hs);
    for (auto &h : hs) {
        if (!best || h.snr > best->snr) best = &h;
        // where the hit's track meets the tone's
        double found = h.drift_rate_Hz_per_sec / (FOFF * 1e6 / TSAMP) * (T - 1);
        bool meets = false;
        for (int64_t t = 0; t < T; ++t) if (std::abs((h.start_freq_index + found * t / (T - 1)) - (start + (double)drift * t / (T - 1))) <= 1.0 + std::max(1.0, std::round(std::abs(found) / (T - 1))) / 2) meets = true;
        expect(c, meets, "false-alarm", what + ": hit away from the tone\n" + all);
        expect(c, h.coarse_channel_number == cc, "tone-coarse-channel", what + ": hit in coarse channel " + mc::str(h.coarse_channel_number));
    }
    double want_rate = drift * FOFF * 1e6 / TSAMP / (T - 1), rate_step = std::abs(FOFF) * 1e6 / TSAMP / (T - 1);
    double want_f = 8421.386717353016 + FOFF * (cc * per + start);
    expect(c, std::abs(best->drift_rate_Hz_per_sec - want_rate) <= rate_step * 1.01, "tone-drift", what + ": found at " + mc::str(best->drift_rate_Hz_per_sec) + " Hz/s instead of " + mc::str(want_rate) + "\n" + all);
    expect(c, std::abs(best->start_freq_MHz - want_f) <= std::abs(FOFF) * (1 + best->binwidth), "tone-frequency", what + ": found at " + mc::str(best->start_freq_MHz) + " MHz instead of " + mc::str(want_f) + "\n" + all);
    expect(c, std::abs(best->start_freq_index - start) <= 1, "tone-channel", what + ": found at channel " + mc::str(best->start_freq_index) + "\n" + all);
    c.outcome(mc::hash_str(all));
}
} // namespace
MC_PROPERTY(P01) {
    mc::explore("options", cli_options);
    mc::explore("outputs", cli_outputs);
    mc::explore("conversion", to_dat);
    mc::explore("channelizer-response", response_file);
}
MC_PROPERTY(P02) {
    mc::explore("tones", tones);
}
