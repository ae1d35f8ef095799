// R01 serialization round trips, R02 truncated / faulty storage, R03 .dat export
#include "bs.hpp"
#include <core/event.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>
#include <fcntl.h>
#include <regex>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace bs;
using bliss::hit; using bliss::scan; using bliss::coarse_channel; using bliss::observation_target; using bliss::cadence; using bliss::event;

// ---------------------------------------------------------------- controlled I/O
namespace io {
enum Fault { NONE, ONE_BYTE, INTERRUPTED, ERROR, HALF };
static bool armed = false;
static int  reads = 0, writes = 0, errors = 0, bad_close = 0;
static std::set<int> live;
static std::map<int, Fault> plan;      // call number (reads and writes counted together) -> fault
static int calls() { return reads + writes; }
struct Arm {
    Arm(std::map<int, Fault> p = {}) { plan = std::move(p); reads = writes = errors = bad_close = 0; live.clear(); armed = true; }
    ~Arm() { stop(); }
    void stop() { armed = false; }
};
static Fault next(int fd) {
    if (!armed || !live.count(fd)) return NONE;
    auto it = plan.find(calls());
    return it == plan.end() ? NONE : it->second;
}
} // namespace io
extern "C" {
ssize_t read(int fd, void *b, size_t n) {
    auto f = io::next(fd);
    if (io::armed && io::live.count(fd)) ++io::reads;
    if (f == io::INTERRUPTED) { errno = EINTR; return -1; }
    if (f == io::ERROR) { ++io::errors; errno = EIO; return -1; }
    if (f == io::ONE_BYTE && n > 1) n = 1;
    if (f == io::HALF && n > 1) n = (n + 1) / 2;
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    auto f = io::next(fd);
    if (io::armed && io::live.count(fd)) ++io::writes;
    if (f == io::INTERRUPTED) { errno = EINTR; return -1; }
    if (f == io::ERROR) { ++io::errors; errno = ENOSPC; return -1; }
    if (f == io::ONE_BYTE && n > 1) n = 1;
    if (f == io::HALF && n > 1) n = (n + 1) / 2;
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
    auto f = io::next(fd);
    if (f == io::NONE) {
        if (io::armed && io::live.count(fd)) ++io::writes;
        return syscall(SYS_writev, fd, v, cnt);
    }
    if (f == io::INTERRUPTED || f == io::ERROR) return write(fd, nullptr, 0);
    std::string all;
    for (int i = 0; i < cnt; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    return write(fd, all.data(), all.size());
}
int open(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    int fd = syscall(SYS_openat, AT_FDCWD, p, flags, m);
    if (io::armed && fd >= 0) io::live.insert(fd);
    return fd;
}
int open64(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    int fd = syscall(SYS_openat, AT_FDCWD, p, flags, m);
    if (io::armed && fd >= 0) io::live.insert(fd);
    return fd;
}
int dup(int fd) {
    int r = syscall(SYS_dup, fd);
    if (io::armed && r >= 0) io::live.insert(r);
    return r;
}
int close(int fd) {
    int r = syscall(SYS_close, fd);
    if (io::armed) { if (r != 0) ++io::bad_close; io::live.erase(fd); }
    return r;
}
}

namespace {
std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
void spew(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); }
bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }

// ---------------------------------------------------------------- hits
hit base_hit(int i = 0) {
    hit h{};
    h.start_freq_index = 123456 + i; h.start_freq_MHz = 8421.386717353016 + i * 1e-9; h.start_time_sec = 59752.123456 * 86400 + 300.25 * i; h.duration_sec = 292.057776128;
    h.rate_index = -37 + i; h.drift_rate_Hz_per_sec = -0.382134513123 + 0.01 * i; h.power = 3.53e9; h.time_span_steps = 16; h.snr = 25.5f + i; h.bandwidth = 8.3819f;
    h.binwidth = 3; h.coarse_channel_number = 7 + i;
    return h;
}
const int NFIELDS = 12;
int n_values(int field) { static const int n[NFIELDS] = {2, 4, 3, 3, 3, 3, 3, 2, 3, 2, 3, 3}; return n[field]; }
const char *field_name(int f) { static const char *n[] = {"start_freq_index", "start_freq_MHz", "start_time_sec", "duration_sec", "rate_index", "drift_rate", "power", "time_span_steps", "snr", "bandwidth", "binwidth", "coarse_channel_number"}; return n[f]; }
void set_field(hit &h, int f, int v) {
    switch (f) {
    case 0: h.start_freq_index = v ? 2147483647 : 0; break;
    case 1: h.start_freq_MHz = std::vector<double>{0.0, 1e-3, 1420.4057517667, std::nextafter(8421.386717353016, 1e9)}[v]; break;
    case 2: h.start_time_sec = std::vector<double>{0.0, 4.25, 60000.0 * 86400 + 17.3}[v]; break;
    case 3: h.duration_sec = std::vector<double>{0.0, 17.0, 18.253611008}[v]; break;
    case 4: h.rate_index = std::vector<int64_t>{0, 499, -100000}[v]; break;
    case 5: h.drift_rate_Hz_per_sec = std::vector<double>{0.0, 12.3456789012345, -1e-9}[v]; break;
    case 6: h.power = std::vector<double>{0.0, 1e-3, 1.234567890123e20}[v]; break;
    case 7: h.time_span_steps = v ? 279 : 1; break;
    case 8: h.snr = std::vector<float>{0.0f, 1e8f, std::numeric_limits<float>::infinity()}[v]; break;
    case 9: h.bandwidth = v ? 300.25f : 0.0f; break;
    case 10: h.binwidth = std::vector<int64_t>{0, 1, 2047}[v]; break;
    case 11: h.coarse_channel_number = std::vector<int64_t>{0, 63, 511}[v]; break;
    }
}
// the text of a hit as it must come back: fields the schema carries in single precision are rounded to it
std::string norm(const hit &h) {
    std::ostringstream o;
    o.precision(17);
    o << "{idx=" << h.start_freq_index << " f=" << h.start_freq_MHz << " t=" << h.start_time_sec << " dur=" << (float)h.duration_sec << " ri=" << h.rate_index << " dr=" << h.drift_rate_Hz_per_sec
      << " p=" << (float)h.power << " steps=" << h.time_span_steps << " snr=" << h.snr << " bw=" << h.bandwidth << " bin=" << h.binwidth << " cc=" << h.coarse_channel_number << "}";
    return o.str();
}
template <typename C> std::string norm_hits(const C &hs) { std::string s = mc::str(hs.size()) + " hits:"; for (auto &h : hs) s += norm(h); return s; }
std::string norm_cc(coarse_channel &cc, bool number = true) {
    std::ostringstream o;
    o.precision(17);
    o << "channel(";
    if (number) o << "n=" << cc._coarse_channel_number;
    o << " fch1=" << cc.fch1() << " foff=" << cc.foff() << " nchans=" << cc.nchans() << " nt=" << cc.ntsteps() << " src=" << cc.source_name() << " dej=" << cc.src_dej() << " raj=" << cc.src_raj()
      << " tel=" << cc.telescope_id() << " tsamp=" << cc.tsamp() << " tstart=" << cc.tstart() << " " << norm_hits(cc.hits()) << ")";
    return o.str();
}
std::string norm_scan(scan &s) {
    std::ostringstream o;
    o.precision(17);
    o << "scan(fch1=" << s.fch1() << " foff=" << s.foff() << " nchans=" << s.nchans() << " nt=" << s.ntsteps() << " dur=" << s.tduration_secs() << " src=" << s.source_name() << " dej=" << s.src_dej() << " raj=" << s.src_raj()
      << " tel=" << s.telescope_id() << " tsamp=" << s.tsamp() << " tstart=" << s.tstart() << " ncoarse=" << s.get_number_coarse_channels();
    for (int k = 0; k < s.get_number_coarse_channels(); ++k) { auto cc = s.read_coarse_channel(k); o << " " << norm_cc(*cc); }
    o << ")";
    return o.str();
}
std::string norm_obs(observation_target &t) { std::string s = "target " + t._target_name + "["; for (auto &x : t._scans) s += norm_scan(x); return s + "]"; }
std::string norm_cad(cadence &c) { std::string s = "cadence<"; for (auto &x : c._observations) s += norm_obs(x); return s + ">"; }

// first place where two texts differ, with context
std::string diff(const std::string &got, const std::string &want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t b = want.rfind(' ', i);
    b = b == std::string::npos ? (i > 20 ? i - 20 : 0) : b;
    return "read back '..." + got.substr(std::min(b, got.size()), 60) + "', written '..." + want.substr(b, 60) + "'";
}
std::string diff_field(const std::string &got, const std::string &want) {   // name of the field that differs
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t b = want.find_last_of(" {(", std::min(i, want.size() - 1));
    size_t e = want.find('=', b == std::string::npos ? 0 : b);
    if (b == std::string::npos || e == std::string::npos || e > b + 12 || e >= i + 12) return "structure";
    return want.substr(b + 1, e - b - 1);
}

std::string path(const std::string &n) { return mc::scratch() + "/" + n; }

// ---------------------------------------------------------------- R01
// one list of hits: every field combination up to `bound` departures from a base hit
void roundtrip_hits(Ctx &c) {
    bool as_vector = c.flip("container");
    int n = c.choose(4, "hits");
    std::vector<hit> hs;
    for (int i = 0; i < n; ++i) hs.push_back(base_hit(i));
    int left = mc::thorough() ? 3 : 2;
    int from = 0;
    std::string what;
    while (n && left--) {
        int k = c.choose(n * NFIELDS - from + 1, "change a field");
        if (!k) break;
        from += k - 1;
        int i = from / NFIELDS, f = from % NFIELDS;
        int v = c.choose(n_values(f), "value");
        set_field(hs[i], f, v);
        if (c.verbose) c.note("hit " + mc::str(i) + ": " + field_name(f) + " value #" + mc::str(v));
        if (++from >= n * NFIELDS) break;
    }
    c.step();
    auto p = path("hits.capnp");
    if (as_vector) bliss::write_hits_to_capnp_file(hs, p);
    else bliss::write_hits_to_capnp_file(std::list<hit>(hs.begin(), hs.end()), p);
    auto got = norm_hits(bliss::read_hits_from_capnp_file(p)), want = norm_hits(hs);
    MC_CHECK(c, got == want, "hits-" + diff_field(got, want), diff(got, want));
    if (n) {   // the pickled state of a hit
        hit r{};
        for (auto &h : hs) { r = hit{}; r.set_state(h.get_state()); MC_CHECK(c, r == h && r.coarse_channel_number == h.coarse_channel_number, "hit-state", "set_state(get_state(h)) is " + norm(r) + ", h is " + norm(h)); }
    }
    c.outcome(mc::hash_str(want));
}
// comparison of hits: equality and order agree with each other and see every field
void hit_order(Ctx &c) {
    hit a = base_hit(), b = base_hit();
    for (int k = 0; k < 2; ++k) {
        hit &h = k ? b : a;
        int d = c.choose(NFIELDS + 1, "field");
        if (d) set_field(h, d - 1, c.choose(n_values(d - 1), "value"));
        if (c.flip("flag counts")) h.rfi_counts[bliss::flag_values::sigma_clip] = 1 + k;
    }
    c.step();
    bool rf = a.rfi_counts == b.rfi_counts;
    auto exact = [](const hit &h) { std::ostringstream o; o.precision(17); o << norm(h) << h.power << " " << h.duration_sec; return o.str(); };
    bool same = exact(a) == exact(b) && rf;
    MC_CHECK(c, (a == b) == same, "hit-equality", std::string("== says ") + ((a == b) ? "equal" : "different") + " for " + norm(a) + " and " + norm(b));
    int lt = a < b, gt = b < a;
    MC_CHECK(c, lt + gt + (a == b) == 1, "hit-order", "exactly one of a<b, b<a, a==b must hold: " + mc::str(lt) + mc::str(gt) + mc::str((int)(a == b)) + " for " + norm(a) + " and " + norm(b));
}
std::vector<CC> channels(int n, int64_t fpc, int variant) {
    std::vector<CC> v;
    for (int k = 0; k < n; ++k) {
        CC x; x.T = variant == 1 ? 1 : 3; x.N = fpc; x.fch1 = (variant == 2 ? 8421.386717353016 : 1024.0) - 0.25 * fpc * k; x.tsamp = variant == 2 ? 18.253611008 : 2.0;
        x.tstart = variant == 2 ? 58849.789351851855 : 60000.5; x.number = k; x.source = variant == 3 ? "" : variant == 2 ? "HIP 12345 (\xc3\xa9)" : "src";
        v.push_back(x);
    }
    return v;
}
std::list<hit> some_hits(int n, int salt) { std::list<hit> l; for (int i = 0; i < n; ++i) l.push_back(base_hit(10 * salt + i)); return l; }
scan scan_with_hits(int n, int64_t fpc, int variant, const std::vector<int> &nh, int salt) {
    auto cs = channels(n, fpc, variant);
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int k = 0; k < n; ++k) {
        auto cc = make_cc(cs[k]);
        cc.set_hits(some_hits(nh[k], salt + k));
        m[k] = std::make_shared<coarse_channel>(cc);
    }
    return scan(m);
}
void roundtrip_channel(Ctx &c) {
    int variant = c.choose(4, "metadata");
    auto cs = channels(c.choose(2, "number") * 3 + 1, 4, variant);
    auto cc = make_cc(cs.back());
    int n = c.choose(4, "hits");
    bool deferred = c.flip("deferred hits");
    if (deferred) cc.set_hits(std::function<std::list<hit>()>([n] { return some_hits(n, 3); })); else cc.set_hits(some_hits(n, 3));
    c.step();
    bliss::write_coarse_channel_hits_to_capnp_file(cc, path("cc.capnp"));
    auto r = bliss::read_coarse_channel_hits_from_capnp_file(path("cc.capnp"));
    auto got = norm_cc(r), want = norm_cc(cc);
    MC_CHECK(c, got == want, "channel-" + diff_field(got, want), diff(got, want));
    c.outcome(mc::hash_str(want));
}
// scans, targets and cadences of every small shape
void roundtrip_tree(Ctx &c) {
    int level = c.choose(3, "scan/target/cadence");
    int variant = c.choose(4, "metadata");
    auto mk = [&](int salt) {
        int n = 1 + c.choose(level == 0 ? 3 : 2, "channels");
        std::vector<int> nh;
        for (int k = 0; k < n; ++k) nh.push_back(c.choose(level == 2 ? 2 : 3, "hits"));
        return scan_with_hits(n, 4, variant, nh, salt);
    };
    std::string got, want, p = path("tree.capnp");
    if (level == 0) {
        auto s = mk(0);
        bliss::write_scan_hits_to_capnp_file(s, p);
        auto r = bliss::read_scan_hits_from_capnp_file(p);
        got = norm_scan(r); want = norm_scan(s);
    } else if (level == 1) {
        std::vector<scan> l;
        int n = c.choose(3, "scans");
        for (int i = 0; i < n; ++i) l.push_back(mk(2 * i));
        observation_target t(l);
        bliss::write_observation_target_hits_to_capnp_files(t, p);
        auto r = bliss::read_observation_target_hits_from_capnp_files(p);
        got = norm_obs(r); want = norm_obs(t);
    } else {
        cadence k;
        int nt = c.choose(3, "targets");
        for (int j = 0; j < nt; ++j) {
            std::vector<scan> l;
            int n = c.choose(nt == 2 && !mc::thorough() ? 2 : 3, "scans");
            for (int i = 0; i < n; ++i) l.push_back(mk(4 * j + 2 * i));
            k._observations.push_back(observation_target(l));
        }
        bliss::write_cadence_hits_to_capnp_files(k, p);
        auto r = bliss::read_cadence_hits_from_capnp_files(p);
        got = norm_cad(r); want = norm_cad(k);
    }
    c.step();
    MC_CHECK(c, got == want, std::string(level == 0 ? "scan-" : level == 1 ? "target-" : "cadence-") + diff_field(got, want), diff(got, want));
    c.outcome(mc::hash_str(want));
}
// scans that read their channels from a file and find their hits on demand
void roundtrip_lazy(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = 2; f.N = 8;
    scan s(cached_h5("lazy", f), 2);
    int start = c.choose(4, "first channel"), count = 1 + c.choose(4 - start, "count");
    bool sliced = c.flip("slice");
    if (!sliced) c.assume(start == 0 && count == 4);
    unsigned empty = c.choose(16, "channels without hits");
    s.add_coarse_channel_transform([empty](coarse_channel cc) {
        auto n = cc._coarse_channel_number;
        cc.set_hits(std::function<std::list<hit>()>([n, empty] { auto l = some_hits((empty >> n) & 1 ? 0 : 1 + n % 2, n); for (auto &h : l) h.coarse_channel_number = n; return l; }));
        return cc;
    });
    if (sliced) s = s.slice_scan_channels(start, count);
    unsigned pre = c.choose(3, "touched before");     // nothing / one channel / everything
    if (pre == 1) s.read_coarse_channel(count - 1);
    if (pre == 2) s.hits();
    c.step();
    auto fmt = c.choose(3, "writer");
    auto p = path(fmt == 1 ? "lazy.dat" : "lazy.capnp");
    std::string want = norm_scan(s);
    scan fresh(cached_h5("lazy", f), 2);              // the written scan must not have been read through `want` above
    if (pre == 0) {
        fresh.add_coarse_channel_transform([empty](coarse_channel cc) {
            auto n = cc._coarse_channel_number;
            auto l = some_hits((empty >> n) & 1 ? 0 : 1 + n % 2, n);
            for (auto &h : l) h.coarse_channel_number = n;
            cc.set_hits(l);
            return cc;
        });
        if (sliced) fresh = fresh.slice_scan_channels(start, count);
    } else fresh = s;
    if (fmt == 1) {
        bliss::write_scan_hits_to_file(fresh, p);
        size_t lines = 0;
        std::istringstream is(slurp(p));
        for (std::string l; std::getline(is, l);) lines += !l.empty() && l[0] != '#';
        MC_CHECK(c, lines == s.hits().size(), "lazy-dat", mc::str(lines) + " hit lines, expected " + mc::str(s.hits().size()));
        return;
    }
    if (fmt == 2) bliss::write_scan_hits_to_file(fresh, p, "capnp"); else bliss::write_scan_hits_to_capnp_file(fresh, p);
    auto r = fmt == 2 ? bliss::read_scan_hits_from_file(p) : bliss::read_scan_hits_from_capnp_file(p);
    auto got = norm_scan(r);
    MC_CHECK(c, got == want, "lazy-" + diff_field(got, want), std::string(pre == 0 ? "scan whose channels were not read before: " : "") + diff(got, want));
    c.outcome(mc::hash_str(want));
}
void roundtrip_events(Ctx &c) {
    std::vector<event> es;
    bool changed = false;
    int n = c.choose(4, "events");
    std::string want = mc::str(n), got;
    for (int i = 0; i < n; ++i) {
        event e;
        e.hits = some_hits(c.choose(4, "hits"), i);
        if (e.hits.size() > 1 && (!changed || mc::thorough())) { changed = true; int d = c.choose(NFIELDS + 1, "field"); if (d) set_field(e.hits.back(), d - 1, c.choose(n_values(d - 1), "value")); }
        want += norm_hits(e.hits);
        es.push_back(e);
    }
    c.step();
    bliss::write_events_to_file(es, path("events.capnp"));
    auto r = bliss::read_events_from_file(path("events.capnp"));
    got = mc::str(r.size());
    for (auto &e : r) got += norm_hits(e.hits);
    MC_CHECK(c, got == want, "events-" + diff_field(got, want), diff(got, want));
    c.outcome(mc::hash_str(want));
}
// files of many tens of megabytes come back whole
void long_lists(Ctx &c) {
    int kind = c.choose(6, "file");
    int n = kind == 5 ? 360000 : mc::thorough() ? 1500000 : 960000;        // more than the 64 MB Cap'n Proto reads unless told otherwise
    bool spread = kind == 2 || kind == 3 || kind == 4 ? (mc::thorough() ? c.flip("over many channels") : kind == 4) : false;
    static const char *nm[] = {"hits", "coarse channel", "scan", "observation target", "cadence", "events"};
    MC_NOTE(c, nm[kind] + std::string(" of ") + mc::str(n) + " hits");
    auto p = path("long.capnp");
    auto many = [](int from, int count) { std::list<hit> l; for (int i = 0; i < count; ++i) { l.push_back(base_hit(i % 1000)); l.back().start_freq_index = from + i; } return l; };
    std::list<hit> got;
    auto take = [&](coarse_channel &cc) { auto l = cc.hits(); got.splice(got.end(), l); };
    auto mk = [&](int nch, int from, int each) {
        auto cs = channels(nch, 4, 0);
        std::map<int, std::shared_ptr<coarse_channel>> m;
        for (int k = 0; k < nch; ++k) { auto cc = make_cc(cs[k]); cc.set_hits(many(from + k * each, each)); m[k] = std::make_shared<coarse_channel>(cc); }
        return scan(m);
    };
    c.step(); c.state(kind * 2 + spread);
    try {
        if (kind == 0) { bliss::write_hits_to_capnp_file(many(0, n), p); got = bliss::read_hits_from_capnp_file(p); }
        if (kind == 1) { auto cc = make_cc(channels(1, 4, 0)[0]); cc.set_hits(many(0, n)); bliss::write_coarse_channel_hits_to_capnp_file(cc, p); auto r = bliss::read_coarse_channel_hits_from_capnp_file(p); take(r); }
        int ch = spread ? 20 : 1;
        auto take_scan = [&](scan &s) { for (int k = 0; k < s.get_number_coarse_channels(); ++k) take(*s.read_coarse_channel(k)); };
        if (kind == 2) { bliss::write_scan_hits_to_capnp_file(mk(ch, 0, n / ch), p); auto r = bliss::read_scan_hits_from_capnp_file(p); take_scan(r); }
        if (kind == 3 || kind == 4) {
            int ns = spread ? 2 : 1;
            std::vector<scan> l;
            for (int i = 0; i < ns; ++i) l.push_back(mk(ch, i * (n / ns), n / ns / ch));
            observation_target t(l);
            if (kind == 3) { bliss::write_observation_target_hits_to_capnp_files(t, p); auto r = bliss::read_observation_target_hits_from_capnp_files(p); for (auto &s : r._scans) take_scan(s); }
            else { cadence k; k._observations.push_back(t); bliss::write_cadence_hits_to_capnp_files(k, p); auto r = bliss::read_cadence_hits_from_capnp_files(p); for (auto &o : r._observations) for (auto &s : o._scans) take_scan(s); }
        }
        if (kind == 5) { std::vector<event> es(2); es[0].hits = many(0, n - 3); es[1].hits = many(n - 3, 3); bliss::write_events_to_file(es, p); auto r = bliss::read_events_from_file(p); for (auto &e : r) got.splice(got.end(), e.hits); }
    } catch (std::exception &e) { unlink(p.c_str()); c.fail("long-list-lost", std::string(nm[kind]) + " with " + mc::str(n) + " hits: " + std::string(e.what()).substr(0, 200)); }
    unlink(p.c_str());
    MC_CHECK(c, (int)got.size() == n, "long-list-length", std::string(nm[kind]) + ": " + mc::str(got.size()) + " of " + mc::str(n) + " hits come back");
    int i = 0;
    for (auto &h : got) { MC_CHECK(c, h.start_freq_index == i, "long-list-value", std::string(nm[kind]) + ": hit " + mc::str(i) + " has index " + mc::str(h.start_freq_index)); ++i; }
    c.outcome(kind);
}
// sequences of writes and reads over a few paths: the last complete write to a path is what is read from it
void history(Ctx &c) {
    const std::vector<std::string> ps{path("hist_a.capnp"), path("hist_b.cp")};
    for (auto &p : ps) unlink(p.c_str());
    std::map<int, std::string> model;
    int depth = mc::thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int file = c.choose(2, "file");
        int op = c.choose(6, "operation");
        // paths are handed over as views into a longer buffer (a view need not be zero terminated)
        bool view = c.flip("view");
        std::string buf = ps[file] + (view ? ".not-this" : "");
        std::string_view p(buf.data(), ps[file].size());
        c.step();
        if (op < 3) {
            auto l = some_hits(op == 0 ? 0 : op == 1 ? 1 : 3, file + 2 * d);
            MC_NOTE(c, "write " + mc::str(l.size()) + " hits to file " + mc::str(file) + (view ? " (view)" : ""));
            bliss::write_hits_to_capnp_file(l, p);
            model[file] = "H" + norm_hits(l);
        } else if (op == 3) {
            std::vector<event> e(1 + d);
            for (auto &x : e) x.hits = some_hits(2, d);
            MC_NOTE(c, "write events to file " + mc::str(file));
            bliss::write_events_to_file(e, p);
            model[file] = "E";
            for (auto &x : e) model[file] += norm_hits(x.hits);
        } else if (op == 4) {
            auto s = scan_with_hits(2, 4, 0, {1, 2}, d);
            MC_NOTE(c, "write a scan to file " + mc::str(file));
            bliss::write_scan_hits_to_file(s, p);
            model[file] = "S" + norm_scan(s);
        } else {
            auto s = scan_with_hits(1, 4, 0, {d}, d);
            auto cc = s.read_coarse_channel(0);
            bliss::write_coarse_channel_hits_to_capnp_file(*cc, p);
            model[file] = "C" + norm_cc(*cc);
        }
        for (int k = 0; k < 2; ++k) {
            bool there = exists(ps[k]);
            MC_CHECK(c, there == (model.count(k) > 0), "path", "after writing file " + mc::str(file) + ", file " + mc::str(k) + (there ? " exists" : " does not exist"));
            std::string rb = ps[k] + (view ? "x" : "");
            std::string_view rp(rb.data(), ps[k].size());
            std::string got;
            if (!there) {
                auto w = thrown([&] { bliss::read_hits_from_file(rp); });
                MC_CHECK(c, !w.empty(), "missing-file", "reading a file that does not exist succeeded");
                continue;
            }
            switch (model[k][0]) {
            case 'H': got = "H" + norm_hits(bliss::read_hits_from_file(rp, d % 2 ? "capnp" : "")); break;
            case 'E': got = "E"; for (auto &e : bliss::read_events_from_file(rp)) got += norm_hits(e.hits); break;
            case 'S': { auto s = bliss::read_scan_hits_from_file(rp, d % 2 ? "capnp" : ""); got = "S" + norm_scan(s); break; }
            default: { auto s = bliss::read_coarse_channel_hits_from_capnp_file(rp); got = "C" + norm_cc(s); }
            }
            MC_CHECK(c, got == model[k], "history-" + diff_field(got, model[k]), "file " + mc::str(k) + ": " + diff(got, model[k]));
        }
        c.state(mc::hash_str((model.count(0) ? model[0] : "") + "|" + (model.count(1) ? model[1] : "")));
    }
    for (std::string bad : {"csv", "DAT"}) {
        std::string which;
        try { bliss::read_hits_from_file(ps[0], bad); which = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { which = e.what(); }
        MC_CHECK(c, which.empty(), "unknown-format", "read_hits_from_file with format '" + bad + "': " + which + " instead of invalid_argument");
        try { bliss::read_scan_hits_from_file(ps[0], bad); which = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { which = e.what(); }
        MC_CHECK(c, which.empty(), "unknown-format", "read_scan_hits_from_file with format '" + bad + "': " + which + " instead of invalid_argument");
    }
}

// ---------------------------------------------------------------- R02
enum Kind { HITS, EVENTS, CHANNEL, SCAN, TARGET, CADENCE, DAT, NKINDS };
const char *kname(int k) { static const char *n[] = {"hits", "events", "channel", "scan", "target", "cadence", "dat"}; return n[k]; }
struct Art {
    Kind kind; int size;
    std::vector<std::string> records() const {      // independent messages, in order
        std::vector<std::string> r;
        if (kind == HITS) for (auto &h : hits()) r.push_back(norm(h));
        else if (kind == EVENTS) for (auto &e : events()) r.push_back(norm_hits(e.hits));
        else if (kind == CHANNEL) { auto x = channel(); r.push_back(norm_cc(x)); }
        else if (kind == SCAN || kind == DAT) { auto x = sc(); r.push_back(norm_scan(x)); }
        else if (kind == TARGET) { auto x = target(); r.push_back(norm_obs(x)); }
        else { auto x = cad(); r.push_back(norm_cad(x)); }
        return r;
    }
    std::list<hit> hits() const { return some_hits(size, 1); }
    std::vector<event> events() const { std::vector<event> v(size); for (int i = 0; i < size; ++i) v[i].hits = some_hits(i + 1, i); return v; }
    coarse_channel channel() const { auto cc = make_cc(channels(1, 4, 0)[0]); cc.set_hits(some_hits(size, 2)); return cc; }
    scan sc(int salt = 0) const { return scan_with_hits(2, 4, 0, {size, 1}, salt); }
    observation_target target(int salt = 0) const { std::vector<scan> l; for (int i = 0; i < size; ++i) l.push_back(sc(salt + 3 * i)); return observation_target(l); }
    cadence cad() const { cadence k; for (int i = 0; i < size; ++i) k._observations.push_back(target(i)); return k; }
    void write(const std::string &p, int records = -1) const {
        switch (kind) {
        case HITS: { auto h = hits(); if (records >= 0) h.resize(records); bliss::write_hits_to_capnp_file(h, p); break; }
        case EVENTS: { auto e = events(); if (records >= 0) e.resize(records); bliss::write_events_to_file(e, p); break; }
        case CHANNEL: bliss::write_coarse_channel_hits_to_capnp_file(channel(), p); break;
        case SCAN: bliss::write_scan_hits_to_capnp_file(sc(), p); break;
        case TARGET: bliss::write_observation_target_hits_to_capnp_files(target(), p); break;
        case CADENCE: bliss::write_cadence_hits_to_capnp_files(cad(), p); break;
        default: bliss::write_scan_hits_to_dat_file(sc(), p);
        }
    }
    std::vector<std::string> read(const std::string &p) const {
        std::vector<std::string> r;
        switch (kind) {
        case HITS: for (auto &h : bliss::read_hits_from_capnp_file(p)) r.push_back(norm(h)); break;
        case EVENTS: for (auto &e : bliss::read_events_from_file(p)) r.push_back(norm_hits(e.hits)); break;
        case CHANNEL: { auto x = bliss::read_coarse_channel_hits_from_capnp_file(p); r.push_back(norm_cc(x)); break; }
        case SCAN: { auto x = bliss::read_scan_hits_from_capnp_file(p); r.push_back(norm_scan(x)); break; }
        case TARGET: { auto x = bliss::read_observation_target_hits_from_capnp_files(p); r.push_back(norm_obs(x)); break; }
        case CADENCE: { auto x = bliss::read_cadence_hits_from_capnp_files(p); r.push_back(norm_cad(x)); break; }
        default: { auto x = bliss::read_scan_hits_from_dat_file(p); r.push_back(mc::str(x.tstart())); }
        }
        return r;
    }
    // file sizes after 0, 1, ... records
    const std::vector<size_t> &boundaries() const {
        static std::map<int, std::vector<size_t>> memo;
        auto &b = memo[kind * 16 + size];
        if (b.empty()) {
            if (kind == HITS || kind == EVENTS) for (int i = 0; i <= size; ++i) { write(path("b"), i); b.push_back(slurp(path("b")).size()); }
            else { write(path("b")); b.push_back(slurp(path("b")).size()); }
        }
        return b;
    }
    std::string bytes() const {
        static std::map<int, std::string> memo;
        auto &b = memo[kind * 16 + size];
        if (b.empty()) { write(path("b")); b = slurp(path("b")); }
        return b;
    }
};
Art pick_art(Ctx &c, int kinds) {
    Kind k = (Kind)c.choose(kinds, "kind");
    int s = c.choose(k == CADENCE ? 3 : 4, "size");
    return Art{k, s};
}
void fd_check(Ctx &c, const std::string &what) {
    for (auto i = io::live.begin(); i != io::live.end();) i = fcntl(*i, F_GETFD) < 0 ? io::live.erase(i) : std::next(i);   // stdio closes without the wrapper
    MC_CHECK(c, io::live.empty(), "descriptor-leak", what + ": " + mc::str(io::live.size()) + " file descriptor(s) left open");
    MC_CHECK(c, io::bad_close == 0, "double-close", what + ": closed a descriptor that was not open (it may belong to somebody else by then)");
}
// a file cut after any number of bytes
void truncation(Ctx &c) {
    Art a = pick_art(c, DAT);
    auto b = a.bytes();
    size_t cut = c.choose((int)b.size() + 1, "cut");
    spew(path("cut"), b.substr(0, cut));
    std::string what = std::string(kname(a.kind)) + "(" + mc::str(a.size) + ") cut after " + mc::str(cut) + " of " + mc::str(b.size()) + " bytes";
    MC_NOTE(c, what);
    c.step();
    std::vector<std::string> got;
    std::string w;
    { io::Arm arm; w = thrown([&] { got = a.read(path("cut")); }); arm.stop(); fd_check(c, what); }
    auto &bd = a.boundaries();
    auto it = std::find(bd.begin(), bd.end(), cut);
    bool stream = a.kind == HITS || a.kind == EVENTS;
    if (it == bd.end()) { MC_CHECK(c, !w.empty(), "truncation-unnoticed", what + ": reading succeeded with " + mc::str(got.size()) + " record(s) although the file ends inside a record"); return; }
    MC_CHECK(c, w.empty(), "complete-file-refused", what + ": " + w);
    auto want = a.records();
    if (stream) want.resize(it - bd.begin());
    MC_CHECK(c, got == want, "truncation-content", what + ": " + mc::str(got.size()) + " record(s) read, " + mc::str(want.size()) + " complete in the file");
}
// a damaged byte: any outcome but a memory error, a hang or a foreign exception
void corruption(Ctx &c) {
    Art a = pick_art(c, DAT);
    auto b = a.bytes();
    c.assume(!b.empty());
    size_t at = c.choose((int)b.size(), "byte");
    if (!mc::thorough() && b.size() > 600) c.assume(at % 3 == 0 || at < 64);
    int how = c.choose(mc::thorough() ? 5 : 3, "damage");
    unsigned char x = b[at];
    x = how == 0 ? x ^ 0xff : how == 1 ? x + 1 : how == 2 ? 0x7f : how == 3 ? 0x80 : x ^ 0x10;
    b[at] = x;
    spew(path("bad"), b);
    std::string what = std::string(kname(a.kind)) + "(" + mc::str(a.size) + ") byte " + mc::str(at) + " replaced";
    MC_NOTE(c, what);
    c.step();
    { io::Arm arm; auto w = thrown([&] { a.read(path("bad")); }); arm.stop(); fd_check(c, what); c.outcome(w.empty()); }
}
// short transfers, interruptions and errors at every read or write
std::map<int, io::Fault> pick_plan(Ctx &c, int calls, int bound, std::string &what) {
    std::map<int, io::Fault> plan;
    int from = 0;
    for (int k = 0; k < bound; ++k) {
        int pos = c.choose(calls + 2 * k - from + 1, "fault position");
        if (!pos) break;
        from += pos - 1;
        auto f = (io::Fault)(1 + c.choose(4, "fault"));
        static const char *n[] = {"", "1 byte", "EINTR", "error", "half"};
        plan[from] = f;
        what += " call#" + mc::str(from) + ":" + n[f];
        if (f == io::ERROR) break;
        ++from;
    }
    return plan;
}
void faults(Ctx &c) {
    bool reading = c.flip("read/write");
    Art a = pick_art(c, NKINDS);
    if (a.kind == CADENCE || a.kind == TARGET) c.assume(a.size <= 1);
    std::string what = std::string(reading ? "read " : "write ") + kname(a.kind) + "(" + mc::str(a.size) + ")";
    auto want = a.bytes();
    std::string p = path("io");
    if (reading) spew(p, want); else spew(p, std::string(7, 'x'));
    std::vector<std::string> base;
    int calls;
    {
        io::Arm arm;
        if (reading) base = a.read(p); else a.write(p);
        arm.stop();
        calls = io::calls();
        fd_check(c, what);
    }
    if (!reading) { MC_CHECK(c, slurp(p) == want, "write-differs", what + ": two writes of the same content differ"); spew(p, std::string(7, 'x')); }
    int bound = mc::thorough() ? 3 : 2;
    auto plan = pick_plan(c, calls, bound, what);
    MC_NOTE(c, what);
    c.step();
    std::vector<std::string> got;
    std::string w;
    int errs;
    {
        io::Arm arm(plan);
        w = thrown([&] { if (reading) got = a.read(p); else a.write(p); });
        arm.stop();
        errs = io::errors;
        fd_check(c, what);
    }
    if (errs) { MC_CHECK(c, !w.empty(), reading ? "read-error-unnoticed" : "write-error-unnoticed", what + ": the call returned normally"); return; }
    MC_CHECK(c, w.empty(), "partial-transfer", what + ": " + w);
    if (reading) MC_CHECK(c, got == base, "partial-read", what + ": " + mc::str(got.size()) + " record(s), expected " + mc::str(base.size()));
    else MC_CHECK(c, slurp(p) == want, "partial-write", what + ": file has " + mc::str(slurp(p).size()) + " bytes, expected " + mc::str(want.size()));
    c.outcome(mc::hash_str(what));
}
// a writer killed between any two writes, then read
void crash_points(Ctx &c) {
    Art a = pick_art(c, DAT);
    std::string p = path("crash");
    unlink(p.c_str());
    int calls;
    { io::Arm arm; a.write(p); arm.stop(); calls = io::calls(); }
    if (!calls) return;
    int k = c.choose(calls, "crash before write");
    int torn = c.choose(3, "last write torn");         // nothing of it / one byte / half reached the disk
    std::map<int, io::Fault> plan;
    if (torn) plan[k] = torn == 1 ? io::ONE_BYTE : io::HALF;
    plan[torn ? k + 1 : k] = io::ERROR;                // the process ends here: nothing after this reaches the file
    unlink(p.c_str());
    bool hit_end;
    { io::Arm arm(plan); thrown([&] { a.write(p); }); arm.stop(); hit_end = io::errors > 0; }
    c.assume(hit_end);
    std::string what = std::string(kname(a.kind)) + "(" + mc::str(a.size) + ") writer stopped at write " + mc::str(k) + (torn ? " (torn)" : "");
    MC_NOTE(c, what);
    c.step();
    std::vector<std::string> got, want = a.records();
    auto w = thrown([&] { got = a.read(p); });
    if (!w.empty()) return;
    bool prefix = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin());
    MC_CHECK(c, prefix, "crash-invented", what + ": what is read back was never written");
    auto bd = a.boundaries();
    MC_CHECK(c, std::find(bd.begin(), bd.end(), slurp(p).size()) != bd.end(), "crash-unnoticed", what + ": reading succeeded although the file ends inside a record");
}
void bad_paths(Ctx &c) {
    Art a = pick_art(c, NKINDS);
    int how = c.choose(3, "path");
    std::string p = how == 0 ? path("no-such-dir/x") : how == 1 ? mc::scratch() : path("unreadable");
    bool reading = c.flip("read");
    if (how == 2) { c.assume(reading); unlink(p.c_str()); }
    std::string what = std::string(reading ? "reading " : "writing ") + kname(a.kind) + (how == 1 ? " at a directory" : how == 2 ? " from a missing file" : " in a missing directory");
    if (a.kind == DAT && reading && how == 1) c.assume(false);
    c.step();
    io::Arm arm;
    auto w = thrown([&] { if (reading) a.read(p); else a.write(p); });
    arm.stop();
    MC_CHECK(c, !w.empty(), "bad-path", what + " succeeded");
    fd_check(c, what);
}

// ---------------------------------------------------------------- R03
const char *DAT_COLUMNS[] = {"Top_Hit_#", "Drift_Rate", "SNR", "Uncorrected_Frequency", "Corrected_Frequency", "Index", "freq_start", "freq_end", "SEFD", "SEFD_freq", "Coarse_Channel_Number", "Full_number_of_hits"};
std::vector<std::string> split(const std::string &s, char ch) { std::vector<std::string> v; std::string t; std::istringstream i(s); while (std::getline(i, t, ch)) v.push_back(t); return v; }
double num(Ctx &c, const std::string &s, const std::string &what) {
    size_t n = 0;
    double v = 0;
    std::string w = thrown([&] { v = std::stod(s, &n); });
    MC_CHECK(c, w.empty() && n == s.size(), "dat-number", what + " is not a number: '" + s + "'");
    return v;
}
void check_dat(Ctx &c, const std::string &text, scan &s, const std::list<hit> &hs, double raj, double dej) {
    std::vector<std::string> lines = split(text, '\n');
    MC_CHECK(c, !text.empty() && text.back() == '\n', "dat-end", "the file does not end with a line end");
    std::map<std::string, std::string> head;
    std::vector<std::string> data;
    bool cols = false;
    for (auto &l : lines) {
        if (l.rfind("# File ID: ", 0) == 0) head["file"] = l.substr(11);
        else if (l.rfind("# Source:", 0) == 0) head["source"] = l.substr(9);
        else if (l.rfind("# MJD: ", 0) == 0) head["mjd"] = l;
        else if (l.rfind("# DELTAT: ", 0) == 0) head["delta"] = l;
        else if (l.rfind("# Top_Hit_#", 0) == 0) {
            cols = true;
            auto names = split(l.substr(2), '\t');
            std::vector<std::string> want(std::begin(DAT_COLUMNS), std::end(DAT_COLUMNS));
            MC_CHECK(c, names == want, "dat-columns", "the column line names " + mc::str(names.size()) + " columns (" + mc::str(names) + ") but the lines have " + mc::str(want.size()));
        } else if (!l.empty() && l[0] != '#') data.push_back(l);
    }
    MC_CHECK(c, cols && head.size() == 4, "dat-header", "header lines missing");
    MC_CHECK(c, head["source"] == s.source_name(), "dat-source", "source '" + head["source"] + "'");
    std::smatch m;
    static const std::regex rmjd(R"(^# MJD: (\S+)\tRA: (\d\d)h(\d\d)m(\d\d\.\d\d\d)s\tDEC:([+-])(\d\d)d(\d\d)m(\d\d\.\d\d)s$)");
    MC_CHECK(c, std::regex_match(head["mjd"], m, rmjd), "dat-coordinates", "coordinates line '" + head["mjd"] + "' is not MJD, hours/minutes/seconds and degrees/minutes/seconds");
    MC_CHECK(c, std::stod(m[1]) == s.tstart(), "dat-mjd", "MJD " + m[1].str() + ", expected " + mc::str(s.tstart()));
    double rs = std::stod(m[4]), ds = std::stod(m[8]);
    int rm = std::stoi(m[3]), dm = std::stoi(m[7]);
    MC_CHECK(c, rm < 60 && rs < 60 && dm < 60 && ds < 60, "dat-sexagesimal-range", "minutes or seconds of 60 in '" + head["mjd"] + "' for raj=" + mc::str(raj) + " dej=" + mc::str(dej));
    double ra = std::stoi(m[2]) + rm / 60.0 + rs / 3600, de = (std::stoi(m[6]) + dm / 60.0 + ds / 3600) * (m[5] == "-" ? -1 : 1);
    MC_CHECK(c, std::fabs(ra - raj) <= 0.00051 / 3600, "dat-ra", "RA written as " + head["mjd"] + " is " + mc::str(ra) + " h, expected " + mc::str(raj));
    MC_CHECK(c, std::fabs(de - dej) <= 0.0051 / 3600, "dat-dec", "DEC written as " + head["mjd"] + " is " + mc::str(de) + " deg, expected " + mc::str(dej));
    static const std::regex rdel(R"(^# DELTAT:\s+(\S+)\tDELTAF\(Hz\):\s+(\S+) max_drift_rate: (\S+)\tobs_length:\s*(\S+)$)");
    MC_CHECK(c, std::regex_match(head["delta"], m, rdel), "dat-resolution-line", head["delta"]);
    MC_CHECK(c, std::fabs(std::stod(m[1]) - s.tsamp()) <= 5.1e-7 && std::fabs(std::stod(m[2]) - 1e6 * s.foff()) <= 5.1e-7 + 1e-12 * std::fabs(1e6 * s.foff()) &&
                std::fabs(std::stod(m[4]) - s.tsamp() * s.ntsteps()) <= 5.1e-7 + 1e-12 * s.tsamp() * s.ntsteps(), "dat-resolution", head["delta"]);
    MC_CHECK(c, data.size() == hs.size(), "dat-lines", mc::str(data.size()) + " hit lines for " + mc::str(hs.size()) + " hits");
    size_t i = 0;
    for (auto &h : hs) {
        auto f = split(data[i], '\t');
        std::string w = "line " + mc::str(i + 1) + " '" + data[i] + "'";
        MC_CHECK(c, f.size() == std::size(DAT_COLUMNS), "dat-fields", w + " has " + mc::str(f.size()) + " fields");
        double end = h.start_freq_MHz + h.duration_sec * h.drift_rate_Hz_per_sec / 1e6, mid = (end + h.start_freq_MHz) / 2;
        auto close6 = [&](int k, double v) { return std::fabs(num(c, f[k], w) - v) <= 5.1e-7 + 1e-9 * std::fabs(v); };
        auto close6abs = [&](int k, double v) { return std::fabs(num(c, f[k], w) - v) <= 5.1e-7; };
        MC_CHECK(c, num(c, f[0], w) == (double)(i + 1), "dat-number-of-hit", w);
        MC_CHECK(c, close6(1, h.drift_rate_Hz_per_sec), "dat-drift", w + ": drift rate should be " + mc::str(h.drift_rate_Hz_per_sec));
        MC_CHECK(c, (std::isinf(h.snr) && std::isinf(num(c, f[2], w))) || close6(2, h.snr), "dat-snr", w + ": snr should be " + mc::str(h.snr));
        MC_CHECK(c, close6abs(3, mid) && close6abs(4, mid), "dat-mid", w + ": mid frequency should be " + mc::str(mid));
        MC_CHECK(c, num(c, f[5], w) == (double)h.start_freq_index, "dat-index", w);
        MC_CHECK(c, close6abs(6, h.start_freq_MHz) && close6abs(7, end), "dat-freq", w + ": start and end should be " + mc::str(h.start_freq_MHz) + " " + mc::str(end));
        num(c, f[8], w); num(c, f[9], w); num(c, f[11], w);
        MC_CHECK(c, num(c, f[10], w) == (double)h.coarse_channel_number, "dat-coarse", w);
        ++i;
    }
}
void dat_hits(Ctx &c) {
    int n = c.choose(4, "hits");
    std::vector<hit> hs;
    for (int i = 0; i < n; ++i) hs.push_back(base_hit(i));
    int left = mc::thorough() ? 3 : 2, from = 0;
    while (n && left--) {
        int k = c.choose(n * NFIELDS - from + 1, "change a field");
        if (!k) break;
        from += k - 1;
        set_field(hs[from / NFIELDS], from % NFIELDS, c.choose(n_values(from % NFIELDS), "value"));
        if (++from >= n * NFIELDS) break;
    }
    auto cc = make_cc(channels(1, 4, 0)[0]);
    std::list<hit> l(hs.begin(), hs.end());
    cc.set_hits(l);
    scan s(std::map<int, std::shared_ptr<coarse_channel>>{{0, std::make_shared<coarse_channel>(cc)}});
    c.step();
    bliss::write_scan_hits_to_file(s, path("h.dat"));
    check_dat(c, slurp(path("h.dat")), s, l, 5.5, -12.25);
    c.outcome(mc::hash_str(slurp(path("h.dat"))));
}
void dat_header(Ctx &c) {
    bool coords = c.flip("coordinates/shape");
    int n = 1 + (coords && !mc::thorough() ? 0 : c.choose(3, "channels"));
    int variant = c.choose(4, "metadata");
    std::vector<int> nh;
    for (int k = 0; k < n; ++k) nh.push_back(coords && !mc::thorough() ? 1 : c.choose(3, "hits"));
    auto s = scan_with_hits(n, 4, variant, nh, 0);
    static const std::vector<double> ras{0.0, 5.5, 23.999999999, 5.999999999, 17.211236, 1.0, 12.016666666666667, 9.9999861},
        decs{0.0, -12.25, 4.693391, -0.5, 89.999999999, -29.999999999, -0.0000001, 59.016666666666667, -1.0};
    double raj = coords ? c.pick(ras, "ra") : 5.5, dej = coords ? c.pick(decs, "dec") : -12.25;
    s.set_src_raj(raj); s.set_src_dej(dej);
    c.step();
    std::list<hit> l;
    for (int k = 0; k < n; ++k) for (auto &h : some_hits(nh[k], k)) l.push_back(h);
    bliss::write_scan_hits_to_dat_file(s, path("d.dat"));
    check_dat(c, slurp(path("d.dat")), s, l, raj, dej);
    auto r = bliss::read_scan_hits_from_dat_file(path("d.dat"));
    MC_CHECK(c, r.tstart() == s.tstart() && std::fabs(r.tsamp() - s.tsamp()) < 1e-6 && std::fabs(r.foff() - s.foff()) < 1e-11, "dat-read",
             "read back tstart=" + mc::str(r.tstart()) + " tsamp=" + mc::str(r.tsamp()) + " foff=" + mc::str(r.foff()) + ", written " + mc::str(s.tstart()) + " " + mc::str(s.tsamp()) + " " + mc::str(s.foff()));
    // through a capnp file the same lines come out
    bliss::write_scan_hits_to_capnp_file(s, path("d.capnp"));
    auto via = bliss::read_scan_hits_from_capnp_file(path("d.capnp"));
    bliss::write_scan_hits_to_dat_file(via, path("d2.dat"));
    MC_CHECK(c, slurp(path("d.dat")) == slurp(path("d2.dat")), "dat-via-capnp", "exporting directly and through a capnp file differ");
}
} // namespace

MC_PROPERTY(R01) {
    mc::explore("hit-lists", roundtrip_hits);
    mc::explore("hit-order", hit_order);
    mc::explore("channels", roundtrip_channel);
    mc::explore("scans-targets-cadences", roundtrip_tree);
    mc::explore("on-demand-scans", roundtrip_lazy);
    mc::explore("events", roundtrip_events);
    mc::explore("histories", history);
    mc::explore("long-lists", long_lists);
}
MC_PROPERTY(R02) {
    mc::explore("truncation", truncation);
    mc::explore("crash-points", crash_points);
    mc::explore("io-faults", faults);
    mc::explore("damaged-bytes", corruption);
    mc::explore("bad-paths", bad_paths);
}
MC_PROPERTY(R03) {
    mc::explore("hit-lines", dat_hits);
    mc::explore("header", dat_header);
}
