// S01 channel slicing, S02 deferred pipelines, S03 consistency of groups of scans
#include "bs.hpp"
#include <deque>
using namespace bs;
using bliss::scan; using bliss::coarse_channel; using bliss::observation_target; using bliss::cadence;

namespace {
struct Model { int64_t first = 0, count = 0; double fch1 = 0; };   // window of global coarse channels

std::vector<CC> map_channels(const FileSpec &f, int64_t fpc) {
    std::vector<CC> v;
    for (int64_t k = 0; k < f.N / fpc; ++k) {
        CC c; c.T = f.T; c.N = fpc; c.fch1 = f.fch1 + f.foff * fpc * k; c.foff = f.foff; c.tsamp = f.tsamp; c.tstart = f.tstart; c.number = k; c.source = f.source;
        for (int64_t t = 0; t < f.T; ++t) for (int64_t i = 0; i < fpc; ++i) c.data.push_back(FileSpec::label(t, k * fpc + i));
        v.push_back(c);
    }
    return v;
}
void check_channel(Ctx &c, scan &s, const Model &m, int64_t k, const FileSpec &f, int64_t fpc, const std::string &what, bool peek = false) {
    auto cc = peek ? s.peak_coarse_channel((int)k) : s.read_coarse_channel((int)k);
    int64_t g = m.first + k;
    c.step();
    MC_CHECK(c, cc != nullptr, "no-channel", what);
    auto d = cc->data(); auto mk = cc->mask();
    MC_CHECK(c, d.shape() == (Shape{f.T, fpc}), "data-shape", what + ": channel data has shape " + mc::str(d.shape()));
    MC_CHECK(c, mk.shape() == d.shape() && mk.dtype() == bl::dl(bl::U8), "mask-shape", what);
    for (int64_t t = 0; t < f.T; ++t) for (int64_t i = 0; i < fpc; ++i) {
        MC_CHECK(c, bl::get(d, {t, i}) == FileSpec::label(t, g * fpc + i), "wrong-window",
                 what + ": channel " + mc::str(k) + " [" + mc::str(t) + "," + mc::str(i) + "] = " + mc::str(bl::get(d, {t, i})) + ", expected " + mc::str((double)FileSpec::label(t, g * fpc + i)));
        MC_CHECK(c, bl::get(mk, {t, i}) == 0, "mask-nonzero", what);
    }
    double e = f.fch1 + f.foff * fpc * g;
    MC_CHECK(c, bl::close(cc->fch1(), e, 1e-13, 0), "channel-fch1", what + ": channel " + mc::str(k) + " starts at " + mc::str(cc->fch1()) + " MHz, expected " + mc::str(e));
    MC_CHECK(c, cc->foff() == f.foff && cc->nchans() == fpc && cc->ntsteps() == f.T && cc->tsamp() == f.tsamp && cc->tstart() == f.tstart, "channel-meta", what);
    MC_CHECK(c, cc->source_name() == f.source && cc->src_raj() == f.raj && cc->src_dej() == f.dej && cc->telescope_id() == f.telescope && cc->machine_id() == f.machine &&
                cc->az_start() == f.az && cc->za_start() == f.za && cc->nbits() == f.nbits && cc->nifs() == f.nifs && cc->data_type() == f.data_type, "channel-meta-source", what);
    MC_CHECK(c, cc->_coarse_channel_number == g, "channel-number", what + ": channel " + mc::str(k) + " is numbered " + mc::str(cc->_coarse_channel_number) + ", expected " + mc::str(g));
}
void check_scan_meta(Ctx &c, scan &s, const Model &m, const FileSpec &f, int64_t fpc, const std::string &what) {
    MC_CHECK(c, s.get_number_coarse_channels() == m.count, "number-coarse", what + ": " + mc::str(s.get_number_coarse_channels()) + " coarse channels, expected " + mc::str(m.count));
    MC_CHECK(c, s.nchans() == m.count * fpc, "scan-nchans", what + ": nchans " + mc::str(s.nchans()));
    double e = f.fch1 + f.foff * fpc * m.first;
    MC_CHECK(c, bl::close(s.fch1(), e, 1e-13, 0), "scan-fch1", what + ": fch1 " + mc::str(s.fch1()) + ", expected " + mc::str(e));
    MC_CHECK(c, s.foff() == f.foff && s.tsamp() == f.tsamp && s.tstart() == f.tstart && s.ntsteps() == f.T && s.source_name() == f.source, "scan-meta", what);
    MC_CHECK(c, bl::close(s.tduration_secs(), f.T * f.tsamp, 1e-12, 0), "scan-duration", what);
    MC_CHECK(c, s.src_raj() == f.raj && s.src_dej() == f.dej && s.telescope_id() == f.telescope && s.machine_id() == f.machine && s.nbits() == f.nbits && s.nifs() == f.nifs &&
                s.az_start() == f.az && s.za_start() == f.za && s.data_type() == f.data_type, "scan-meta-source", what + ": source metadata of the scan differs from its channels / file");
    // every fine channel's own frequency (its middle as well) is looked up to the coarse channel that holds it
    for (int64_t i = 0; i < m.count * fpc; ++i) for (double frac : {0.0, 0.5}) {
        double fr = e + f.foff * (i + frac);
        int g = s.get_coarse_channel_with_frequency(fr);
        MC_CHECK(c, g == i / fpc, "lookup", what + ": frequency " + mc::str(fr) + " MHz of fine channel " + mc::str(i) + " is looked up to coarse channel " + mc::str(g) + ", expected " + mc::str(i / fpc));
    }
}
void slicing(Ctx &c) {
    quiet_h5();
    bool from_file = c.choose(2, "backing") == 0;
    int64_t fpc = c.pick(std::vector<int64_t>{1, 2, 3}, "fine per coarse");
    int64_t ncoarse = c.pick(std::vector<int64_t>{1, 2, 4, 5}, "coarse");
    FileSpec f; f.T = c.pick(std::vector<int64_t>{1, 3}, "T"); f.N = fpc * ncoarse;
    f.foff = c.pick(std::vector<double>{-0.25, 0.5}, "foff");
    if (from_file && f.T == 3) { f.machine = (int64_t)1 << 40; f.telescope = -((int64_t)1 << 35); f.data_type = (int64_t)1 << 33; f.nbits = ((int64_t)1 << 32) + 8; f.nifs = ((int64_t)1 << 31) + 1; f.raj = 23.999999999; f.dej = -89.999999999; f.tstart = 60000.123456789; }
    std::string what = std::string(from_file ? "file" : "map") + " T=" + mc::str(f.T) + " fpc=" + mc::str(fpc) + " coarse=" + mc::str(ncoarse) + " foff=" + mc::str(f.foff);
    scan s = from_file ? scan(cached_h5("sl_" + mc::str(f.T) + "_" + mc::str(f.N) + "_" + mc::str(f.foff), f), (int)fpc) : make_scan(map_channels(f, fpc));
    Model m{0, ncoarse, f.fch1};
    MC_NOTE(c, what);
    int depth = mc::thorough() ? 3 : 2;
    bool read_first = c.flip("read before slicing");
    if (read_first) for (int64_t k = 0; k < m.count; ++k) check_channel(c, s, m, k, f, fpc, what);
    for (int d = 0; d < depth; ++d) {
        check_scan_meta(c, s, m, f, fpc, what);
        c.state(mc::hash_str(what) + m.first * 64 + m.count + read_first * 4096);
        int op = c.choose(2, "stop/slice");
        if (!op) break;
        int64_t start = c.choose((int)m.count, "start");
        int64_t count = c.choose((int)(m.count - start) + 1, "count");     // 0: to the end (-1)
        what += " -> slice(" + mc::str(start) + "," + mc::str(count ? count : -1) + ")";
        MC_NOTE(c, what);
        scan before = s;
        Model bm = m;
        s = s.slice_scan_channels(start, count ? count : -1);
        m.first += start; m.count = count ? count : m.count - start;
        check_scan_meta(c, before, bm, f, fpc, what + " (original)");
    }
    check_scan_meta(c, s, m, f, fpc, what);
    for (int64_t k = 0; k < m.count; ++k) check_channel(c, s, m, k, f, fpc, what);
    for (int64_t k = 0; k < m.count; ++k) check_channel(c, s, m, k, f, fpc, what + " (again)");
    for (int64_t k = 0; k < m.count; ++k) check_channel(c, s, m, k, f, fpc, what + " (looked at again)", true);
    for (int64_t k : {(int64_t)-1, m.count, m.count + 1}) {
        c.step();
        bool t = !thrown([&] { (void)s.read_coarse_channel((int)k)->data(); }).empty();
        MC_CHECK(c, t, "invalid-index", what + ": reading coarse channel " + mc::str(k) + " of " + mc::str(m.count) + " is not rejected");
        t = !thrown([&] { (void)s.peak_coarse_channel((int)k); }).empty();
        MC_CHECK(c, t, "invalid-index-peak", what + ": peaking coarse channel " + mc::str(k) + " of " + mc::str(m.count) + " is not rejected");
    }
    c.outcome(m.first * 100 + m.count);
}
// bands of hundreds of coarse channels
void many(Ctx &c) {
    quiet_h5();
    bool from_file = c.choose(2, "backing") == 0;
    FileSpec f; f.T = 2; int64_t fpc = c.pick(std::vector<int64_t>{1, 3}, "fine per coarse"), n = 600; f.N = fpc * n; f.fch1 = 8421.375; f.foff = (c.flip("up") ? 3 : -3) * std::ldexp(1.0, -20);
    std::string what = std::string(from_file ? "file" : "map") + " of 600 coarse channels of " + mc::str(fpc) + ", foff " + mc::str(f.foff);
    scan s = from_file ? scan(cached_h5("many" + mc::str(fpc) + mc::str(f.foff), f), (int)fpc) : make_scan(map_channels(f, fpc));
    Model m{0, n, f.fch1};
    MC_NOTE(c, what);
    for (int d = 0; d < (mc::thorough() ? 3 : 2); ++d) {
        auto fits = [&](std::vector<int64_t> v, int64_t lim) { std::vector<int64_t> o; for (auto x : v) if (x < lim && std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x); return o; };
        int64_t start = c.pick(fits({0, 1, 127, 128, 255, 256, 257, 300, m.count - 1}, m.count), "start");
        int64_t count = c.pick(fits({0, 1, 128, 255, 256, 257, m.count - start}, m.count - start + 1), "count");
        what += " -> slice(" + mc::str(start) + "," + mc::str(count ? count : -1) + ")";
        MC_NOTE(c, what);
        s = s.slice_scan_channels(start, count ? count : -1);
        m.first += start; m.count = count ? count : m.count - start;
        if (count == 0 || m.count < 2) break;
    }
    c.state(mc::hash_str(what)); c.outcome(m.first * 1000 + m.count);
    check_scan_meta(c, s, m, f, fpc, what);
    for (int64_t k : {(int64_t)0, (int64_t)1, (int64_t)127, (int64_t)128, (int64_t)255, (int64_t)256, (int64_t)257, m.count - 1}) if (k >= 0 && k < m.count) check_channel(c, s, m, k, f, fpc, what);
    MC_CHECK(c, !thrown([&] { (void)s.read_coarse_channel((int)m.count)->data(); }).empty(), "invalid-index", what + ": one channel too many is read");
}
void bad_slices(Ctx &c) {
    quiet_h5();
    bool from_file = c.choose(2, "backing") == 0;
    FileSpec f; f.N = 8;
    scan s = from_file ? scan(cached_h5("bs", f), 2) : make_scan(map_channels(f, 2));
    int64_t start = c.choose(8, "start") - 2, count = c.choose(7, "count");
    if (count == 0) count = -1;
    int64_t n = 4;
    bool valid = start >= 0 && start < n && (count == -1 || start + count <= n);
    c.step(); c.state(start * 100 + count * 2 + from_file);
    std::string w = "slice(" + mc::str(start) + "," + mc::str(count) + ") of 4 coarse channels";
    MC_NOTE(c, w);
    std::string err;
    scan r;
    err = thrown([&] { r = s.slice_scan_channels(start, count); });
    if (valid) MC_CHECK(c, err.empty(), "valid-slice-rejected", w + ": " + err);
    else if (err.empty() && !(start == n && count == -1 && r.get_number_coarse_channels() == 0)) {   // (an empty slice at the end is harmless)
        // must at least never hand out data of a channel that is not there
        MC_CHECK(c, false, "invalid-slice-accepted", w + " is accepted: " + mc::str(r.get_number_coarse_channels()) + " channels, fch1 " + mc::str(r.fch1()));
    }
    c.outcome(err.empty());
}
// every setter changes its own attribute and nothing else, also of a copy or slice
std::vector<std::string> attributes(scan &s) {
    return {mc::str(s.fch1()), mc::str(s.foff()), mc::str(s.machine_id()), mc::str(s.nbits()), mc::str(s.nchans()), mc::str(s.nifs()), s.source_name(), mc::str(s.src_dej()), mc::str(s.src_raj()), mc::str(s.telescope_id()),
            mc::str(s.tsamp()), mc::str(s.tstart()), mc::str(s.data_type()), mc::str(s.az_start()), mc::str(s.za_start()), mc::str(s.ntsteps()), mc::str(s.tduration_secs()), mc::str(s.get_number_coarse_channels())};
}
void setters(Ctx &c) {
    quiet_h5();
    static const std::vector<std::string> names{"fch1", "foff", "machine_id", "nbits", "nchans", "nifs", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "data_type", "az_start", "za_start"};
    bool from_file = c.choose(2, "backing") == 0;
    FileSpec f; f.N = 8;
    scan s = from_file ? scan(cached_h5("set", f), 2) : make_scan(map_channels(f, 2));
    int kind = c.choose(3, "kind");                        // itself, a copy, a slice
    scan other = s;
    if (kind == 1) s = other; else if (kind == 2) s = other.slice_scan_channels(0, 4);
    auto model = attributes(s), rest = attributes(other);
    std::string w = std::string(from_file ? "file" : "map") + (kind == 0 ? "" : kind == 1 ? " copy" : " slice");
    for (int d = 0; d < 2; ++d) {
        int a = c.choose((int)names.size(), "attribute"); int big = c.choose(2, "value");
        int64_t i = big ? (int64_t)4294967296 + a : 3 + a; double x = big ? -1234.5 - a : 0.125 + a;
        w += " set " + names[a]; MC_NOTE(c, w);
        switch (a) {
        case 0: s.set_fch1(x); break; case 1: s.set_foff(x); break; case 2: s.set_machine_id(i); break; case 3: s.set_nbits(i); break; case 4: s.set_nchans(i); break; case 5: s.set_nifs(i); break;
        case 6: s.set_source_name("name" + mc::str(i)); break; case 7: s.set_src_dej(x); break; case 8: s.set_src_raj(x); break; case 9: s.set_telescope_id(i); break; case 10: s.set_tsamp(x); break;
        case 11: s.set_tstart(x); break; case 12: s.set_data_type(i); break; case 13: s.set_az_start(x); break; default: s.set_za_start(x); break;
        }
        bool integer = a == 2 || a == 3 || a == 4 || a == 5 || a == 9 || a == 12;
        model[a] = a == 6 ? "name" + mc::str(i) : integer ? mc::str(i) : mc::str(x);
        c.step(); c.state(mc::hash_str(w));
        auto got = attributes(s);
        MC_CHECK(c, got == model, "setter", w + ": attributes are " + mc::str(got) + ", expected " + mc::str(model));
        MC_CHECK(c, attributes(other) == rest, "setter-elsewhere", w + ": the scan it was copied from changed to " + mc::str(attributes(other)));
    }
    c.outcome(mc::hash_str(w));
}
// scans of channels in memory which do not have every channel: an error (or the right channels), never another outcome
void gaps(Ctx &c) {
    FileSpec f; f.N = 8;
    auto specs = map_channels(f, 2);
    int have = c.choose(16, "channels"), null = c.choose(5, "null") - 1;
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (int k = 0; k < 4; ++k) if (have >> k & 1) m[k] = k == null ? nullptr : std::make_shared<coarse_channel>(make_cc(specs[k]));
    if (null >= 0 && !(have >> null & 1)) throw mc::Skip{};
    std::string w = "scan of the channels " + mc::str(have) + " (bits)" + (null >= 0 ? ", channel " + mc::str(null) + " being null" : "");
    MC_NOTE(c, w); c.step(); c.state(have * 8 + null + 1);
    scan s;
    std::string e = thrown([&] { s = scan(m); });
    c.outcome(e.empty());
    bool whole = null < 0 && have && (have & (have + 1)) == 0;
    if (whole) MC_CHECK(c, e.empty(), "whole-rejected", w + ": " + e);
    if (!e.empty()) return;
    int n = s.get_number_coarse_channels();
    for (int k = 0; k < n; ++k) for (int way = 0; way < 3; ++way) {
        c.step();
        std::shared_ptr<coarse_channel> cc;
        std::string r = thrown([&] { if (way == 2) { (void)s.hits(); return; } cc = way ? s.peak_coarse_channel(k) : s.read_coarse_channel(k); });
        if (whole) MC_CHECK(c, r.empty(), "channel-rejected", w + ": channel " + mc::str(k) + ": " + r);
        if (way == 2 || !r.empty()) continue;
        if (!cc) { MC_CHECK(c, way == 1 && !(have >> k & 1), "no-channel", w + ": channel " + mc::str(k) + " is null"); continue; }
        MC_CHECK(c, cc->_coarse_channel_number == k && bl::get(cc->data(), {0, 0}) == FileSpec::label(0, 2 * k), "wrong-channel", w + ": channel " + mc::str(k) + " is another one");
    }
}
// a scan, observation or cadence of nothing has no channels and no hits, whatever the memory it is built in held before
void nothing(Ctx &c) {
    int fill = c.pick(std::vector<int>{0, 1, 0x40, 0x7f, 0xff}, "memory"), how = c.choose(4, "use"), start = c.choose(3, "index") - 1, kind = c.choose(3, "kind");
    std::string w = std::string(kind == 0 ? "scan" : kind == 1 ? "observation" : "cadence") + " of nothing in memory of " + mc::str(fill) + ", use " + mc::str(how) + " at " + mc::str(start);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    auto in = [&](auto *type, auto f) {
        using X = std::remove_pointer_t<decltype(type)>;
        std::vector<char> raw(sizeof(X) + alignof(X), (char)fill);
        void *p = raw.data(); size_t room = raw.size(); p = std::align(alignof(X), sizeof(X), p, room);
        auto *x = new (p) X; struct End { X *x; ~End() { x->~X(); } } end{x};
        f(*x);
    };
    std::string e; int64_t n = 0; size_t hits = 0;
    if (kind == 0) in((scan *)nullptr, [&](scan &s) {
        if (how == 0) e = thrown([&] { n = s.get_number_coarse_channels(); });
        else if (how == 1) e = thrown([&] { hits = n == s.get_number_coarse_channels() ? s.hits().size() : 1; });
        else if (how == 2) e = thrown([&] { (void)s.read_coarse_channel(start); });
        else e = thrown([&] { auto t = s.slice_scan_channels(start, 1); });
    });
    else if (kind == 1) in((observation_target *)nullptr, [&](observation_target &o) {
        if (how == 0) { MC_CHECK(c, !thrown([&] { (void)o.get_number_coarse_channels(); }).empty(), "nothing", w); n = o._scans.size(); }
        else if (how == 1) { auto t = o.slice_observation_channels(0, 1); hits = t._scans.size(); }
        else e = "not asked";
    });
    else in((cadence *)nullptr, [&](cadence &o) {
        if (how == 0) { MC_CHECK(c, !thrown([&] { (void)o.get_number_coarse_channels(); }).empty(), "nothing", w); n = o._observations.size(); }
        else if (how == 1) { auto t = o.slice_cadence_channels(0, 1); hits = t._observations.size(); }
        else e = "not asked";
    });
    MC_CHECK(c, e.empty() == (how < 2) && n == 0 && hits == 0, "nothing", w + ": " + mc::str(n) + " channels, " + mc::str(hits) + " hits, " + (e.empty() ? "no error" : e));
    c.outcome(how);
}
// channelization inference: any total number of fine channels; product covers the file and never crashes
void inference(Ctx &c) {
    quiet_h5();
    static const std::vector<int64_t> totals = {1, 2, 7, 8, 16, 24, 512, 1000, 1024, 2048, 4096, 65536, 262143, 262144, 262145, 262146, 524288, 524289, 786432, 999424, 1000000, 1033216, 1048576, 1048577, 2000000, 2000001, 2097152};
    int64_t n = c.pick(totals, "fine channels");
    static const std::vector<std::pair<double, double>> res = {{2.7939677238464355e-06, 18.253611008}, {0.00286102294921875, 1.06}, {0.3662109375, 0.00034953}, {2.93e-6, 17.4}, {2.84e-6, 17.98}, {1e-6, 1.0}, {0.00286102294921875, 1.02}, {0.0028610229, 1.07}};
    auto r = c.pick(res, "resolution");
    int sign = c.flip("sign") ? 1 : -1;
    FileSpec f; f.T = 1; f.N = n; f.foff = sign * r.first; f.tsamp = r.second; f.chunk = {1, 1, (hsize_t)std::min<int64_t>(n, 1 << 16)};
    f.data.clear();
    // sparse file: write only a tiny dataset and patch the attribute instead of a full-size one
    std::string path = mc::scratch() + "/inf.h5";
    {
        FileSpec g = f; g.data_store = H5::PredType::NATIVE_FLOAT;
        H5::H5File file(path, H5F_ACC_TRUNC);
        hsize_t dims[3] = {1, 1, (hsize_t)n};
        H5::DSetCreatPropList pl; pl.setChunk(3, g.chunk.data());
        auto ds = file.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(3, dims), pl);
        H5::StrType vs(H5::PredType::C_S1, H5T_VARIABLE);
        const char *l[3] = {"time", "feed_id", "frequency"}; hsize_t three = 3;
        ds.createAttribute("DIMENSION_LABELS", vs, H5::DataSpace(1, &three)).write(vs, l);
        for (auto kv : std::vector<std::pair<const char *, double>>{{"fch1", 8000.0}, {"foff", f.foff}, {"tsamp", f.tsamp}, {"tstart", 1.0}, {"src_raj", 1}, {"src_dej", 1}}) put_float(ds, kv.first, H5::PredType::NATIVE_DOUBLE, kv.second);
        for (auto kv : std::vector<std::pair<const char *, int64_t>>{{"telescope_id", 1}, {"nchans", n}, {"nifs", 1}, {"nbits", 32}}) put_int(ds, kv.first, H5::PredType::NATIVE_INT64, kv.second);
        const char *p = "x"; ds.createAttribute("source_name", vs, H5::DataSpace()).write(vs, &p);
    }
    std::string w = mc::str(n) + " fine channels, foff " + mc::str(f.foff) + " MHz, tsamp " + mc::str(f.tsamp);
    MC_NOTE(c, w);
    c.step(); c.state(mc::hash_str(w));
    scan s(path, 0);
    int64_t k = s.get_number_coarse_channels();
    c.outcome(k);
    MC_CHECK(c, k >= 1, "no-coarse", w + ": " + mc::str(k) + " coarse channels");
    MC_CHECK(c, n % k == 0, "uneven", w + ": " + mc::str(k) + " coarse channels do not divide the file evenly");
    auto cc = s.read_coarse_channel((int)k - 1);
    MC_CHECK(c, cc->nchans() * k == n, "not-covering", w + ": " + mc::str(k) + " channels of " + mc::str(cc->nchans()) + " do not cover the file");
    MC_CHECK(c, s.nchans() == n, "nchans", w);
    // documented channelizations are recognised, and other bands are cut into about 2^18 or 1000000 channels where that divides them
    struct Known { int64_t fine; double hz, t; };
    int64_t want = 0;
    for (auto kn : std::vector<Known>{{1033216, 2.84, 17.98}, {8, 366210.9375, 0.00034953}, {1024, 2861.02294921875, 1.06}, {999424, 2.93, 17.4}, {1024, 2861.02294921875, 1.02}, {1048576, 2.79, 18.25}, {1024, 2861.02294921875, 1.07}})
        if (!want && n % kn.fine == 0 && std::fabs(r.first * 1e6 - kn.hz) < 0.01 && std::fabs(r.second - kn.t) < 0.01) want = kn.fine;
    bool known = want != 0;
    for (int64_t size : {(int64_t)1 << 18, (int64_t)1000000}) if (!want && n >= size && n % (n / size) == 0) want = n / (n / size);
    if (!want) want = n;
    MC_CHECK(c, cc->nchans() == want, known ? "known-channelization" : "other-channelization", w + ": expected " + mc::str(want) + " fine channels per coarse, got " + mc::str(cc->nchans()));
}

// every way to make a channel: what it was given is what it has, and what it was not given cannot be read
void construction(Ctx &c) {
    using opt_i = std::optional<int64_t>; using opt_d = std::optional<double>;
    int form = c.choose(5, "form");                  // arrays, functions (given or optional attributes), nothing (given or optional attributes)
    bool optional = form == 2 || form == 4, has_data = form < 3, numbered = c.flip("numbered");
    bool has[7]; for (int i = 0; i < 7; ++i) has[i] = !optional || c.flip("attribute given");
    int runs = 0;
    std::vector<double> v{1, 2, 3, 4, 5, 6}, mk{0, 1, 0, 2, 0, 4};
    auto d = bl::make({2, 3}, bl::F32, v), m = bl::make({2, 3}, bl::U8, mk);
    std::function<bland::ndarray()> fd = [&] { ++runs; return d; }, fm = [&] { ++runs; return m; };
    opt_i machine = has[0] ? opt_i(17) : opt_i(), nbits = has[1] ? opt_i(8) : opt_i(), tel = has[2] ? opt_i(6) : opt_i();
    opt_d dej = has[3] ? opt_d(-12.25) : opt_d(), raj = has[4] ? opt_d(5.5) : opt_d(), az = has[5] ? opt_d(33.5) : opt_d(), za = has[6] ? opt_d(44.25) : opt_d();
    auto make = [&](int64_t number) {
        if (form == 0) return coarse_channel(d, m, 1024.5, -0.25, (int64_t)17, (int64_t)8, (int64_t)3, (int64_t)2, (int64_t)1, "src", -12.25, 5.5, (int64_t)6, 2.0, 60000.5, (int64_t)9, 33.5, 44.25, number);
        if (form == 1) return coarse_channel(fd, fm, 1024.5, -0.25, (int64_t)17, (int64_t)8, (int64_t)3, (int64_t)2, (int64_t)1, "src", -12.25, 5.5, (int64_t)6, 2.0, 60000.5, (int64_t)9, 33.5, 44.25, number);
        if (form == 2) return coarse_channel(fd, fm, 1024.5, -0.25, machine, nbits, (int64_t)3, (int64_t)2, (int64_t)1, "src", dej, raj, tel, 2.0, 60000.5, (int64_t)9, az, za, number);
        if (form == 3) return coarse_channel(1024.5, -0.25, (int64_t)17, (int64_t)8, (int64_t)3, (int64_t)2, (int64_t)1, "src", -12.25, 5.5, (int64_t)6, 2.0, 60000.5, (int64_t)9, 33.5, 44.25, number);
        return coarse_channel(1024.5, -0.25, machine, nbits, (int64_t)3, (int64_t)2, (int64_t)1, "src", dej, raj, tel, 2.0, 60000.5, (int64_t)9, az, za, number);
    };
    static const char *names[] = {"arrays", "functions", "functions, optional attributes", "no samples", "no samples, optional attributes"};
    std::string w = std::string("channel of ") + names[form]; for (bool h : has) w += h ? "1" : "0";
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w) + numbered);
    auto cc = make(numbered ? 5 : 0);
    if (c.flip("copied")) { auto other = cc; cc = other; }
    MC_CHECK(c, cc.fch1() == 1024.5 && cc.foff() == -0.25 && cc.nchans() == 3 && cc.ntsteps() == 2 && cc.nifs() == 1 && cc.source_name() == "src" && cc.tsamp() == 2 && cc.tstart() == 60000.5 && cc.data_type() == 9 && cc._coarse_channel_number == (numbered ? 5 : 0), "channel-attributes", w + ": an attribute is not the given one");
    auto one = [&](bool there, auto get, double want, const char *what) {
        double g = 0; auto e = thrown([&] { g = (double)get(); });
        MC_CHECK(c, there ? e.empty() && g == want : !e.empty(), "channel-attributes", w + ": " + what + " is " + mc::str(g) + " " + e);
    };
    one(has[0], [&] { return cc.machine_id(); }, 17, "machine_id"); one(has[1], [&] { return cc.nbits(); }, 8, "nbits"); one(has[2], [&] { return cc.telescope_id(); }, 6, "telescope_id");
    one(has[3], [&] { return cc.src_dej(); }, -12.25, "src_dej"); one(has[4], [&] { return cc.src_raj(); }, 5.5, "src_raj"); one(has[5], [&] { return cc.az_start(); }, 33.5, "az_start"); one(has[6], [&] { return cc.za_start(); }, 44.25, "za_start");
    MC_CHECK(c, !cc.has_hits() && !thrown([&] { (void)cc.hits(); }).empty() && !thrown([&] { (void)cc.noise_estimate(); }).empty() && !thrown([&] { (void)cc.integrated_drift_plane(); }).empty(), "absent-products", w + ": products nobody made can be read");
    MC_CHECK(c, runs == 0, "channel-samples", w + ": samples were read before anyone asked");
    auto dev = c.flip("device set"); if (dev) cc.set_device(std::string_view("cpu"));
    int order = c.choose(3, "order");                 // which of the samples and flags are asked for first, or replaced
    if (order == 2) { for (auto &x : v) x += 10; for (auto &x : mk) x += 1; cc.set_data(bl::make({2, 3}, bl::F32, v)); cc.set_mask(bl::make({2, 3}, bl::U8, mk)); has_data = true; }
    bool pushed = c.flip("pushed");
    if (pushed) { auto e = thrown([&] { cc.push_device(); }); MC_CHECK(c, has_data <= e.empty(), "channel-samples", w + ": " + e); }
    for (int i = 0; i < 4; ++i) {
        bool mask = (i + order) % 2;
        std::vector<double> g; auto e = thrown([&] { g = bl::values(mask ? cc.mask() : cc.data()); });
        MC_CHECK(c, e.empty() == has_data, has_data ? "channel-samples" : "absent-samples", w + (has_data ? ": the samples cannot be read: " + e : ": samples nobody gave can be read"));
        if (has_data) MC_CHECK(c, g == (mask ? mk : v), "channel-samples", w + ": " + (mask ? "flags" : "samples") + " are " + mc::str(g));
    }
    c.outcome(form * 8 + order * 2 + pushed);
}
// ---------------------------------------------------------------- S02
struct T { int kind; };   // 0: x+1, 1: 2x, 2: mask |= 1, 3: hits {x00}
coarse_channel apply(coarse_channel cc, int kind, int *counter) {
    ++*counter;
    auto d = cc.data();
    if (kind == 0) cc.set_data(bland::add(d, 1.0f));
    else if (kind == 1) cc.set_data(bland::multiply(d, 2.0f));
    else if (kind == 2) { auto m = bland::copy(cc.mask()); for (int64_t i = 0; i < m.numel(); ++i) m.data_ptr<uint8_t>()[i] |= 1; cc.set_mask(m); }
    else {
        bliss::hit h{}; h.start_freq_index = (int64_t)bl::get(d, {0, 0}); h.coarse_channel_number = cc._coarse_channel_number;
        cc.set_hits(std::list<bliss::hit>{h});
    }
    return cc;
}
struct PModel { int64_t first, count; std::vector<int> chain; };
struct Want { std::vector<double> data; int mask; bool has; int64_t hit; };
Want expect(const PModel &m, int64_t k, const FileSpec &f, int64_t fpc) {
    Want w; w.mask = 0; w.has = false; w.hit = 0;
    for (int64_t t = 0; t < f.T; ++t) for (int64_t i = 0; i < fpc; ++i) w.data.push_back(FileSpec::label(t, (m.first + k) * fpc + i));
    for (int t : m.chain) {
        if (t == 0) for (auto &v : w.data) v += 1;
        else if (t == 1) for (auto &v : w.data) v *= 2;
        else if (t == 2) w.mask |= 1;
        else { w.has = true; w.hit = (int64_t)w.data[0]; }
    }
    return w;
}
void pipelines(Ctx &c) {
    quiet_h5();
    bool from_file = c.choose(2, "backing") == 0;
    FileSpec f; f.T = 2; f.N = 6; int64_t fpc = 2;
    std::vector<scan> scans{from_file ? scan(cached_h5("pipe", f), (int)fpc) : make_scan(map_channels(f, fpc))};
    std::vector<PModel> models{{0, 3, {}}};
    std::set<int64_t> loaded;                                    // global channels loaded into the (shared at copy time) caches
    std::vector<std::set<int64_t>> cached{{}};
    if (!from_file) cached[0] = {0, 1, 2};
    int counter = 0, wanted = 0;
    std::string log = from_file ? "file:" : "map:";
    int depth = mc::thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int which = c.choose((int)scans.size(), "scan");
        int op = c.choose(9, "op");
        auto &s = scans[which]; auto &m = models[which];
        log += " [" + mc::str(which) + "]";
        c.step();
        if (op < 4) {
            log += "transform" + mc::str(op);
            int kind = op;
            if (m.chain.size() >= 3) throw mc::Skip{};
            s.add_coarse_channel_transform([kind, &counter](coarse_channel cc) { return apply(cc, kind, &counter); });
            m.chain.push_back(kind);
        } else if (op == 4 || op == 5) {
            int64_t k = op == 4 ? 0 : m.count - 1;
            log += "read" + mc::str(k);
            MC_NOTE(c, log);
            auto cc = s.read_coarse_channel((int)k);
            wanted += m.chain.size();
            cached[which].insert(m.first + k);
            auto w = expect(m, k, f, fpc);
            MC_CHECK(c, bl::same(bl::values(cc->data()), w.data), "pipeline-data", log + ": channel data is " + mc::str(bl::values(cc->data())) + ", expected " + mc::str(w.data));
            for (double v : bl::values(cc->mask())) MC_CHECK(c, v == w.mask, "pipeline-mask", log + ": mask " + mc::str(v));
            MC_CHECK(c, cc->has_hits() == w.has, "pipeline-hits", log);
            if (w.has) MC_CHECK(c, cc->hits().size() == 1 && cc->hits().front().start_freq_index == w.hit, "pipeline-hits", log);
            // writing into what was handed out leaves the scan alone
            cc->set_mask(bland::ndarray({f.T, fpc}, 7, bland::ndarray::datatype::uint8));
            cc->set_data(bland::ndarray({f.T, fpc}, 7.0f, bland::ndarray::datatype::float32));
        } else if (op == 6) {
            int64_t k = m.count - 1;
            log += "peak" + mc::str(k);
            MC_NOTE(c, log);
            auto cc = s.peak_coarse_channel((int)k);
            bool have = cached[which].count(m.first + k);
            MC_CHECK(c, (cc != nullptr) == have, "peak", log + ": peak returned " + (cc ? "a channel" : "nothing") + " for a channel that was " + (have ? "" : "not ") + "read before");
            if (cc) { wanted += m.chain.size(); auto w = expect(m, k, f, fpc); MC_CHECK(c, bl::same(bl::values(cc->data()), w.data), "peak-data", log); }
        } else if (op == 7) {
            log += "slice1";
            if (m.count < 2 || scans.size() >= 3) throw mc::Skip{};
            scans.push_back(s.slice_scan_channels(1, -1));
            models.push_back(PModel{models[which].first + 1, models[which].count - 1, models[which].chain});
            cached.push_back(cached[which]);
        } else {
            log += "hits";
            MC_NOTE(c, log);
            auto hs = s.hits();
            std::vector<int64_t> got, want;
            for (auto &h : hs) got.push_back(h.start_freq_index);
            for (int64_t k = 0; k < m.count; ++k) { auto w = expect(m, k, f, fpc); if (w.has) want.push_back(w.hit); cached[which].insert(m.first + k); wanted += m.chain.size(); }
            MC_CHECK(c, got == want, "scan-hits", log + ": hits " + mc::str(got) + ", expected " + mc::str(want));
        }
        MC_CHECK(c, counter == wanted, "transform-count", log + ": transforms ran " + mc::str(counter) + " times, expected " + mc::str(wanted));
        c.state(mc::hash_str(log));
    }
    c.outcome(counter);
}

// hits of a channel are found when they are first asked for, once for all copies of the channel; a search that failed is tried again
void deferred_hits(Ctx &c) {
    CC spec; spec.T = 1; spec.N = 2;
    std::vector<coarse_channel> ch{make_cc(spec)};
    struct Cell { int kind = 0, value = 0, fail = 0, tries = 0; };     // kind 0 none, 1 a list, 2 to be searched for
    std::vector<std::shared_ptr<Cell>> cell{std::make_shared<Cell>()};
    int runs = 0, wanted = 0, serial = 0;
    std::string w = "hits:";
    int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d) {
        int which = ch.size() > 1 ? c.choose((int)ch.size(), "channel") : 0;
        int op = c.choose(8, "op");
        static const char *names[] = {"end", "list", "empty list", "search", "search that fails once", "copy", "read", "scan"};
        w += std::string(" ") + mc::str(which) + ":" + names[op]; MC_NOTE(c, w); c.step();
        if (op == 0) break;
        auto hit_of = [](int n) { bliss::hit h{}; h.start_freq_index = n; return h; };
        if (op <= 4) {
            int n = ++serial;
            auto x = std::make_shared<Cell>();
            x->kind = op <= 2 ? 1 : 2; x->value = op == 2 ? 0 : n; x->fail = op == 4;
            if (op == 1) ch[which].set_hits(std::list<bliss::hit>{hit_of(n), hit_of(n + 1000)});
            else if (op == 2) ch[which].set_hits(std::list<bliss::hit>{});
            else { auto left = std::make_shared<int>(op == 4); ch[which].set_hits([&runs, left, n, hit_of] { ++runs; if ((*left)-- > 0) throw std::runtime_error("search failed"); return std::list<bliss::hit>{hit_of(n), hit_of(n + 1000)}; }); }
            cell[which] = x;
        } else if (op == 5) {
            if (ch.size() >= 3) throw mc::Skip{};
            auto copy = ch[which]; ch.push_back(copy); auto x = cell[which]; cell.push_back(x);
        } else {
            auto &x = *cell[which];
            std::list<bliss::hit> got; std::string e;
            bool fails = x.kind == 0, is_scan = op == 7;
            if (x.kind == 2) { ++wanted; if (x.fail) { x.fail = 0; fails = true; } else x.kind = 1; }
            if (is_scan) {
                auto cc = std::make_shared<coarse_channel>(ch[which]);
                scan s(std::map<int, std::shared_ptr<coarse_channel>>{{0, cc}});
                if (x.kind == 0) fails = false;             // a scan without hits has none
                e = thrown([&] { got = s.hits(); });
            } else e = thrown([&] { got = ch[which].hits(); });
            MC_CHECK(c, e.empty() != fails, fails ? "failure-hidden" : "hits-failed", w + ": " + e);
            MC_CHECK(c, runs == wanted, "search-count", w + ": the search ran " + mc::str(runs) + " times, expected " + mc::str(wanted));
            if (!fails) {
                std::vector<int64_t> g, want; for (auto &h : got) g.push_back(h.start_freq_index);
                if (x.value) want = {x.value, x.value + 1000};
                MC_CHECK(c, g == want, "channel-hits", w + ": hits " + mc::str(g) + ", expected " + mc::str(want));
                for (auto &h : got) h.start_freq_index = 77;      // what was handed out is the reader's own
            }
        }
        for (size_t i = 0; i < ch.size(); ++i) MC_CHECK(c, ch[i].has_hits() == (cell[i]->kind != 0), "has-hits", w + ": channel " + mc::str(i));
        c.state(mc::hash_str(w));
    }
    c.outcome(runs * 10 + ch.size());
}
// ---------------------------------------------------------------- S03
FileSpec variant(int v) {
    FileSpec f; f.T = 1; f.N = 8;
    if (v == 1) f.fch1 += 1; else if (v == 2) f.foff *= 2; else if (v == 3) f.N = 4; else if (v == 4) { f.fch1 -= 3e-6; } else if (v == 5) f.foff = -f.foff;
    else if (v == 6) f.foff = -2.7939677238464355e-06; else if (v == 7) f.foff = -2.2e-06; else if (v == 8) f.fch1 += 1e-9;     // widths of real recordings; less than the 1 Hz that counts as equal
    return f;
}
scan scan_of(int v, int fpc) { return scan(cached_h5("v" + mc::str(v), variant(v)), fpc); }
void groups(Ctx &c) {
    quiet_h5();
    bool is_cadence = c.flip("cadence");
    int n = c.choose(4, "scans");
    std::vector<int> v; std::vector<int> fpcs;
    for (int i = 0; i < n; ++i) { v.push_back(c.choose(9, "variant")); fpcs.push_back(i == 0 ? 2 : c.flip("other channelization") ? 4 : 2); }
    std::vector<scan> scans; for (int i = 0; i < n; ++i) scans.push_back(scan_of(v[i], fpcs[i]));
    std::string w = std::string(is_cadence ? "cadence" : "observation") + " of scans " + mc::str(v) + " fpc " + mc::str(fpcs);
    observation_target obs; cadence cad;
    std::vector<int> sizes;
    if (is_cadence) {
        // split the scans into observations of chosen sizes
        std::vector<observation_target> os; int at = 0;
        if (c.flip("empty first observation")) { os.emplace_back(); sizes.push_back(0); }
        while (at < n) { int k = 1 + c.choose(n - at, "obs size"); os.emplace_back(std::vector<scan>(scans.begin() + at, scans.begin() + at + k)); sizes.push_back(k); at += k; }
        cad = cadence(os);
        w += " split " + mc::str(sizes);
    } else obs = observation_target(scans);
    MC_NOTE(c, w);
    c.step(); c.state(mc::hash_str(w));
    bool same_meta = true, same_coarse = true;
    for (int i = 1; i < n; ++i) {
        auto a = variant(v[0]), b = variant(v[i]);
        same_meta &= std::fabs(a.fch1 - b.fch1) < 1e-8 && a.foff == b.foff && a.N == b.N;
        same_coarse &= a.N / fpcs[0] == b.N / fpcs[i];
    }
    bool want = same_meta && same_coarse;
    bool got = is_cadence ? cad.validate_scan_consistency() : obs.validate_scan_consistency();
    MC_CHECK(c, got == want, "consistency", w + ": reported " + (got ? "consistent" : "inconsistent"));
    int64_t nc = -1; int look = -2;
    double fr = n ? variant(v[0]).fch1 + variant(v[0]).foff * 3.5 : 0;
    auto e1 = thrown([&] { nc = is_cadence ? cad.get_number_coarse_channels() : obs.get_number_coarse_channels(); });
    auto e2 = thrown([&] { look = is_cadence ? cad.get_coarse_channel_with_frequency(fr) : obs.get_coarse_channel_with_frequency(fr); });
    if (want && n) {
        MC_CHECK(c, e1.empty() && e2.empty(), "consistent-rejected", w + ": " + e1 + e2);
        MC_CHECK(c, nc == variant(v[0]).N / fpcs[0] && look == 3 / fpcs[0], "group-channel", w + ": " + mc::str(nc) + " coarse channels, lookup gives " + mc::str(look));
    } else MC_CHECK(c, !e1.empty() && !e2.empty(), "inconsistent-accepted", w + ": a group of inconsistent (or no) scans answers channel questions");
    c.outcome(want * 2 + (n > 0));
}
// wide bands, where the smallest difference between channel widths counts: 65536 channels of 0.00286 MHz
void wide(Ctx &c) {
    quiet_h5();
    static const std::vector<double> widths{-0.00286102294921875, -0.0028610229, -0.00286102294921875 + 1.2e-11, -0.00286102294921875 - 2e-11, -0.00286102294921875 + 4e-12};
    auto wide_scan = [&](int v) {
        FileSpec f; f.N = 65536; f.T = 1; f.foff = widths[v]; f.fch1 = 8421.38671875; f.data_written = false; f.data = {0}; f.chunk = {1, 1, 65536};
        return scan(cached_h5("wide" + mc::str(v), f), 1024);
    };
    bool is_cadence = c.flip("cadence"); int n = 2 + c.choose(2, "scans");
    std::vector<int> v; std::vector<scan> sc; std::vector<observation_target> os;
    for (int i = 0; i < n; ++i) { v.push_back(c.choose((int)widths.size(), "width")); sc.push_back(wide_scan(v[i])); os.emplace_back(std::vector<scan>{sc[i]}); }
    std::string w = std::string(is_cadence ? "cadence" : "observation") + " of wide scans " + mc::str(v);
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w));
    bool want = true;
    for (int i = 1; i < n; ++i) {
        double hz = std::fabs(widths[v[i]] - widths[v[0]]) * 65536 * 1e6;
        if (std::fabs(hz - 1) < 0.05) throw mc::Skip{};
        want &= hz < 1;
    }
    observation_target ot(sc); cadence ca(os);
    bool got = is_cadence ? ca.validate_scan_consistency() : ot.validate_scan_consistency();
    MC_CHECK(c, got == want, "wide-consistency", w + ": reported " + (got ? "consistent" : "inconsistent"));
    c.outcome(want);
}
// one file of a group that is not there, or is no filterbank file: no group
void missing_files(Ctx &c) {
    quiet_h5();
    bool is_cadence = c.flip("cadence");
    int n = 1 + c.choose(3, "files"), bad = c.choose(n, "which"), kind = c.choose(3, "kind");
    FileSpec f; f.T = 1; f.N = 8;
    std::string junk = mc::scratch() + "/junk.h5"; std::ofstream(junk) << "no file of samples";
    std::vector<std::string> paths;
    for (int i = 0; i < n; ++i) paths.push_back(i != bad ? cached_h5("src0", f) : kind == 0 ? mc::scratch() + "/absent.h5" : kind == 1 ? junk : mc::scratch());
    std::string w = mc::str(n) + " files of which number " + mc::str(bad) + (kind == 0 ? " is absent" : kind == 1 ? " is junk" : " is a directory");
    MC_NOTE(c, w); c.step(); c.state(mc::hash_str(w) ^ is_cadence);
    auto e = thrown([&] { if (is_cadence) { std::vector<std::vector<std::string>> l; for (auto &p : paths) l.push_back({p}); cadence x(l, 2); } else observation_target x(paths, 2); });
    MC_CHECK(c, !e.empty(), "missing-file", w + ": a group was made of them");
    c.outcome(kind);
}
void group_slices(Ctx &c) {
    quiet_h5();
    bool is_cadence = c.flip("cadence");
    int nobs = is_cadence ? 1 + c.choose(3, "observations") : 1;
    FileSpec f; f.T = 1; f.N = 8;
    std::vector<observation_target> os;
    std::vector<std::string> names; std::vector<int> per; std::vector<std::vector<std::string>> lists;
    for (int o = 0; o < nobs; ++o) {
        int k = o == 2 ? 1 : 1 + c.choose(2, "scans");
        std::vector<std::string> paths;
        std::string nm;
        for (int i = 0; i < k; ++i) {
            int src = o == 2 ? 1 : o == 1 && !mc::thorough() ? c.choose(2, "source") : c.choose(3, "source");
            FileSpec g = f; g.source = src == 0 ? "A" : src == 1 ? "B" : "";
            paths.push_back(cached_h5("src" + mc::str(src), g));
            if (!g.source.empty()) nm = nm.empty() ? g.source : nm == g.source ? nm : nm + "::" + g.source;
        }
        os.emplace_back(paths, 2); lists.push_back(paths);
        names.push_back(nm.empty() ? "unknown" : nm); per.push_back(k);
        MC_CHECK(c, os.back()._target_name == names.back(), "target-name", "observation is named '" + os.back()._target_name + "', expected '" + names.back() + "'");
    }
    // built from scans that are there, or from the paths of their files
    bool whole = is_cadence && c.flip("whole from paths"), scans_first = !whole && c.flip("from scans");
    if (scans_first) for (int o = 0; o < nobs; ++o) { std::vector<scan> sc; for (auto &p : lists[o]) sc.emplace_back(p, 2); os[o] = observation_target(sc); MC_CHECK(c, os[o]._target_name == names[o], "target-name", "observation is named '" + os[o]._target_name + "', expected '" + names[o] + "'"); }
    cadence from_paths; if (whole) { from_paths = cadence(lists, 2); os = from_paths._observations; }
    MC_CHECK(c, (int)os.size() == nobs, "observations", "a cadence of " + mc::str(nobs) + " lists of files has " + mc::str(os.size()) + " observations");
    for (int o = 0; o < nobs; ++o) {
        MC_CHECK(c, os[o]._target_name == names[o] && (int)os[o]._scans.size() == per[o], "observation-scans", "an observation of " + mc::str(per[o]) + " files has " + mc::str(os[o]._scans.size()) + " scans and is named " + os[o]._target_name);
        for (int i = 0; i < per[o]; ++i) MC_CHECK(c, os[o]._scans[i].get_file_path() == lists[o][i] && os[o]._scans[i].get_number_coarse_channels() == 4, "observation-files", "scan " + mc::str(i) + " of an observation is of " + os[o]._scans[i].get_file_path() + " instead of " + lists[o][i]);
    }
    bland::ndarray::dev cuda_like = bland::ndarray::dev::cpu;
    if (c.flip("device")) { cuda_like.device_type = kDLCUDAHost; cuda_like.device_id = 3; }
    int64_t start = c.choose(4, "start"), count = 1 + c.choose((int)(4 - start), "count");
    std::string w = mc::str(nobs) + " observation(s) of " + mc::str(per) + " scans, slice(" + mc::str(start) + "," + mc::str(count) + ")";
    MC_NOTE(c, w); c.step(); { uint64_t h = mc::hash_str(w) + whole * 2 + scans_first; for (auto &x : names) h = mc::mix(h, mc::hash_str(x)); c.state(h); }
    std::vector<observation_target> out;
    bland::ndarray::dev dev = bland::ndarray::dev::cpu;
    if (is_cadence) { cadence cad = whole ? from_paths : cadence(os); cad.set_device(cuda_like); auto r = cad.slice_cadence_channels(start, count); out = r._observations; dev = r.device(); }
    else { os[0].set_device(cuda_like); out = {os[0].slice_observation_channels(start, count)}; dev = out[0].device(); }
    MC_CHECK(c, dev.device_type == cuda_like.device_type && dev.device_id == cuda_like.device_id, "slice-device", w + ": the slice is not on the device of the sliced group");
    MC_CHECK(c, (int)out.size() == nobs, "slice-observations", w);
    for (int o = 0; o < nobs; ++o) {
        MC_CHECK(c, out[o]._target_name == names[o], "slice-name", w + ": slice of target '" + names[o] + "' is named '" + out[o]._target_name + "'");
        MC_CHECK(c, out[o].device().device_type == cuda_like.device_type, "slice-device", w);
        MC_CHECK(c, (int)out[o]._scans.size() == per[o], "slice-scans", w);
        for (auto &s : out[o]._scans) {
            MC_CHECK(c, s.get_number_coarse_channels() == count && bl::close(s.fch1(), f.fch1 + f.foff * 2 * start, 1e-13, 0), "slice-window", w);
            MC_CHECK(c, s.device().device_type == cuda_like.device_type, "slice-device", w + ": scan not on the device");
            if (cuda_like.device_type == kDLCPU) MC_CHECK(c, bl::get(s.read_coarse_channel(0)->data(), {0, 0}) == FileSpec::label(0, 2 * start), "slice-data", w);
        }
    }
    c.outcome(start * 8 + count);
}
// ---------------------------------------------------------------- S05
struct Dev { int type, id; };
bool is(bland::ndarray::dev d, Dev m) { return (int)d.device_type == m.type && d.device_id == m.id; }
void devices(Ctx &c) {
    quiet_h5();
    int level = c.choose(4, "level");                              // channel, scan, observation, cadence
    bool from_file = level && c.choose(2, "backing") == 0;
    FileSpec f; f.N = 6; int64_t fpc = 2;
    auto specs = map_channels(f, fpc);
    coarse_channel cc = make_cc(specs[0]);
    scan s = from_file ? scan(cached_h5("dev", f), (int)fpc) : make_scan(specs);
    observation_target ot(std::vector<scan>{s, s}); cadence ca(std::vector<observation_target>{ot, observation_target(std::vector<scan>{s})});
    std::string w = level == 0 ? "channel" : level == 1 ? "scan" : level == 2 ? "observation" : "cadence";
    w += from_file ? " of a file:" : " in memory:";
    Dev model{kDLCPU, 0}; int64_t first = 0, count = 3;
    auto scans = [&] { std::vector<scan *> v; if (level == 1) v.push_back(&s); if (level == 2) for (auto &x : ot._scans) v.push_back(&x); if (level == 3) for (auto &o : ca._observations) for (auto &x : o._scans) v.push_back(&x); return v; };
    auto set = [&](auto &&d) { if (level == 0) cc.set_device(d); else if (level == 1) s.set_device(d); else if (level == 2) ot.set_device(d); else ca.set_device(d); };
    auto read = [&](const std::string &what) {
        std::vector<coarse_channel> got; 
        bool ok = model.type == kDLCPU;
        std::string e = thrown([&] {
            if (level == 0) got.push_back(cc); else for (auto x : scans()) got.push_back(*x->read_coarse_channel((int)count - 1));
            for (auto &g : got) { (void)g.data(); (void)g.mask(); }
        });
        c.step();
        MC_CHECK(c, ok == e.empty(), "device-read", what + (ok ? ": reading fails: " + e : ": data on a device that is not there can be read"));
        if (!ok) return;
        int64_t k = level ? first + count - 1 : 0;
        for (auto &g : got) {
            MC_CHECK(c, is(g.device(), model) && is(g.data().device(), model) && is(g.mask().device(), model), "device-of-data", what + ": data or mask is not on the device of its channel");
            for (int64_t t = 0; t < f.T; ++t) for (int64_t i = 0; i < fpc; ++i)
                MC_CHECK(c, bl::get(g.data(), {t, i}) == FileSpec::label(t, k * fpc + i) && bl::get(g.mask(), {t, i}) == 0, "device-data", what + ": data changed");
        }
    };
    int depth = mc::thorough() ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(12, "op");
        if (op == 11) break;
        Dev next = model; bool reject = false; std::string e;
        static const char *names[] = {"set \"cpu\"", "set cpu", "set cpu:1", "set cuda host", "set \"cuda\"", "set \"cuda:1\"", "set managed", "set \"gpu\"", "read", "push", "slice"};
        w += std::string(" ") + names[op]; MC_NOTE(c, w);
        c.step();
        bland::ndarray::dev dv = bland::ndarray::dev::cpu;
        switch (op) {
        case 0: next = {kDLCPU, 0}; e = thrown([&] { set(std::string_view("cpu")); }); break;
        case 1: next = {kDLCPU, 0}; e = thrown([&] { set(dv); }); break;
        case 2: next = {kDLCPU, 1}; dv.device_id = 1; e = thrown([&] { set(dv); }); break;
        case 3: next = {kDLCUDAHost, 0}; e = thrown([&] { set(std::string_view("cudahost")); }); break;
        case 4: reject = true; e = thrown([&] { set(std::string_view("cuda")); }); break;
        case 5: reject = true; e = thrown([&] { set(std::string_view("cuda:1")); }); break;
        case 6: reject = true; dv.device_type = kDLCUDAManaged; e = thrown([&] { set(dv); }); break;
        case 7: reject = true; e = thrown([&] { set(std::string_view("gpu")); }); break;
        case 8: read(w); break;
        case 9: e = thrown([&] { if (level == 0) cc.push_device(); else for (auto x : scans()) x->push_device(); }); if (model.type != kDLCPU) e.clear(); break;
        default:
            if (level == 0 || count < 2) throw mc::Skip{};
            first++; count--;
            if (level == 1) s = s.slice_scan_channels(1, count); else if (level == 2) ot = ot.slice_observation_channels(1, count); else ca = ca.slice_cadence_channels(1, count);
        }
        if (reject) MC_CHECK(c, !e.empty(), "absent-device", w + ": a device that is not there is accepted");
        else { MC_CHECK(c, e.empty(), "device-rejected", w + ": " + e); model = next; }
        c.state(mc::hash_str(w));
        // the device of the group and everything in it; a rejected one changed nothing
        if (level == 0) MC_CHECK(c, is(cc.device(), model), "device", w + ": the channel is on another device");
        if (level == 2) MC_CHECK(c, is(ot.device(), model), "device", w + ": the observation is on another device");
        if (level == 3) { MC_CHECK(c, is(ca.device(), model), "device", w + ": the cadence is on another device"); for (auto &o : ca._observations) MC_CHECK(c, is(o.device(), model), "device", w + ": an observation is on another device"); }
        for (auto x : scans()) MC_CHECK(c, is(x->device(), model), "device", w + ": a scan is on another device");
    }
    read(w);
    c.outcome(model.type * 4 + model.id);
}
// drift planes of a channel: set as they are or to be computed at each reading, found on the channel's device (or the plane's own), unchanged
void plane_devices(Ctx &c) {
    using bliss::frequency_drift_plane; using bliss::integrated_flags;
    const int64_t R = 2, N = 3;
    auto make = [&](int tag) {
        std::vector<double> v, fl; for (int i = 0; i < R * N; ++i) { v.push_back(tag * 100 + i); fl.push_back(tag * 10 + i); }
        integrated_flags rfi(R, N);
        rfi.filter_rolloff = bl::make({R, N}, bl::U8, fl);
        for (auto &x : fl) x += 100;
        rfi.low_spectral_kurtosis = bl::make({R, N}, bl::U8, fl);
        for (auto &x : fl) x += 50;
        rfi.high_spectral_kurtosis = bl::make({R, N}, bl::U8, fl);
        return frequency_drift_plane(bl::make({R, N}, bl::F32, v), rfi, 7 + tag, {{0, 0.5 * tag, 1.5, 2, 1}, {1, 1.0, 2.5, 3, 2}});
    };
    auto check = [&](frequency_drift_plane p, int tag, Dev m, const std::string &w) {
        auto d = p.integrated_drift_plane(); auto f = p.integrated_rfi();
        for (auto *x : {&d, &f.filter_rolloff, &f.low_spectral_kurtosis, &f.high_spectral_kurtosis}) MC_CHECK(c, is(x->device(), m), "plane-device", w + ": the drift plane or its flags are on another device");
        for (int64_t r = 0; r < R; ++r) for (int64_t i = 0; i < N; ++i) {
            double k = r * N + i;
            MC_CHECK(c, bl::get(d, {r, i}) == tag * 100 + k && bl::get(f.filter_rolloff, {r, i}) == tag * 10 + k && bl::get(f.low_spectral_kurtosis, {r, i}) == 100 + tag * 10 + k && bl::get(f.high_spectral_kurtosis, {r, i}) == 150 + tag * 10 + k,
                     "plane-data", w + ": the drift plane or its flags changed");
        }
        auto info = p.drift_rate_info();
        MC_CHECK(c, p.integration_steps() == 7 + tag && info.size() == 2 && info[0].drift_rate_slope == 0.5 * tag && info[1].drift_channels_span == 3 && info[1].desmeared_bins == 2, "plane-rates", w + ": the description of the drift plane changed");
    };
    bool alone = c.flip("plane alone");
    CC spec; spec.T = 2; spec.N = N;
    std::vector<coarse_channel> ch{make_cc(spec)};
    struct M { Dev dev; int tag; bool deferred; };          // tag 0: no plane
    std::vector<M> model{{{kDLCPU, 0}, 0, false}};
    frequency_drift_plane lone = make(3); if (alone) model[0].tag = 3;
    int runs = 0, wanted = 0;
    std::string w = alone ? "plane:" : "channel:";
    int depth = mc::thorough() ? 6 : 4;
    for (int d = 0; d < depth; ++d) {
        int which = ch.size() > 1 ? c.choose(2, "channel") : 0;
        int op = c.choose(alone ? 6 : 9, "op");
        auto &m = model[which]; auto &cc = ch[which];
        static const char *names[] = {"set \"cpu\"", "set cpu:1", "set \"cuda\"", "push", "read", "end", "give plane", "give generator", "copy"};
        w += std::string(" ") + (ch.size() > 1 ? mc::str(which) + ":" : "") + names[op]; MC_NOTE(c, w); c.step();
        std::string e;
        bland::ndarray::dev dv = bland::ndarray::dev::cpu; dv.device_id = 1;
        if (op == 5) break;
        if (op == 0) { e = thrown([&] { if (alone) lone.set_device(std::string_view("cpu")); else cc.set_device(std::string_view("cpu")); }); m.dev = {kDLCPU, 0}; }
        else if (op == 1) { e = thrown([&] { if (alone) lone.set_device(dv); else cc.set_device(dv); }); m.dev = {kDLCPU, 1}; }
        else if (op == 2) {
            if (alone) throw mc::Skip{};                           // checked when it is used
            MC_CHECK(c, !thrown([&] { cc.set_device(std::string_view("cuda")); }).empty(), "absent-device", w + ": a device that is not there is accepted");
        } else if (op == 3) e = thrown([&] { if (alone) lone.push_device(); else cc.push_device(); });
        else if (op == 4) {
            if (alone) check(lone, 3, m.dev, w);
            else if (!m.tag) MC_CHECK(c, !thrown([&] { (void)cc.integrated_drift_plane(); }).empty(), "no-plane", w + ": a drift plane nobody gave was read");
            else {
                if (m.deferred) ++wanted;
                check(cc.integrated_drift_plane(), m.tag, m.dev, w);
                MC_CHECK(c, runs == wanted, "plane-generator", w + ": the drift plane was computed " + mc::str(runs) + " times for " + mc::str(wanted) + " readings");
            }
        } else if (op == 6) { cc.set_integrated_drift_plane(make(1)); m.tag = 1; m.deferred = false; }
        else if (op == 7) { cc.set_integrated_drift_plane([&runs, make] { ++runs; return make(2); }); m.tag = 2; m.deferred = true; }
        else if (op == 8) { if (ch.size() > 1) throw mc::Skip{}; auto copy = cc; auto mm = m; ch.push_back(copy); model.push_back(mm); }
        MC_CHECK(c, e.empty(), "device-rejected", w + ": " + e);
        c.state(mc::hash_str(w));
    }
    if (alone) check(lone, 3, model[0].dev, w);
    else for (size_t i = 0; i < ch.size(); ++i) if (model[i].tag) check(ch[i].integrated_drift_plane(), model[i].tag, model[i].dev, w + " at the end");
    c.outcome(model[0].dev.id * 8 + model[0].tag * 2 + ch.size());
}
} // namespace

MC_PROPERTY(S05) { mc::explore("devices", devices); mc::explore("drift-planes", plane_devices); }
MC_PROPERTY(S01) { mc::explore("slicing", slicing); mc::explore("many-channels", many); mc::explore("invalid-slices", bad_slices); mc::explore("setters", setters); mc::explore("missing-channels", gaps); mc::explore("channelization", inference); mc::explore("construction", construction); mc::explore("nothing", nothing); }
MC_PROPERTY(S02) { mc::explore("pipelines", pipelines); mc::explore("deferred-hits", deferred_hits); }
MC_PROPERTY(S03) { mc::explore("consistency", groups); mc::explore("wide-bands", wide); mc::explore("slices", group_slices); mc::explore("missing-files", missing_files); }
