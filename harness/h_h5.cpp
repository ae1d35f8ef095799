// H01 reading filterbank files: metadata, layouts, windows, channelization, damaged files
#include "bs.hpp"
#include <sys/stat.h>
using namespace bs;
using bliss::scan; using bliss::coarse_channel; using bliss::h5_filterbank_file;

namespace {
std::string tmp(const std::string &n) { return mc::scratch() + "/" + n; }
struct NT { const char *name; H5::PredType t; bool fl; };
const std::vector<NT> &types() {
    static std::vector<NT> v{{"i8", H5::PredType::STD_I8LE, false}, {"u8", H5::PredType::STD_U8LE, false}, {"i16", H5::PredType::STD_I16LE, false}, {"u16", H5::PredType::STD_U16LE, false},
                             {"i32", H5::PredType::STD_I32LE, false}, {"u32", H5::PredType::STD_U32LE, false}, {"i64", H5::PredType::STD_I64LE, false}, {"u64", H5::PredType::STD_U64LE, false},
                             {"i16be", H5::PredType::STD_I16BE, false}, {"i32be", H5::PredType::STD_I32BE, false}, {"i64be", H5::PredType::STD_I64BE, false}, {"u32be", H5::PredType::STD_U32BE, false}, {"u64be", H5::PredType::STD_U64BE, false},
                             {"f32", H5::PredType::IEEE_F32LE, true}, {"f64", H5::PredType::IEEE_F64LE, true}, {"f32be", H5::PredType::IEEE_F32BE, true}, {"f64be", H5::PredType::IEEE_F64BE, true}};
    return v;
}
void expect(Ctx &c, bool ok, const std::string &key, const std::string &msg) { MC_CHECK(c, ok, key, msg); }
// everything a scan says about its file
void check_meta(Ctx &c, scan &s, const FileSpec &f, int64_t fpc, const std::string &what) {
    auto eq = [&](const char *k, double got, double want) { expect(c, got == want, std::string("meta-") + k, what + ": " + k + " is " + mc::str(got) + ", the file has " + mc::str(want)); };
    eq("fch1", s.fch1(), f.fch1); eq("foff", s.foff(), f.foff); eq("tsamp", s.tsamp(), f.tsamp); eq("tstart", s.tstart(), f.tstart);
    eq("src_raj", s.src_raj(), f.raj); eq("src_dej", s.src_dej(), f.dej); eq("telescope_id", s.telescope_id(), f.telescope);
    eq("data_type", s.data_type(), f.has_dtype ? f.data_type : 1); eq("nbits", s.nbits(), f.has_nbits ? f.nbits : 32); eq("nchans", s.nchans(), f.N); eq("nifs", s.nifs(), f.has_nifs ? f.nifs : 1);
    eq("ntsteps", s.ntsteps(), f.T); eq("tduration", s.tduration_secs(), f.T * f.tsamp);
    if (f.has_machine) eq("machine_id", s.machine_id(), f.machine); else expect(c, !thrown([&] { s.machine_id(); }).empty(), "meta-machine-absent", what);
    if (f.has_az) eq("az_start", s.az_start(), f.az); else expect(c, !thrown([&] { s.az_start(); }).empty(), "meta-az-absent", what);
    if (f.has_za) eq("za_start", s.za_start(), f.za); else expect(c, !thrown([&] { s.za_start(); }).empty(), "meta-za-absent", what);
    expect(c, s.source_name() == f.source, "meta-source_name", what + ": source name is '" + s.source_name() + "' (" + mc::str(s.source_name().size()) + " bytes), the file has '" + f.source + "'");
    eq("number_coarse", s.get_number_coarse_channels(), f.N / fpc);
}
void check_pixels(Ctx &c, const bl::ndarray &d, int64_t t0, int64_t n0, const Shape &shape, const std::vector<float> *data, int64_t N, const std::string &what) {
    expect(c, d.shape() == shape, "data-shape", what + ": shape " + mc::str(d.shape()) + ", expected " + mc::str(shape));
    expect(c, d.dtype() == bl::dl(bl::F32), "data-type", what);
    for (int64_t t = 0; t < shape[0]; ++t) for (int64_t n = 0; n < shape[1]; ++n) {
        float w = data ? (*data)[(t0 + t) * N + n0 + n] : FileSpec::label(t0 + t, n0 + n);
        float g = bl::get(d, {t, n});
        MC_CHECK(c, g == w, "data-value", what + ": [" + mc::str(t) + "," + mc::str(n) + "] is " + mc::str(g) + ", the file has " + mc::str(w));
    }
}
void check_channels(Ctx &c, scan &s, const FileSpec &f, int64_t fpc, const std::vector<float> *data, const std::string &what) {
    for (int64_t k = 0; k < f.N / fpc; ++k) {
        auto cc = s.read_coarse_channel(k);
        check_pixels(c, cc->data(), 0, k * fpc, {f.T, fpc}, data, f.N, what + " channel " + mc::str(k));
        auto m = cc->mask();
        expect(c, m.shape() == (Shape{f.T, fpc}) && m.dtype() == bl::dl(bl::U8), "mask-shape", what);
        for (double v : bl::values(m)) expect(c, v == 0, "mask-value", what);
        expect(c, cc->nbits() == s.nbits() && cc->nifs() == s.nifs() && cc->nchans() == fpc && cc->ntsteps() == f.T && cc->source_name() == s.source_name(), "channel-meta", what);
    }
}
void attr_types(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = 2; f.N = 8;
    bool ints = c.flip("vary int/float attributes");
    auto &t = types()[c.choose((int)types().size(), "attribute type")];
    bool big = c.flip("large values");
    if (ints) {
        f.int_type = t.t;
        bool one = std::string(t.name).find('8') != std::string::npos, two = std::string(t.name).find("16") != std::string::npos;
        f.machine = one ? 100 : big ? (two ? 30000 : 8675309) : 17; f.telescope = one ? 64 : big ? 9001 : 6;
    } else {
        f.float_type = t.t;
        if (!t.fl) { f.fch1 = 100; f.foff = t.name[0] == 'u' ? 1 : -1; f.tsamp = 18; f.tstart = 120; f.raj = 5; f.dej = t.name[0] == 'u' ? 12 : -12; f.az = 33; f.za = 44; }
        else if (big && std::string(t.name).substr(0, 3) == "f64") { f.fch1 = 8421.386717353016; f.foff = -2.7939677238464355e-06; f.tsamp = 18.253611008; f.tstart = 58849.789351851855; f.raj = 17.211236; f.dej = -0.0000123; }
    }
    std::string what = std::string(ints ? "integer" : "float") + " attributes stored as " + t.name + (big ? " (large)" : "");
    MC_NOTE(c, what);
    int64_t fpc = c.pick(std::vector<int64_t>{4, 2, 8}, "fine per coarse");
    c.step();
    scan s(cached_h5("attr_" + mc::str(ints) + t.name + mc::str(big), f), (int)fpc);
    check_meta(c, s, f, fpc, what);
    check_channels(c, s, f, fpc, nullptr, what);
    c.outcome(mc::hash_str(what));
}
// the typed attribute reader itself
void attr_reader(Ctx &c) {
    quiet_h5();
    auto &t = types()[c.choose((int)types().size(), "stored as")];
    int64_t v = c.pick(std::vector<int64_t>{0, 1, 100, 127}, "value");
    if (t.name[0] != 'u' && c.flip("negative")) v = -v;
    FileSpec f; f.T = 1; f.N = 2; f.int_type = t.t; f.machine = v;
    h5_filterbank_file h(cached_h5("rd_" + std::string(t.name) + "_" + mc::str(v), f));
    std::string what = mc::str(v) + " stored as " + t.name;
    c.step();
    auto one = [&](const char *n, auto z) {
        using T = decltype(z);
        if (v < 0 && std::is_unsigned<T>::value) return;
        T got = h.read_data_attr<T>("machine_id");
        expect(c, got == (T)v, "attr-value", what + " is read as " + n + " " + mc::str((double)got));
    };
    one("float", 0.0f); one("double", 0.0); one("u8", (uint8_t)0); one("u16", (uint16_t)0); one("u32", (uint32_t)0); one("u64", (uint64_t)0);
    one("i8", (int8_t)0); one("i16", (int16_t)0); one("i32", (int32_t)0); one("i64", (int64_t)0);
    std::string w;
    try { h.read_data_attr<double>("no such key"); w = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { w = e.what(); }
    expect(c, w.empty(), "attr-missing", "reading a missing attribute: " + w + " instead of invalid_argument");
    try { h.read_data_attr<std::string>("no such key"); w = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { w = e.what(); }
    expect(c, w.empty(), "attr-missing", "reading a missing string attribute: " + w + " instead of invalid_argument");
    try { h.read_data_attr<std::string>("machine_id"); w = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { w = e.what(); }
    expect(c, w.empty(), "attr-not-a-string", "reading a number as a string: " + w + " instead of invalid_argument");
}
// values at the ends of the type they are stored as, read as every type that can hold them
void attr_extremes(Ctx &c) {
    quiet_h5();
    static const std::vector<NT> &ts = types();
    auto &t = ts[c.choose((int)ts.size(), "stored as")];
    std::string n = t.name;
    int bits = std::stoi(n.substr(1));
    int which = c.choose(t.fl ? 7 : 6, "value");
    long double v = 0; uint64_t u = 0; int64_t i = 0; double d = 0;
    if (t.fl) {
        static const double f32s[] = {3.4028234663852886e38, -3.4028234663852886e38, 1.17549435e-38f, 0.1f, -16777215.0, 16777216.0, 2147483648.0};
        static const double f64s[] = {1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.1, -9007199254740991.0, 60000.123456789012, 8421386717.353016};
        d = bits == 32 ? f32s[which] : f64s[which]; v = d;
    } else {
        bool uns = n[0] == 'u';
        uint64_t top = uns ? (bits == 64 ? ~0ull : (1ull << bits) - 1) : (1ull << (bits - 1)) - 1;
        switch (which) {
        case 0: u = top; break;
        case 1: u = top - 1; break;
        case 2: u = top / 2 + 1; break;      // the sign bit of the stored type (or half of its range)
        case 3: u = top / 2; break;
        case 4: u = uns ? 0x5a : (uint64_t)(-(int64_t)top - 1); break;
        default: u = uns ? 3 : (uint64_t)-1; break;
        }
        i = (int64_t)u; v = uns ? (long double)u : (long double)i;
    }
    std::string path = tmp("ext.h5");
    FileSpec f; f.T = 1; f.N = 2; f.has_machine = false;
    write_h5(path, f);
    {
        H5::H5File file(path, H5F_ACC_RDWR);
        auto ds = file.openDataSet("data");
        H5::DataSpace sp;
        auto a = ds.createAttribute("value", t.t, sp);
        if (t.fl) a.write(H5::PredType::NATIVE_DOUBLE, &d); else if (n[0] == 'u') a.write(H5::PredType::NATIVE_UINT64, &u); else a.write(H5::PredType::NATIVE_INT64, &i);
    }
    std::string what = mc::str((double)v) + " (" + mc::str(which) + ") stored as " + n;
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    h5_filterbank_file h(path);
    auto one = [&](const char *nm, auto z) {
        using T = decltype(z);
        if constexpr (std::is_integral_v<T>) { if (v != std::floor(v) || v < (long double)std::numeric_limits<T>::lowest() || v > (long double)std::numeric_limits<T>::max()) return; }
        else if (std::is_same_v<T, float> && std::fabs((double)v) > 3.4028234663852886e38) return;
        T got = h.read_data_attr<T>("value");
        T want = (T)v;
        expect(c, got == want, "attr-extreme", what + " is read as " + nm + " " + mc::str((double)got));
    };
    one("float", 0.0f); one("double", 0.0); one("u8", (uint8_t)0); one("u16", (uint16_t)0); one("u32", (uint32_t)0); one("u64", (uint64_t)0);
    one("i8", (int8_t)0); one("i16", (int16_t)0); one("i32", (int32_t)0); one("i64", (int64_t)0);
    c.outcome(mc::hash_str(what));
}
void data_types(Ctx &c) {
    quiet_h5();
    auto &t = types()[c.choose((int)types().size(), "data type")];
    FileSpec f; f.T = c.pick(std::vector<int64_t>{1, 2, 3}, "T"); f.N = c.pick(std::vector<int64_t>{1, 2, 6}, "N"); f.data_store = t.t;
    bool chunked = c.flip("chunked");
    if (chunked) f.chunk = {1, 1, (hsize_t)std::max<int64_t>(1, f.N / 2)};
    f.mask = c.flip("mask dataset");
    std::vector<float> d;
    for (int64_t k = 0; k < f.T * f.N; ++k) d.push_back(t.fl ? k * 0.5f - 3 : (float)(k * 5 + 1));
    f.data = d;
    std::string what = std::string("data stored as ") + t.name + " T=" + mc::str(f.T) + " N=" + mc::str(f.N) + (chunked ? " chunked" : "");
    std::string name = "dt_" + std::string(t.name) + mc::str(f.T) + "_" + mc::str(f.N) + "_" + mc::str(chunked) + mc::str(f.mask);
    int64_t fpc = c.choose(2, "whole/halves") && f.N > 1 ? f.N / 2 : f.N;
    c.step();
    scan s(cached_h5(name, f), (int)fpc);
    check_meta(c, s, f, fpc, what);
    check_channels(c, s, f, fpc, &d, what);
    h5_filterbank_file h(cached_h5(name, f));
    check_pixels(c, h.read_data(), 0, 0, {f.T, f.N}, &d, f.N, what);
    c.outcome(mc::hash_str(what));
}
void optional_attrs(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = 2; f.N = 4; f.nifs = 1;
    bool *flags[] = {&f.has_machine, &f.has_az, &f.has_za, &f.has_dtype, &f.has_nbits, &f.has_nchans, &f.has_nifs};
    static const char *names[] = {"machine_id", "az_start", "za_start", "data_type", "nbits", "nchans", "nifs"};
    std::string what = "absent:", name = "opt_";
    for (int i = 0; i < 7; ++i) { *flags[i] = !c.flip(names[i]); name += mc::str(*flags[i]); if (!*flags[i]) what += std::string(" ") + names[i]; }
    int required = c.choose(9, "required attribute");
    static const char *req[] = {"", "fch1", "foff", "tsamp", "tstart", "src_raj", "src_dej", "telescope_id", "source_name"};
    if (required) { f.omit.insert(req[required]); what += std::string(" (required) ") + req[required]; name += req[required]; }
    f.file_attrs = !c.flip("no file attributes");
    name += mc::str(f.file_attrs);
    int64_t fpc = c.pick(std::vector<int64_t>{2, 4, 0}, "fine per coarse");
    auto p = write_h5(tmp("opt.h5"), f);
    MC_NOTE(c, what);
    c.step();
    if (required) {
        std::string w;
        try { scan s(p, (int)fpc); w = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { w = e.what(); }
        expect(c, w.empty(), "required-missing", what + ": opening gave " + w + " instead of invalid_argument");
        return;
    }
    scan s(p, (int)fpc);
    if (fpc == 0) fpc = 4;
    check_meta(c, s, f, fpc, what);
    check_channels(c, s, f, fpc, nullptr, what);
    c.outcome(mc::hash_str(what));
}
void strings(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = 1; f.N = 2;
    f.source = c.pick(std::vector<std::string>{"Voyager-1", "", "a", "HIP 12345 (\xc3\xa9)", std::string(300, 'n'), "with {} braces"}, "source");
    int form = c.choose(5, "stored");      // variable / fixed exact / fixed padded 1, 7 / space padded
    f.fixed_string = form > 0; f.fixed_pad = form == 2 ? 1 : form == 3 ? 7 : form == 4 ? 3 : 0; f.space_pad = form == 4;
    c.assume(!(form == 4 && f.source.empty()));
    f.cls = c.pick(std::vector<std::string>{"FILTERBANK", "", "SOMETHING {}", "OTHER"}, "CLASS");
    f.version = c.pick(std::vector<std::string>{"1.0", "2.0", "", "9.9", "{0} {1}"}, "VERSION");
    static const char *fn[] = {"variable length", "fixed length", "fixed length +1", "fixed length +7", "fixed length, space padded"};
    std::string what = "source name '" + f.source.substr(0, 20) + "' stored as " + fn[form] + ", CLASS '" + f.cls + "', VERSION '" + f.version + "'";
    MC_NOTE(c, what);
    c.step();
    auto p = write_h5(tmp("str.h5"), f);
    if (form == 4) f.source = f.source + "";
    scan s(p, 2);
    check_meta(c, s, f, 2, what);
    c.outcome(mc::hash_str(what));
}
void layouts(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = c.pick(std::vector<int64_t>{1, 2, 3}, "T"); f.N = c.pick(std::vector<int64_t>{4, 6}, "N");
    int kind = c.choose(10, "layout");
    f.fixed_labels = c.flip("fixed length labels");
    bool ok = true;
    std::string what;
    switch (kind) {
    case 0: what = "time, feed_id, frequency"; break;
    case 1: what = "labels of time and frequency swapped (known from some files)"; f.labels = {"frequency", "feed_id", "time"}; break;
    case 2: { int at = c.choose(4, "position"); what = "an extra axis of size 1 at " + mc::str(at); f.dims = {(hsize_t)f.T, 1, (hsize_t)f.N}; f.dims.insert(f.dims.begin() + at, 1); f.labels.insert(f.labels.begin() + at, "beam"); break; }
    case 3: { int at = c.choose(4, "position"); what = "an extra axis of size 2 at " + mc::str(at); f.dims = {(hsize_t)f.T, 1, (hsize_t)f.N}; f.dims.insert(f.dims.begin() + at, 2); f.labels.insert(f.labels.begin() + at, "beam"); ok = false; break; }
    case 4: what = "two feeds"; f.dims = {(hsize_t)f.T, 2, (hsize_t)f.N}; ok = false; break;
    case 5: what = "no labels"; f.has_labels = false; ok = false; break;
    case 6: what = "fewer labels than axes"; f.labels = {"time", "feed_id"}; ok = false; break;
    case 7: what = "two axes only"; f.dims = {(hsize_t)f.T, (hsize_t)f.N}; f.labels = {"time", "frequency"}; ok = false; break;
    case 8: what = "unknown label"; f.labels = {"time", "feed_id", "channel"}; ok = false; break;
    case 9: what = "more labels than axes"; f.labels.push_back("more"); break;
    }
    if (kind == 1) c.assume(f.T != f.N);
    f.data_written = ok;
    what += std::string(f.fixed_labels ? " (fixed length labels)" : "") + " T=" + mc::str(f.T) + " N=" + mc::str(f.N);
    MC_NOTE(c, what);
    c.step();
    auto p = write_h5(tmp("lay.h5"), f);
    if (!ok) {
        std::string w;
        try { scan s(p, 2); s.read_coarse_channel(0)->data(); w = "nothing"; } catch (std::invalid_argument &) {} catch (std::exception &e) { w = e.what(); } catch (H5::Exception &e) { w = e.getDetailMsg(); }
        expect(c, w.empty(), "layout-accepted", what + ": opening gave " + w + " instead of invalid_argument");
        return;
    }
    scan s(p, 2);
    check_meta(c, s, f, 2, what);
    check_channels(c, s, f, 2, nullptr, what);
    h5_filterbank_file h(p);
    expect(c, h.get_data_shape() == (Shape{f.T, 1, f.N}), "get-data-shape", what + ": " + mc::str(h.get_data_shape()));
    check_pixels(c, h.read_data(), 0, 0, {f.T, f.N}, nullptr, f.N, what);
    c.outcome(mc::hash_str(what));
}
// every way to label three or four axes: samples are found by the labels of their axes, or the file is refused
void labels(Ctx &c) {
    quiet_h5();
    static const std::vector<std::string> L{"time", "feed_id", "frequency", "beam"};
    FileSpec f; f.T = c.pick(std::vector<int64_t>{1, 2, 4}, "T"); f.N = c.pick(std::vector<int64_t>{2, 4, 8}, "N");
    f.has_nchans = c.flip("nchans");
    int axes = 3 + c.choose(2, "axes");
    f.labels.clear();
    int at[4] = {-1, -1, -1, -1};
    for (int k = 0; k < axes; ++k) {
        int l = c.choose(4, "label");
        f.labels.push_back(L[l]);
        bool first = at[l] < 0; if (first) at[l] = k;
        f.dims.push_back(first && l == 0 ? f.T : first && l == 2 ? f.N : 1);
    }
    bool complete = at[0] >= 0 && at[1] >= 0 && at[2] >= 0, ordered = at[0] < at[2] || f.T == 1;
    for (int64_t a = 0; a < (at[0] < at[2] ? f.T : f.N); ++a) for (int64_t b = 0; b < (at[0] < at[2] ? f.N : f.T); ++b) if (complete) f.data.push_back(at[0] < at[2] ? FileSpec::label(a, b) : FileSpec::label(b, a));
    f.data_written = complete;
    std::string what = "axes"; for (int k = 0; k < axes; ++k) what += " " + f.labels[k] + ":" + mc::str(f.dims[k]);
    what += f.has_nchans ? "" : " without nchans";
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    auto p = write_h5(tmp("lab.h5"), f);
    std::string err, inv;
    auto attempt = [&](auto run) { err.clear(); inv.clear(); try { run(); } catch (mc::Fail &) { throw; } catch (std::invalid_argument &e) { err = inv = std::string("refused: ") + e.what(); } catch (std::exception &e) { err = std::string("failed: ") + e.what(); } catch (H5::Exception &e) { err = "failed: " + e.getDetailMsg(); } };
    auto judge = [&](const std::string &of) {
        if (!complete) expect(c, !err.empty(), "label-missing", what + ": " + of + " of a file without all of its axes");
        else expect(c, err.empty() || !ordered, "label-refused", what + ": " + of + " " + err);
    };
    attempt([&] { h5_filterbank_file h(p); expect(c, h.get_data_shape() == (Shape{f.T, 1, f.N}) || !complete, "get-data-shape", what + ": " + mc::str(h.get_data_shape())); });
    judge("the shape");
    attempt([&] { h5_filterbank_file h(p); auto d = h.read_data(); if (complete) check_pixels(c, d, 0, 0, {f.T, f.N}, nullptr, f.N, what); });
    judge("all data");
    attempt([&] { h5_filterbank_file h(p); auto d = h.read_data({f.T - 1, 0, f.N / 2}, {1, 1, f.N / 2}); if (complete) check_pixels(c, d, f.T - 1, f.N / 2, {1, f.N / 2}, nullptr, f.N, what); });
    judge("a window");
    for (int64_t fpc : {f.N, f.N / 2, (int64_t)2}) for (int64_t k = 0; k < f.N / fpc; ++k) {
        attempt([&] { scan s(p, fpc); auto d = s.read_coarse_channel(k)->data(); if (complete) check_pixels(c, d, 0, k * fpc, {f.T, fpc}, nullptr, f.N, what + " channel " + mc::str(k) + " of " + mc::str(fpc)); });
        judge("coarse channel " + mc::str(k) + " of " + mc::str(fpc));
    }
    c.outcome(mc::hash_str(err));
}
// every window of a small file, valid or not
void windows(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = c.pick(std::vector<int64_t>{1, 3, 4}, "T"); f.N = c.pick(std::vector<int64_t>{1, 4, 6}, "N");
    bool extra = c.flip("extra axis");
    if (extra) { f.dims = {(hsize_t)f.T, 1, 1, (hsize_t)f.N}; f.labels = {"time", "feed_id", "beam", "frequency"}; }
    h5_filterbank_file h(cached_h5("win" + mc::str(f.T) + "_" + mc::str(f.N) + mc::str(extra), f));
    int form = c.choose(3, "offset+count / offset / nothing");
    int64_t t0 = 0, n0 = 0, tc = f.T, nc = f.N;
    std::vector<int64_t> off, cnt;
    if (form < 2) { t0 = c.choose(f.T + 1, "t0"); n0 = c.choose(f.N + 1, "n0"); off = {t0, 0, n0}; tc = f.T - t0; nc = f.N - n0; }
    if (form == 0) { tc = c.choose(f.T + 2, "nt"); nc = c.choose(f.N + 2, "nn"); cnt = {tc, 1, nc}; }
    c.assume(tc > 0 && nc > 0);      // empty windows are outside this space
    std::string what = "window t " + mc::str(t0) + "+" + mc::str(tc) + ", channels " + mc::str(n0) + "+" + mc::str(nc) + " of " + mc::str(f.T) + "x" + mc::str(f.N);
    MC_NOTE(c, what);
    c.step();
    if (t0 + tc > f.T || n0 + nc > f.N) {
        auto w = thrown([&] { h.read_data(off, cnt); });
        expect(c, !w.empty(), "window-outside", what + " was read although it is not inside the file");
        return;
    }
    check_pixels(c, h.read_data(off, cnt), t0, n0, {tc, nc}, nullptr, f.N, what);
    auto m = h.read_mask(off, cnt);
    expect(c, m.shape() == (Shape{tc, nc}) && m.dtype() == bl::dl(bl::U8), "mask-shape", what + ": mask has shape " + mc::str(m.shape()));
    for (double v : bl::values(m)) expect(c, v == 0, "mask-value", what);
    c.outcome(mc::hash_str(what));
}
// the way samples are stored in the file, at sizes where it matters
void storage(Ctx &c) {
    quiet_h5();
    struct S { int64_t T, N, fpc; };
    auto z = c.pick(mc::thorough() ? std::vector<S>{{16, 9000, 3000}, {3, 70001, 70001}, {279, 640, 64}, {2, 65536, 128}, {1, 600, 2}, {5, 131072, 65536}} : std::vector<S>{{16, 9000, 3000}, {3, 70001, 70001}, {279, 640, 64}, {1, 600, 2}}, "size");
    int st = c.choose(6, "storage"), type = c.choose(3, "samples");
    FileSpec f; f.T = z.T; f.N = z.N;
    f.mask = c.flip("mask");
    hsize_t n = z.N;
    if (st == 1) f.chunk = {1, 1, std::max<hsize_t>(1, n / 7)};
    if (st == 2) f.chunk = {(hsize_t)z.T, 1, std::min<hsize_t>(n, 1000)};
    if (st == 3) f.chunk = {std::min<hsize_t>(z.T, 5), 1, std::min<hsize_t>(n, 4097)};
    if (st >= 4) { f.chunk = {std::min<hsize_t>(z.T, 3), 1, std::min<hsize_t>(n, 2048)}; f.deflate = st == 4 ? 1 : 9; f.shuffle = st == 5; }
    if (type == 1) f.data_store = H5::PredType::IEEE_F32BE;
    if (type == 2) { f.data_store = H5::PredType::STD_U8LE; f.nbits = 8; }
    std::vector<float> data;
    for (int64_t t = 0; t < z.T; ++t) for (int64_t k = 0; k < z.N; ++k) data.push_back(type == 2 ? (t * 37 + k * 11 + k / 256) % 256 : FileSpec::label(t, k) + (k % 4) * 0.25f);
    f.data = data;
    std::string what = mc::str(z.T) + "x" + mc::str(z.N) + " samples of type " + mc::str(type) + " in storage " + mc::str(st) + (f.mask ? ", with a mask" : "");
    MC_NOTE(c, what); c.state(mc::hash_str(what)); c.outcome(mc::hash_str(what));
    auto path = write_h5(tmp("storage.h5"), f);
    auto all = [&](const bl::ndarray &d, int64_t t0, int64_t n0, int64_t tc, int64_t nc, const std::string &w) {
        expect(c, d.shape() == (Shape{tc, nc}), "data-shape", w + ": shape " + mc::str(d.shape()));
        auto v = bl::values(d);
        for (int64_t t = 0; t < tc; ++t) for (int64_t k = 0; k < nc; ++k)
            MC_CHECK(c, v[t * nc + k] == data[(t0 + t) * z.N + n0 + k], "data-value", w + ": [" + mc::str(t) + "," + mc::str(k) + "] is " + mc::str(v[t * nc + k]) + ", the file has " + mc::str(data[(t0 + t) * z.N + n0 + k]));
    };
    {
        h5_filterbank_file h(path);
        struct W { int64_t t0, n0, tc, nc; };
        for (auto &w : std::vector<W>{{0, 0, z.T, z.N}, {z.T - 1, z.N - 1, 1, 1}, {z.T / 2, z.N / 3, z.T - z.T / 2, z.N / 2}, {0, z.N - 77, z.T, 77}, {z.T - 1, 0, 1, z.N}}) {
            c.step();
            all(h.read_data({w.t0, 0, w.n0}, {w.tc, 1, w.nc}), w.t0, w.n0, w.tc, w.nc, what + " window " + mc::str(w.t0) + "," + mc::str(w.n0) + "+" + mc::str(w.tc) + "," + mc::str(w.nc));
        }
    }
    scan s(path, (int)z.fpc);
    check_meta(c, s, f, z.fpc, what);
    int64_t m = z.N / z.fpc;
    for (int64_t k : std::set<int64_t>{0, m / 2, m - 2, m - 1, std::min<int64_t>(m - 1, 255), std::min<int64_t>(m - 1, 256)}) {
        if (k < 0) continue;
        c.step();
        auto cc = s.read_coarse_channel((int)k);
        all(cc->data(), 0, k * z.fpc, z.T, z.fpc, what + " coarse channel " + mc::str(k));
        expect(c, cc->mask().shape() == (Shape{z.T, z.fpc}), "mask-shape", what);
        expect(c, std::fabs(cc->fch1() - (f.fch1 + k * z.fpc * f.foff)) < 1e-9 * std::fabs(f.fch1) && cc->nchans() == z.fpc, "channel-meta", what + ": channel " + mc::str(k) + " starts at " + mc::str(cc->fch1()));
    }
}
// how a band is cut into coarse channels
void channelization(Ctx &c) {
    quiet_h5();
    struct K { int64_t fine; double foff, tsamp; };
    static const std::vector<K> known{{1033216, 2.84, 17.98}, {8, 366210.0, 0.00034953}, {1024, 2860.0, 1.06}, {999424, 2.93, 17.4}, {1024, 2860.0, 1.02}, {1048576, 2.79, 18.25}, {1024, 2860.0, 1.07}};
    FileSpec f; f.T = 1; f.data_written = false;
    int mode = c.choose(3, "known/unknown/given");
    int64_t fpc = 0, want = 0;
    if (mode == 0) {
        auto &k = known[c.choose((int)known.size(), "scheme")];
        int64_t n = c.pick(std::vector<int64_t>{1, 2, 3, 7, 64}, "coarse channels");
        f.N = k.fine * n; f.foff = (c.flip("sign") ? 1 : -1) * (k.foff + c.pick(std::vector<double>{0.0, 0.05, -0.05}, "foff off by")) * 1e-6; f.tsamp = k.tsamp; want = k.fine;
    } else if (mode == 1) {
        static const std::vector<int64_t> base{1, 2, 8, 1000, 1024, (1 << 18) - 1, 1 << 18, (1 << 18) + 1, 3 * (1 << 18), 3 * (1 << 18) + 3, 3 * (1 << 18) + 2, 1000000, 1000001, 3000000, 3000003, 999999, 64000000, 67108864, 64 * 1033216, 100000007,
                                               (1 << 20) + 5, 7 * (1 << 18) + 14, 2147483647};
        f.N = c.pick(base, "nchans");
        f.foff = -1e-6 * c.pick(std::vector<double>{2.0, 2.79, 1000.0}, "foff"); f.tsamp = c.pick(std::vector<double>{1.0, 18.25}, "tsamp");
    } else {
        f.N = c.pick(std::vector<int64_t>{1, 6, 8, 12, 1 << 20}, "nchans");
        fpc = c.pick(std::vector<int64_t>{1, 2, 3, 4, 6}, "per coarse");
        c.assume(fpc <= f.N);
    }
    std::string what = mc::str(f.N) + " channels, foff " + mc::str(f.foff * 1e6) + " Hz, tsamp " + mc::str(f.tsamp);
    MC_NOTE(c, what);
    c.step();
    scan s(write_h5(tmp("chan.h5"), f), (int)fpc);
    int64_t n = s.get_number_coarse_channels();
    expect(c, s.nchans() == f.N, "channelization-nchans", what);
    if (fpc) { expect(c, n == f.N / fpc, "channelization-given", what + ": " + mc::str(n) + " coarse channels of " + mc::str(fpc)); }
    else {
        expect(c, n >= 1 && f.N % n == 0, "channelization-partition", what + ": " + mc::str(n) + " coarse channels do not divide the band evenly");
        if (mode == 0) expect(c, n == f.N / want, "channelization-known", what + ": " + mc::str(n) + " coarse channels, the known scheme has " + mc::str(want) + " fine channels each");
        else if (f.N < (1 << 18)) expect(c, n == 1, "channelization-small", what + ": " + mc::str(n) + " coarse channels");
        else expect(c, n >= 1 && (n == 1 || f.N / n >= 1 << 18), "channelization-size", what);
    }
    int64_t per = fpc ? fpc : f.N / n;
    // the first and last channel of the band: frequency and size
    for (int64_t k : {(int64_t)0, n - 1}) {
        auto cc = s.read_coarse_channel((int)k);
        expect(c, cc->nchans() == per && bl::close(cc->fch1(), f.fch1 + f.foff * per * k, 1e-12, 0), "channelization-channel", what + ": channel " + mc::str(k) + " starts at " + mc::str(cc->fch1()) + " MHz");
        for (double fr : {0.0, 0.5, 0.999}) {
            double x = f.fch1 + f.foff * (per * k + per * fr);
            if (fpc && f.N % fpc) continue;
            if (fr == 0.0 && k) x = f.fch1 + f.foff * (per * k + 0.001 * per);
            expect(c, s.get_coarse_channel_with_frequency(x) == k, "channelization-lookup", what + ": " + mc::str(x) + " MHz is looked up to " + mc::str(s.get_coarse_channel_with_frequency(x)) + ", expected " + mc::str(k));
        }
    }
    c.outcome(mc::hash_str(what + mc::str(n)));
}
// a file cut short is refused, never misread
void cut_files(Ctx &c) {
    quiet_h5();
    FileSpec f; f.T = 2; f.N = 8;
    bool chunked = c.flip("chunked");
    if (chunked) f.chunk = {1, 1, 4};
    auto p = cached_h5(chunked ? "cutc" : "cut", f);
    static std::map<std::string, std::string> memo;
    auto &b = memo[p];
    if (b.empty()) { std::ifstream i(p, std::ios::binary); b.assign(std::istreambuf_iterator<char>(i), {}); }
    int stepb = mc::thorough() ? 1 : 16;
    size_t cut = stepb * c.choose((int)(b.size() / stepb) + 1, "cut");
    std::ofstream(tmp("cut.h5"), std::ios::binary | std::ios::trunc).write(b.data(), cut);
    c.step();
    auto w = thrown([&] {
        scan s(tmp("cut.h5"), 4);
        check_meta(c, s, f, 4, "cut file");
        check_channels(c, s, f, 4, nullptr, "file cut after " + mc::str(cut) + " of " + mc::str(b.size()) + " bytes");
    });
    if (cut == b.size()) expect(c, w.empty(), "whole-file-refused", w);
    c.outcome(w.empty());
}
} // namespace

MC_PROPERTY(H01) {
    mc::explore("attribute-types", attr_types);
    mc::explore("attribute-reader", attr_reader);
    mc::explore("attribute-extremes", attr_extremes);
    mc::explore("data-types", data_types);
    mc::explore("optional-attributes", optional_attrs);
    mc::explore("strings", strings);
    mc::explore("layouts", layouts);
    mc::explore("labels", labels);
    mc::explore("windows", windows);
    mc::explore("storage", storage);
    mc::explore("channelization", channelization);
    mc::explore("cut-files", cut_files);
}
