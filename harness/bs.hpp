// Helpers over bliss objects: filterbank file writer, coarse channel builder, temporary files.
#pragma once
#include "bl.hpp"
#include <H5Cpp.h>
#include <core/cadence.hpp>
#include <core/scan.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <fstream>
#include <set>
#include <optional>
#include <unistd.h>

namespace bs {
using bl::Shape;
using mc::Ctx;

struct FileSpec {
    int64_t T = 2, N = 8;
    double  fch1 = 1024.0, foff = -0.25, tsamp = 2.0, tstart = 60000.5;
    double  raj = 5.5, dej = -12.25, az = 33.5, za = 44.25;
    int64_t machine = 17, telescope = 6, data_type = 1, nbits = 32, nifs = 1;
    std::string source = "Voyager-1";
    bool has_machine = true, has_az = true, has_za = true, has_dtype = true, has_nbits = true, has_nchans = true, has_nifs = true;
    bool fixed_string = false;             // source_name as a fixed length string
    int  fixed_pad = 0;                    // extra bytes in the fixed string
    bool mask = false;
    std::vector<std::string> labels{"time", "feed_id", "frequency"};
    std::vector<hsize_t> dims;             // default {T,1,N}
    H5::PredType int_type = H5::PredType::NATIVE_INT64, float_type = H5::PredType::NATIVE_DOUBLE, data_store = H5::PredType::NATIVE_FLOAT;
    bool file_attrs = true;
    std::string cls = "FILTERBANK", version = "1.0";
    bool fixed_labels = false, has_labels = true, space_pad = false, data_written = true;
    std::set<std::string> omit;            // further attributes to leave out
    std::vector<hsize_t> chunk;
    int deflate = 0; bool shuffle = false;
    std::vector<float> data;               // default label(t,ch)
    static float label(int64_t t, int64_t ch) { return (float)(1000 * (t + 1) + ch); }
};
template <typename L> void put_attr(L &obj, const char *k, const H5::DataType &t, const void *v) { obj.createAttribute(k, t, H5::DataSpace()).write(t, v); }
template <typename L> void put_int(L &obj, const char *k, H5::PredType t, int64_t v) {
    H5::DataSpace sp;
    obj.createAttribute(k, t, sp).write(H5::PredType::NATIVE_INT64, &v);
}
template <typename L> void put_float(L &obj, const char *k, H5::PredType t, double v) {
    H5::DataSpace sp;
    obj.createAttribute(k, t, sp).write(H5::PredType::NATIVE_DOUBLE, &v);
}
inline std::string write_h5(const std::string &path, const FileSpec &f) {
    H5::H5File file(path, H5F_ACC_TRUNC);
    std::vector<hsize_t> dims = f.dims.empty() ? std::vector<hsize_t>{(hsize_t)f.T, 1, (hsize_t)f.N} : f.dims;
    H5::DSetCreatPropList pl;
    if (!f.chunk.empty()) pl.setChunk(f.chunk.size(), f.chunk.data());
    if (f.shuffle) pl.setShuffle();
    if (f.deflate) pl.setDeflate(f.deflate);
    auto ds = file.createDataSet("data", f.data_store, H5::DataSpace(dims.size(), dims.data()), pl);
    if (f.data_written) {
        std::vector<float> data = f.data;
        if (data.empty()) for (int64_t t = 0; t < f.T; ++t) for (int64_t c = 0; c < f.N; ++c) data.push_back(FileSpec::label(t, c));
        ds.write(data.data(), H5::PredType::NATIVE_FLOAT);
    }
    H5::StrType vs(H5::PredType::C_S1, H5T_VARIABLE);
    if (f.has_labels) {
        hsize_t n = f.labels.size();
        if (f.fixed_labels) {
            H5::StrType st(H5::PredType::C_S1, 12);
            std::string b;
            for (auto s : f.labels) { s.resize(12, '\0'); b += s; }
            ds.createAttribute("DIMENSION_LABELS", st, H5::DataSpace(1, &n)).write(st, b.data());
        } else {
            std::vector<const char *> l;
            for (auto &s : f.labels) l.push_back(s.c_str());
            ds.createAttribute("DIMENSION_LABELS", vs, H5::DataSpace(1, &n)).write(vs, l.data());
        }
    }
    auto pf = [&](const char *k, double v) { if (!f.omit.count(k)) put_float(ds, k, f.float_type, v); };
    auto pi = [&](const char *k, int64_t v) { if (!f.omit.count(k)) put_int(ds, k, f.int_type, v); };
    pf("fch1", f.fch1); pf("foff", f.foff); pf("tsamp", f.tsamp); pf("tstart", f.tstart); pf("src_raj", f.raj); pf("src_dej", f.dej);
    if (f.has_az) pf("az_start", f.az);
    if (f.has_za) pf("za_start", f.za);
    if (f.has_machine) pi("machine_id", f.machine);
    pi("telescope_id", f.telescope);
    if (f.has_dtype) pi("data_type", f.data_type);
    if (f.has_nbits) pi("nbits", f.nbits);
    if (f.has_nchans) pi("nchans", f.N);
    if (f.has_nifs) pi("nifs", f.nifs);
    if (f.omit.count("source_name")) {
    } else if (f.fixed_string) {
        H5::StrType st(H5::PredType::C_S1, std::max<size_t>(1, f.source.size() + f.fixed_pad));
        if (f.space_pad) H5Tset_strpad(st.getId(), H5T_STR_SPACEPAD);
        else if (f.fixed_pad == 0) H5Tset_strpad(st.getId(), H5T_STR_NULLPAD);
        std::string b = f.source; b.resize(std::max<size_t>(1, f.source.size() + f.fixed_pad), f.space_pad ? ' ' : '\0');
        ds.createAttribute("source_name", st, H5::DataSpace()).write(st, b.data());
    } else { const char *p = f.source.c_str(); ds.createAttribute("source_name", vs, H5::DataSpace()).write(vs, &p); }
    if (f.file_attrs) {
        const char *c = f.cls.c_str(), *v = f.version.c_str();
        if (!f.cls.empty()) file.createAttribute("CLASS", vs, H5::DataSpace()).write(vs, &c);
        if (!f.version.empty()) file.createAttribute("VERSION", vs, H5::DataSpace()).write(vs, &v);
    }
    if (f.mask) {
        auto m = file.createDataSet("mask", H5::PredType::NATIVE_UINT8, H5::DataSpace(dims.size(), dims.data()));
        hsize_t n = 1; for (auto d : dims) n *= d;
        std::vector<uint8_t> z(n, 0);
        m.write(z.data(), H5::PredType::NATIVE_UINT8);
    }
    return path;
}
// one file per (name) per process: content is a function of the name
inline std::string cached_h5(const std::string &name, const FileSpec &f) {
    static std::map<std::string, std::string> done;
    auto &p = done[name];
    if (p.empty()) p = write_h5(mc::scratch() + "/" + name + ".h5", f);
    return p;
}
struct CC {
    int64_t T = 3, N = 4;
    double fch1 = 1024.0, foff = -0.25, tsamp = 2.0, tstart = 60000.5;
    int64_t number = 0, nbits = 32;
    std::string source = "src";
    std::vector<double> data;      // default zeros
    std::vector<double> mask;      // default zeros
};
inline bliss::coarse_channel make_cc(const CC &s) {
    auto d = s.data, m = s.mask;
    d.resize(s.T * s.N, 0); m.resize(s.T * s.N, 0);
    return bliss::coarse_channel(bl::make({s.T, s.N}, bl::F32, d), bl::make({s.T, s.N}, bl::U8, m), s.fch1, s.foff, (int64_t)17, s.nbits, s.N, s.T, (int64_t)1,
                                 s.source, -12.25, 5.5, (int64_t)6, s.tsamp, s.tstart, (int64_t)1, 33.5, 44.25, s.number);
}
inline bliss::scan make_scan(const std::vector<CC> &cs) {
    std::map<int, std::shared_ptr<bliss::coarse_channel>> m;
    for (size_t i = 0; i < cs.size(); ++i) m[(int)i] = std::make_shared<bliss::coarse_channel>(make_cc(cs[i]));
    return bliss::scan(m);
}
// applies f to coarse channels (level 0), scans (1), observations (2) or one cadence (3) of different channels, split into 2 observations of 2 scans
// (the last with one more channel than the others), and gives back every channel read from the result, in order
template <typename F> std::vector<bliss::coarse_channel> at_level(int level, const std::vector<CC> &cs, F f, int reads = 2) {
    std::vector<bliss::coarse_channel> out;
    if (level == 0) { for (auto &x : cs) out.push_back(f(make_cc(x))); return out; }
    std::vector<std::vector<CC>> parts(4);
    for (size_t i = 0; i < cs.size(); ++i) parts[std::min<size_t>(i / std::max<size_t>(1, cs.size() / 4), 3)].push_back(cs[i]);
    std::vector<bliss::scan> sc;
    for (auto &p : parts) if (!p.empty()) sc.push_back(make_scan(p));
    if (level == 1) { for (auto &x : sc) x = f(x); }
    else {
        size_t half = (sc.size() + 1) / 2;
        std::vector<bliss::observation_target> ot{bliss::observation_target(std::vector<bliss::scan>(sc.begin(), sc.begin() + half)),
                                                  bliss::observation_target(std::vector<bliss::scan>(sc.begin() + half, sc.end()))};
        if (level == 2) { for (auto &x : ot) x = f(x); }
        else { bliss::cadence ca(ot); ca = f(ca); ot = ca._observations; }
        sc.clear();
        for (auto &o : ot) for (auto &x : o._scans) sc.push_back(x);
    }
    for (auto &x : sc) for (int k = 0; k < x.get_number_coarse_channels(); ++k) {
        for (int r = 0; r + 1 < reads; ++r) (void)x.read_coarse_channel(k);
        out.push_back(*x.read_coarse_channel(k));
    }
    return out;
}
// runs f, returns what it threw ("" if nothing)
template <typename F> std::string thrown(F f) {
    try { f(); return ""; }
    catch (mc::Fail &) { throw; } catch (mc::Skip &) { throw; } catch (mc::Divergence &) { throw; }
    catch (H5::Exception &e) { return "H5: " + e.getDetailMsg(); }
    catch (std::exception &e) { std::string w = e.what(); return w.empty() ? "exception" : w; }
}
inline void quiet_h5() { static bool once = [] { H5::Exception::dontPrint(); return true; }(); (void)once; }
} // namespace bs
