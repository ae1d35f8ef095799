// Helpers over bland arrays used by the harnesses: element access through the public shape/stride/offset description,
// array construction in many memory layouts, and a plain nested-index reference view.
#pragma once
#include "mc.hpp"
#include <bland/bland.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <numeric>

namespace bl {
using Shape = std::vector<int64_t>;
using bland::ndarray;

inline bland::ndarray_slice cut(const ndarray &a, int64_t d, int64_t s, int64_t e, int64_t st = 1) { return bland::slice(a, d, s, e, st); }
inline int64_t numel(const Shape &s) { int64_t n = 1; for (auto v : s) n *= v; return n; }
inline Shape unravel(int64_t flat, const Shape &s) {
    Shape i(s.size());
    for (int d = (int)s.size() - 1; d >= 0; --d) { i[d] = flat % s[d]; flat /= s[d]; }
    return i;
}
inline int64_t ravel(const Shape &i, const Shape &s) {
    int64_t f = 0;
    for (size_t d = 0; d < s.size(); ++d) f = f * s[d] + i[d];
    return f;
}
inline bool next(Shape &i, const Shape &s) {
    for (int d = (int)s.size() - 1; d >= 0; --d) { if (++i[d] < s[d]) return true; i[d] = 0; }
    return false;
}

// ---- dtypes
enum DT { F32, F64, I8, I16, I32, I64, U8, U16, U32, U64 };
inline const std::vector<DT> &all_dtypes() { static std::vector<DT> v{F32, F64, I8, I16, I32, I64, U8, U16, U32, U64}; return v; }
inline const char *name(DT t) { static const char *n[] = {"f32", "f64", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"}; return n[t]; }
inline DLDataType dl(DT t) {
    using D = ndarray::datatype;
    static const DLDataType v[] = {D::float32, D::float64, D::int8, D::int16, D::int32, D::int64, D::uint8, D::uint16, D::uint32, D::uint64};
    return v[t];
}
inline bool is_float(DT t) { return t <= F64; }
inline bool is_unsigned(DT t) { return t >= U8; }
inline DT of(DLDataType d) {
    for (DT t : all_dtypes()) { auto x = dl(t); if (x.code == d.code && x.bits == d.bits) return t; }
    throw std::runtime_error("harness: unknown dtype");
}
template <typename F> auto with(DT t, F f) {
    switch (t) {
    case F32: return f(float{}); case F64: return f(double{}); case I8: return f(int8_t{}); case I16: return f(int16_t{});
    case I32: return f(int32_t{}); case I64: return f(int64_t{}); case U8: return f(uint8_t{}); case U16: return f(uint16_t{});
    case U32: return f(uint32_t{}); default: return f(uint64_t{});
    }
}
// raw element access, typed by the array's own dtype
inline double get_at(const ndarray &a, int64_t lin) {
    return with(of(a.dtype()), [&](auto z) { using T = decltype(z); return (double)a.data_ptr<T>()[lin]; });
}
inline void set_at(ndarray &a, int64_t lin, double v) {
    with(of(a.dtype()), [&](auto z) { using T = decltype(z); a.data_ptr<T>()[lin] = (T)v; return 0; });
}
inline int64_t linear(const ndarray &a, const Shape &idx) {
    auto st = a.strides(); auto of = a.offsets();
    int64_t l = 0;
    for (auto o : of) l += o;
    for (size_t d = 0; d < idx.size(); ++d) l += idx[d] * st[d];
    return l;
}
inline double get(const ndarray &a, const Shape &idx) { return get_at(a, linear(a, idx)); }
inline void   set(ndarray &a, const Shape &idx, double v) { set_at(a, linear(a, idx), v); }
// f(linear index) for every element in order
template <typename F> void each_linear(const ndarray &a, F f) {
    Shape s = a.shape(), st = a.strides();
    int64_t n = numel(s), base = 0;
    if (n == 0) return;
    for (auto o : a.offsets()) base += o;
    if (s.empty()) { f(base); return; }
    int64_t inner = s.back(), step = st.at(s.size() - 1);
    s.pop_back();
    Shape i(s.size(), 0);
    do {
        int64_t l = base;
        for (size_t d = 0; d < i.size(); ++d) l += i[d] * st.at(d);
        for (int64_t k = 0; k < inner; ++k, l += step) f(l);
    } while (next(i, s));
}
inline std::vector<double> values(const ndarray &a) {
    std::vector<double> out;
    int64_t n = numel(a.shape());
    if (n == 0) return out;
    out.resize(n);
    double *o = out.data();
    with(of(a.dtype()), [&](auto z) { using T = decltype(z); const T *p = a.data_ptr<T>(); each_linear(a, [&](int64_t l) { *o++ = (double)p[l]; }); return 0; });
    return out;
}
inline void set_flat(ndarray &a, const double *v, int64_t n) {              // the elements of a compact array
    if (n) with(of(a.dtype()), [&](auto z) { using T = decltype(z); T *p = a.data_ptr<T>(); for (int64_t k = 0; k < n; ++k) p[k] = (T)v[k]; return 0; });
}
inline ndarray make(const Shape &s, DT t, const std::vector<double> &vals) {
    ndarray a(s, dl(t));
    set_flat(a, vals.data(), vals.size());
    return a;
}

// ---- memory layouts.  `Built` keeps the parent so that bytes outside the view can be checked for writes.
struct Built {
    ndarray arr, parent;
    std::vector<char> touched;       // per parent element: belongs to the view
    std::vector<double> before;      // parent contents
    std::string desc;
};
enum Layout { CONTIG, OFFSET, STRIDED, TAIL, NLAYOUT };
inline const char *name(Layout l) { static const char *n[] = {"contiguous", "offset", "strided+offset", "tail"}; return n[l]; }
// build an array with the given shape and values in the given layout (background elements hold a poison value)
inline Built layout(const Shape &s, DT t, const std::vector<double> &vals, Layout l, double poison = 77) {
    Built b;
    if (l == CONTIG || s.empty()) {
        b.parent = make(s, t, vals);
        b.arr = b.parent;
    } else {
        Shape ps = s;
        for (size_t d = 0; d < s.size(); ++d) ps[d] = l == OFFSET ? s[d] + 2 : l == STRIDED ? 2 * s[d] + 1 : (d == 0 ? s[d] + 3 : s[d]);
        b.parent = ndarray(ps, dl(t));
        std::vector<double> fillers(numel(ps), poison);
        set_flat(b.parent, fillers.data(), fillers.size());
        ndarray v = b.parent;
        for (size_t d = 0; d < s.size(); ++d) {
            if (l == OFFSET) { bland::ndarray_slice z = cut(v, d, 1, 1 + s[d], 1); v = ndarray(z); }
            else if (l == STRIDED) { bland::ndarray_slice z = cut(v, d, 1, 1 + 2 * s[d], 2); v = ndarray(z); }
            else if (d == 0) { bland::ndarray_slice z = cut(v, d, 3, 3 + s[d], 1); v = ndarray(z); }
        }
        b.arr = v;
        const double *from = vals.data();
        if (numel(s) > (int64_t)vals.size()) throw std::runtime_error("harness: too few values");
        with(t, [&](auto z) { using T = decltype(z); T *p = b.arr.data_ptr<T>(); each_linear(b.arr, [&](int64_t x) { p[x] = (T)*from++; }); return 0; });
    }
    int64_t pn = numel(b.parent.shape());
    b.touched.assign(pn, 0);
    each_linear(b.arr, [&](int64_t x) { b.touched[x] = 1; });
    b.before.resize(pn);
    if (pn) with(t, [&](auto z) { using T = decltype(z); const T *p = b.parent.data_ptr<T>(); for (int64_t k = 0; k < pn; ++k) b.before[k] = (double)p[k]; return 0; });
    b.desc = std::string(name(t)) + mc::str(s) + " " + name(l);
    return b;
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
    return true;
}
inline bool close(double a, double b, double rel, double abs_) {
    if (same(a, b)) return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
// parent unchanged everywhere (all=true) or outside the view
inline bool intact(const Built &b, bool all) {
    bool ok = true;
    if (!b.before.empty())
        with(of(b.parent.dtype()), [&](auto z) {
            using T = decltype(z);
            const T *p = b.parent.data_ptr<T>(); const double *w = b.before.data(); const char *t = b.touched.data();
            for (int64_t k = 0, n = b.before.size(); k < n && ok; ++k) if ((all || !t[k]) && (double)p[k] != w[k]) ok = std::isnan((double)p[k]) && std::isnan(w[k]);
            return 0;
        });
    return ok;
}
} // namespace bl
