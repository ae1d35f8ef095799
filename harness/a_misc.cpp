// A06 copies, fills and creators;  A07 deferred arrays;  A08 tensor exchange;  A09 raw files;  A10 spectrum
#include "bl.hpp"
#include <complex>
#include <bland/ndarray_deferred.hpp>
#include <bland/ops/creators.hpp>
#include <bland/ops/ops_frequency.hpp>
#include <fcntl.h>
#include <fstream>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <unistd.h>
using namespace bl;
using mc::Ctx;

namespace {
const std::vector<DT> four{F32, I32, U8, U32}, five{F32, I32, U8, U32, I64};
const std::vector<Shape> &shapes() { static const std::vector<Shape> s{{1}, {5}, {2, 3}, {3, 1}, {2, 1, 3}}; return s; }
std::vector<double> ramp(DT t, int64_t n, int p = 0) {
    std::vector<double> v;
    for (int64_t k = 0; k < n; ++k) {
        double x = p ? (is_unsigned(t) ? 200 + k : -(double)k - 1) : 1 + k * 3;
        if (is_float(t)) x += 0.5;
        v.push_back(with(t, [&](auto z) { return (double)(decltype(z))x; }));
    }
    return v;
}

// ------------------------------------------------------------------ A06
void copies(Ctx &c) {
    DT ti = c.pick(five, "from"), to = c.pick(five, "to");
    Shape s = c.pick(shapes(), "shape");
    Layout li = (Layout)c.choose(NLAYOUT, "layout"), lo = (Layout)c.choose(NLAYOUT, "out layout");
    int p = c.choose(2, "values"), form = c.choose(7, "form");      // 0 copy into out, 1 fresh copy, 2 assignment to a slice, 3 to(cpu), 4 to another memory node, 5 there and back, 6 assignment of a slice to a slice
    bool both = form == 6; if (both) form = 2;
    c.assume((form != 0 && form != 2) || (ti != I64 && to != I64));
    auto v = ramp(ti, bl::numel(s), p);
    if (p && ti != to) c.assume(is_float(to) || (ti == U8) || (is_unsigned(ti) == is_unsigned(to) && to != U8 && !is_float(ti)));
    Built A = layout(s, ti, v, li), O = layout(s, to, ramp(to, bl::numel(s)), lo, 66);
    std::string what = std::string(form == 0 ? "copy " : form == 1 ? "fresh copy " : form == 2 ? both ? "slice to slice assignment " : "slice assignment " : form == 3 ? "to(cpu) " : form == 4 ? "to(cpu:1) " : "to(cpu:1) and back ") + A.desc + (form == 0 || form == 2 ? " -> " + O.desc : "");
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what) + p);
    auto want = v;
    for (auto &x : want) if (form == 0 || form == 2) x = with(to, [&](auto z) { return (double)(decltype(z))x; });
    std::vector<double> got;
    if (form == 0) { ndarray r = bland::copy(A.arr, O.arr); got = bl::values(O.arr); MC_CHECK(c, same(bl::values(r), got), "copy-result", what + ": returned array differs from the output"); }
    else if (form == 1) { c.assume(ti == to && lo == 0); ndarray r = bland::copy(A.arr); MC_CHECK(c, r.shape() == s, "copy-shape", what); got = bl::values(r); if (ti != I64) bland::fill(r, 99.0f); }
    else if (form == 2) { bland::ndarray_slice z(O.arr), y(A.arr); if (both) z = y; else z = A.arr; got = bl::values(O.arr); }
    else if (form == 3) { c.assume(ti == to && lo == 0); ndarray r = A.arr.to("cpu"); got = bl::values(r); }
    else {
        c.assume(ti == to && lo == 0);
        ndarray r = A.arr.to(DLDevice{kDLCPU, 1});
        MC_CHECK(c, r.device().device_type == kDLCPU && r.device().device_id == 1 && r.shape() == s, "moved-device", what + ": is not where it was moved to");
        if (form == 5) r = r.to("cpu");
        got = bl::values(r);
    }
    MC_CHECK(c, same(got, want), "copy-values", what + ": holds " + mc::str(got) + ", expected " + mc::str(want));
    MC_CHECK(c, intact(A, true), "source-modified", what + ": the source changed");
    MC_CHECK(c, form == 1 || form >= 3 || intact(O, false), "stray-write", what + ": elements outside the destination changed");
    // independence: a write to the source does not reach the copy
    if (form == 0) { bland::fill(A.arr, 7.0f); MC_CHECK(c, same(bl::values(O.arr), want), "copy-aliases", what + ": copy follows writes to its source"); }
    c.outcome(mc::hash_vec(got));
}
void fills(Ctx &c) {
    DT t = c.pick(four, "type");
    Shape s = c.pick(shapes(), "shape");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    int vt = c.choose(4, "value type");
    static const double vals[] = {0, 1, 7, 200};
    double x = vals[c.choose(4, "value")] + (vt == 0 && t == F32 ? 0.5 : 0);
    Built A = layout(s, t, ramp(t, bl::numel(s)), l, 66);
    std::string what = "fill(" + A.desc + ", " + mc::str(x) + ")";
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what) + vt);
    if (vt == 0) bland::fill(A.arr, (float)x); else if (vt == 1) bland::fill(A.arr, (int32_t)x); else if (vt == 2) bland::fill(A.arr, (uint8_t)x); else bland::fill(A.arr, (uint32_t)x);
    for (double g : bl::values(A.arr)) MC_CHECK(c, g == x, "fill-value", what + ": element is " + mc::str(g));
    MC_CHECK(c, intact(A, false), "stray-write", what + " wrote outside the array");
    if (l == CONTIG) {
        ndarray z = bland::zeros(s, dl(t)), o = bland::ones(s, dl(t)), f(s, (float)x, dl(t), ndarray::dev::cpu);
        MC_CHECK(c, z.shape() == s && o.shape() == s && f.shape() == s, "creator-shape", "zeros/ones/filled array of " + mc::str(s));
        for (double g : bl::values(z)) MC_CHECK(c, g == 0, "zeros", "zeros holds " + mc::str(g));
        for (double g : bl::values(o)) MC_CHECK(c, g == 1, "ones", "ones holds " + mc::str(g));
        for (double g : bl::values(f)) MC_CHECK(c, g == x, "filled", "filled array holds " + mc::str(g));
        MC_CHECK(c, z.dtype() == dl(t) && o.dtype() == dl(t), "creator-dtype", "zeros/ones dtype");
    }
    c.outcome((uint64_t)(x * 2) * 31 + t);
}
template <typename T> void arange_as(Ctx &c, T start, T end, T step, DT out, bool given) {
    std::vector<double> want;
    for (int64_t k = 0;; ++k) { double v = (double)start + (double)step * k; if (step > 0 ? v >= (double)end : v <= (double)end) break; want.push_back(v); }
    std::string what = "arange(" + mc::str((double)start) + ", " + mc::str((double)end) + ", " + mc::str((double)step) + ") as " + name(out);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    for (auto &w : want) w = with(out, [&](auto z) { return (double)(decltype(z))w; });
    ndarray a = given ? bland::arange(start, end, step, dl(out)) : bland::arange(start, end, step);
    MC_CHECK(c, a.ndim() == 1 && same(bl::values(a), want), "arange", what + " = " + mc::str(bl::values(a)) + ", expected " + mc::str(want));
    MC_CHECK(c, a.dtype() == dl(out), "arange-dtype", what);
    c.outcome(mc::hash_vec(want));
}
void aranges(Ctx &c) {
    DT kind = c.pick(all_dtypes(), "type");
    double st = c.pick(std::vector<double>{0, 1, 3, -4, 100}, "start"), en = c.pick(std::vector<double>{0, 1, 5, 6, -7, 127}, "end"), sp = c.pick(std::vector<double>{1, 2, 3, 0.5, -1, -2, 50}, "step");
    c.assume(is_float(kind) || sp != 0.5);
    if (is_unsigned(kind)) c.assume(st >= 0 && en >= st && sp > 0);
    c.assume(is_float(kind) || (sp > 0 ? en >= st : en <= st));
    bool given = c.flip("dtype given");
    DT out = given ? c.pick(all_dtypes(), "dtype") : kind;
    if (is_unsigned(out)) c.assume(st >= 0 && en >= -1 && (sp > 0 || en >= 0));
    with(kind, [&](auto z) { using T = decltype(z); arange_as<T>(c, (T)st, (T)en, (T)sp, out, given); return 0; });
}
// the form of arange with a step of another type
void arange_mixed(Ctx &c) {
    int32_t st = c.pick(std::vector<int>{0, 1, 5}, "start"), en = c.pick(std::vector<int>{5, 6, 20}, "end"); uint32_t sp = c.pick(std::vector<int>{1, 2, 7}, "step");
    DT out = c.pick(all_dtypes(), "dtype");
    std::vector<double> want; for (int64_t v = st; v < en; v += sp) want.push_back(v);
    std::string what = "arange(" + mc::str(st) + ", " + mc::str(en) + ", " + mc::str(sp) + "u) as " + name(out);
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    ndarray a = bland::arange(st, en, sp, dl(out));
    MC_CHECK(c, a.dtype() == dl(out) && same(bl::values(a), want), "arange", what + " = " + mc::str(bl::values(a)) + ", expected " + mc::str(want));
    c.outcome(mc::hash_vec(want));
}
void linspaces(Ctx &c) {
    DT kind = c.pick(all_dtypes(), "type");
    double st = c.pick(std::vector<double>{0, 1, -4, 100}, "start"), en = c.pick(std::vector<double>{0, 1, 5, 20, -7, 101}, "end");
    if (is_unsigned(kind)) c.assume(st >= 0 && en >= 0);
    int64_t n = c.pick(std::vector<int64_t>{1, 2, 3, 5, 10}, "steps");
    bool given = c.flip("dtype given");
    if (!given) c.assume(kind == I32 || kind == I64 || kind == U8 || kind == U32 || kind == U64 || kind == F32);   // the forms there are
    DT out = given ? c.pick(all_dtypes(), "dtype") : kind;
    if (is_unsigned(out)) c.assume(st >= 0 && en >= 0);
    std::string what = std::string("linspace<") + name(kind) + ">(" + mc::str(st) + ", " + mc::str(en) + ", " + mc::str(n) + ") as " + (given ? name(out) : "its own type");
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    ndarray a = with(kind, [&](auto z) -> ndarray {
        using T = decltype(z);
        if (given) return bland::linspace((T)st, (T)en, n, dl(out));
        if constexpr (std::is_same<T, int32_t>::value || std::is_same<T, int64_t>::value || std::is_same<T, uint8_t>::value || std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value || std::is_same<T, float>::value) return bland::linspace((T)st, (T)en, n);
        else return ndarray();
    });
    MC_CHECK(c, a.dtype() == dl(out), "linspace-dtype", what);
    auto v = bl::values(a);
    MC_CHECK(c, (int64_t)v.size() == n, "linspace-count", what + " has " + mc::str(v.size()) + " items");
    for (int64_t k = 0; k < n; ++k) {
        double w = st + (en - st) * k / n;
        bool ok = is_float(out) ? std::fabs(v[k] - w) < 1e-5 : std::fabs(v[k] - w) < 1 + 1e-5 && (std::fabs(v[k] - std::trunc(w)) < 1e-9 || std::fabs(w - std::round(w)) < 1e-5);
        MC_CHECK(c, ok, "linspace", what + " = " + mc::str(v) + ": item " + mc::str(k) + " should be " + mc::str(w));
    }
    c.outcome(mc::hash_vec(v));
}
// random creators: whatever numbers are drawn, they have the shape and type asked for and lie where they were asked to be
void randoms(Ctx &c) {
    DT t = c.pick(all_dtypes(), "dtype"); bool normal = c.flip("normal");
    Shape s = c.pick(std::vector<Shape>{{1}, {0}, {7}, {3, 4}, {2, 3, 5}, {1000}}, "shape");
    int range = c.choose(4, "range");
    double lo = std::vector<double>{0, 5, 100, is_unsigned(t) ? 0. : -20.}[range], hi = std::vector<double>{1, 5.5, 120, 20}[range];
    std::string what = std::string(normal ? "rand_normal " : "rand_uniform ") + name(t) + mc::str(s) + " from " + mc::str(lo) + " to " + mc::str(hi);
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    ndarray a;
    if (normal) {
        bool threw = false;
        try { a = c.flip("double arguments") ? bland::rand_normal<double>(s, lo, 1e-3 * hi, dl(t)) : bland::rand_normal<float>(s, lo, 1e-3 * hi, dl(t)); } catch (std::runtime_error &) { threw = true; }
        MC_CHECK(c, threw == !is_float(t), "random-type", what + (threw ? " was refused" : " gave numbers"));
        if (threw) return;
        lo -= 0.1 * hi; hi = lo + 0.2 * hi;                          // a hundred deviations to both sides
    } else a = bland::rand_uniform<float>(s, lo, hi, dl(t));
    MC_CHECK(c, a.shape() == s && a.dtype() == dl(t), "random-shape", what);
    auto v = bl::values(a);
    bool in = true;
    if (!is_float(t)) hi = std::trunc(hi);
    for (double x : v) in &= x >= lo && x <= hi;
    MC_CHECK(c, in, "random-range", what + " has a number outside of the range");
    if (v.size() == 1000 && (is_float(t) || hi - lo > 1)) { bool eq = true; for (double x : v) eq &= x == v[0]; MC_CHECK(c, !eq, "random-constant", what + " has 1000 equal numbers"); }
    c.outcome(mc::hash_str(what));
}
// long sequences of steps that are not exact numbers: every item is its own position, errors do not add up
template <typename T> void long_sequence(Ctx &c, bool lin) {
    T start = (T)c.pick(std::vector<double>{0, 0.3, -7.7, 1000.1}, "start"), step = (T)c.pick(std::vector<double>{0.1, -0.1, 1.0 / 3, 7.3e-3, -2.7e-6, 12345.678}, "step");
    int64_t n = c.pick(std::vector<int64_t>{1000, mc::thorough() ? 1000000 : 20000}, "items");
    DT out = c.pick(std::vector<DT>{F32, F64}, "dtype");
    T end = (T)(start + step * (lin ? n : n - 0.5));
    std::string what = std::string(lin ? "linspace" : "arange") + " from " + mc::str((double)start) + " to " + mc::str((double)end) + " by " + mc::str((double)step) + " as " + name(out);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    ndarray a = lin ? bland::linspace(start, end, n, dl(out)) : bland::arange(start, end, step, dl(out));
    // the end is rounded: a span of too few representable numbers leaves the count open
    double eps = std::numeric_limits<T>::epsilon(), slack = 4 * eps * std::max(std::fabs((double)start), std::fabs((double)end)) / std::fabs((double)step);
    if (lin || slack < 0.4) MC_CHECK(c, a.numel() == n, "long-count", what + " has " + mc::str(a.numel()) + " items, expected " + mc::str(n));
    double width = lin ? ((double)end - (double)start) / n : (double)step, oe = std::max<double>(eps, out == F32 ? std::numeric_limits<float>::epsilon() : 0);
    for (int64_t k = 0; k < std::min(n, a.numel()); ++k) {
        double w = (double)start + width * k, g = out == F32 ? a.data_ptr<float>()[k] : a.data_ptr<double>()[k];
        // rounding of the span, the step and the product, which is in proportion to how far along the item is, and of the sum
        double tol = 2 * oe * (std::fabs(w) + std::fabs(width * k) + std::fabs((double)start)) + (lin ? 2 * eps * (std::fabs((double)start) + std::fabs((double)end)) * k / n : 0);
        MC_CHECK(c, std::fabs(g - w) <= tol, "long-sequence", what + ": item " + mc::str(k) + " is " + mc::str(g) + ", expected " + mc::str(w));
    }
    c.outcome(mc::hash_str(what));
}
void scalars(Ctx &c) {
    DT t = c.pick(four, "type");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    Shape s = c.pick(std::vector<Shape>{{1}, {1, 1}, {2}}, "shape");
    Built A = layout(s, t, ramp(t, bl::numel(s)), l);
    std::string what = "scalarize " + A.desc;
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    bool threw = false; double g = 0;
    try { g = with(t, [&](auto z) { return (double)A.arr.scalarize<decltype(z)>(); }); } catch (std::exception &) { threw = true; }
    c.outcome(threw);
    if (bl::numel(s) > 1) { MC_CHECK(c, threw, "scalarize-many", what + " accepted more than one element"); return; }
    MC_CHECK(c, !threw && g == bl::values(A.arr)[0], "scalarize", what + " = " + mc::str(g) + ", the element is " + mc::str(bl::values(A.arr)[0]));
}
void names(Ctx &c) {
    struct N { const char *s; int code, bits; };
    static const std::vector<N> ok{{"float", kDLFloat, 32}, {"float32", kDLFloat, 32}, {"double", kDLFloat, 64}, {"float64", kDLFloat, 64}, {"int", kDLInt, 64}, {"int64", kDLInt, 64},
        {"int32", kDLInt, 32}, {"int16", kDLInt, 16}, {"int8", kDLInt, 8}, {"uint", kDLUInt, 64}, {"uint64", kDLUInt, 64}, {"uint32", kDLUInt, 32}, {"uint16", kDLUInt, 16}, {"uint8", kDLUInt, 8},
        {"", -1, 0}, {"float16", -1, 0}, {"Float", -1, 0}, {"complex", -1, 0}};
    struct D { const char *s; int type, id; };
    static const std::vector<D> dv{{"cpu", kDLCPU, 0}, {"cuda", kDLCUDA, 0}, {"cuda:0", kDLCUDA, 0}, {"cuda:3", kDLCUDA, 3}, {"cuda:12", kDLCUDA, 12}, {"cudamanaged", kDLCUDAManaged, 0}, {"cudamanaged:2", kDLCUDAManaged, 2},
        {"cudahost", kDLCUDAHost, 0}, {"cudahost:1", kDLCUDAHost, 1}, {"", -1, 0}, {"gpu", -1, 0}, {"tpu:0", -1, 0}};
    bool dev = c.flip("device");
    c.step();
    if (!dev) {
        auto n = c.pick(ok, "name");
        MC_NOTE(c, std::string("datatype \"") + n.s + "\"");
        c.state(mc::hash_str(n.s));
        bool threw = false; int code = 0, bits = 0, lanes = 0;
        try { ndarray::datatype d(n.s); code = d.code; bits = d.bits; lanes = d.lanes; } catch (std::exception &) { threw = true; }
        c.outcome(code * 100 + bits);
        if (n.code < 0) MC_CHECK(c, threw, "unknown-dtype-accepted", std::string("datatype name \"") + n.s + "\" was accepted");
        else MC_CHECK(c, !threw && code == n.code && bits == n.bits && lanes == 1, "dtype-name", std::string("datatype name \"") + n.s + "\"");
    } else {
        auto n = c.pick(dv, "name");
        MC_NOTE(c, std::string("device \"") + n.s + "\"");
        c.state(mc::hash_str(n.s) + 1);
        bool threw = false; int type = 0, id = 0;
        try { ndarray::dev d{std::string_view(n.s)}; type = d.device_type; id = d.device_id; } catch (std::exception &) { threw = true; }
        c.outcome(type * 100 + id);
        if (n.type < 0) MC_CHECK(c, threw, "unknown-device-accepted", std::string("device name \"") + n.s + "\" was accepted");
        else MC_CHECK(c, !threw && type == n.type && id == n.id, "device-name", std::string("device name \"") + n.s + "\" gives type " + mc::str(type) + " id " + mc::str(id));
        if (n.type == kDLCUDA || n.type == kDLCUDAManaged || n.type == kDLCUDAHost) {      // no such device here: refused, not silently ignored
            threw = false;
            try { ndarray a({2}, dl(F32)); ndarray b = a.to(n.s); (void)b; } catch (std::exception &) { threw = true; }
            MC_CHECK(c, threw, "absent-device-accepted", std::string("moving an array to \"") + n.s + "\" succeeded without such a device");
        }
    }
}

// ------------------------------------------------------------------ A07
void deferred(Ctx &c, int depth) {
    using bland::ndarray_deferred;
    int policy = c.choose(4, "policy");                  // 0 memoize 1 lazy 2 eager 3 made from an array
    static const char *pn[] = {"memoize", "lazy", "eager", "array"};
    int fail_at = policy == 3 ? 0 : c.choose(4, "failing evaluation");          // 0 none, else that evaluation throws
    int calls = 0, want_calls = 0;
    auto fn = [&calls, fail_at]() -> ndarray {
        ++calls;
        if (calls == fail_at) throw std::runtime_error("source failed");
        ndarray a({2, 2}, dl(F32));
        for (int k = 0; k < 4; ++k) set_at(a, k, 10 * calls + k);
        return a;
    };
    ndarray src({2, 2}, dl(F32));
    for (int k = 0; k < 4; ++k) set_at(src, k, 5 + k);
    std::vector<ndarray_deferred> h;
    MC_NOTE(c, std::string("deferred array, policy ") + pn[policy] + (fail_at ? ", evaluation " + mc::str(fail_at) + " fails" : ""));
    bool threw = false;
    try {
        if (policy == 3) h.emplace_back(src);
        else h.emplace_back(std::function<ndarray()>(fn), policy == 0 ? ndarray_deferred::eval_policy::memoize : policy == 1 ? ndarray_deferred::eval_policy::lazy : ndarray_deferred::eval_policy::eager);
    } catch (std::exception &) { threw = true; }
    if (policy == 2) want_calls = 1;
    MC_CHECK(c, calls == want_calls, "construction-evaluates", "construction ran the source " + mc::str(calls) + " times, expected " + mc::str(want_calls));
    if (policy == 2 && fail_at == 1) { MC_CHECK(c, threw, "error-swallowed", "an eager source that fails did not report it"); c.state(1); c.outcome(1); return; }
    MC_CHECK(c, !threw, "construction-failed", "construction threw");
    // model: one shared cell; holds the evaluation number whose result it stores (0 = not evaluated), -1 = the source array
    int cell = policy == 3 ? -1 : policy == 2 ? 1 : 0;
    std::vector<double> first_ptr_writes;
    double scribble = 0;
    for (int s = 0; s < depth; ++s) {
        int op = c.choose(5, "op");
        if (op == 0) break;
        c.step();
        int who = h.size() > 1 ? c.choose(h.size(), "handle") : 0;
        if (op == 1) {
            MC_NOTE(c, "read handle " + mc::str(who));
            bool t = false; std::vector<double> v;
            try { ndarray a = h[who]; v = bl::values(a); } catch (std::exception &) { t = true; }
            bool want_t = false; int val = cell;
            if (cell == 0) { ++want_calls; want_t = want_calls == fail_at; val = want_calls; if (!want_t && policy == 0) cell = want_calls; }
            MC_CHECK(c, calls == want_calls, "evaluation-count", "the source ran " + mc::str(calls) + " times, expected " + mc::str(want_calls));
            MC_CHECK(c, t == want_t, want_t ? "error-swallowed" : "read-failed", want_t ? "a failing source was not reported" : "reading threw");
            if (t) continue;
            std::vector<double> w;
            for (int k = 0; k < 4; ++k) w.push_back(val == -1 ? 5 + k : 10 * val + k);
            if (scribble && (val == -1 || val == cell)) w[0] = scribble;
            MC_CHECK(c, same(v, w), "value", "read " + mc::str(v) + ", expected " + mc::str(w));
            c.outcome(mc::hash_vec(v) + calls);
        } else if (op == 2) {
            c.assume(h.size() < 3);
            MC_NOTE(c, "copy handle " + mc::str(who));
            h.push_back(h[who]);
        } else if (op == 3) {
            MC_NOTE(c, "move handle " + mc::str(who) + " to the cpu (by device)");
            h[who] = h[who].to(ndarray::dev::cpu);
        } else {
            MC_NOTE(c, "move handle " + mc::str(who) + " to the cpu (by name)");
            h[who] = h[who].to("cpu");
        }
        MC_CHECK(c, calls == want_calls, "evaluation-count", "the source ran " + mc::str(calls) + " times, expected " + mc::str(want_calls));
        c.state(mc::mix(mc::mix(policy * 10 + fail_at, cell + 2), h.size() * 100 + calls));
    }
}

// handles which were given neither an array nor a source: using them is an error until they are given one
void unset_deferred(Ctx &c) {
    using bland::ndarray_deferred;
    std::vector<ndarray_deferred> h(1);
    std::vector<int> has{0};                          // the array a handle has, 0 for none
    std::string w = "unset deferred array:";
    int n = mc::thorough() ? 5 : 4;
    for (int s = 0; s < n; ++s) {
        int who = h.size() > 1 ? c.choose((int)h.size(), "handle") : 0, op = c.choose(7, "op");
        static const char *names[] = {"end", "read", "copy", "to cpu", "to \"cpu\"", "describe", "assign"};
        w += std::string(" ") + mc::str(who) + ":" + names[op]; MC_NOTE(c, w);
        c.step();
        if (op == 0) break;
        std::string e; std::vector<double> v;
        auto run = [&](auto f) { try { f(); } catch (std::exception &x) { e = x.what(); if (e.empty()) e = "?"; } };
        if (op == 1) {
            run([&] { ndarray a = h[who]; v = bl::values(a); });
            MC_CHECK(c, e.empty() == (has[who] != 0), has[who] ? "read-failed" : "unset-read", w + ": " + e);
            if (has[who]) MC_CHECK(c, v == (std::vector<double>{1.0 * has[who], 2.0 * has[who]}), "value", w + ": read " + mc::str(v));
            e.clear();
        } else if (op == 2) { if (h.size() >= 2) throw mc::Skip{}; auto x = h[who]; h.push_back(x); has.push_back(has[who]); }
        else if (op == 3) run([&] { h[who] = h[who].to(ndarray::dev::cpu); });
        else if (op == 4) run([&] { h[who] = h[who].to("cpu"); });
        else if (op == 5) run([&] { MC_CHECK(c, !h[who].repr().empty(), "describe", w); });
        else { int x = 3 + s; h[who] = ndarray_deferred([x] { ndarray a({2}, dl(F32)); set_at(a, 0, x); set_at(a, 1, 2 * x); return a; }); has[who] = x; }
        MC_CHECK(c, e.empty(), "unset-rejected", w + ": " + e);
        c.state(mc::hash_str(w));
    }
    c.outcome(has[0]);
}

// ------------------------------------------------------------------ A08
void dl_export(Ctx &c) {
    DT t = c.pick(std::vector<DT>{F32, U8, I64, U16}, "type");
    Shape s = c.pick(std::vector<Shape>{{4}, {2, 3}, {2, 2, 2}}, "shape");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    int order = c.choose(3, "who goes first");          // 0 array first, 1 exported first, 2 array written through the export
    auto v = ramp(t, bl::numel(s));
    std::string what;
    {
        auto *b = new Built(layout(s, t, v, l));
        what = "export of " + b->desc;
        MC_NOTE(c, what);
        c.step(); c.state(mc::hash_str(what) + order);
        DLManagedTensor *m = b->arr.get_managed_tensor();
        auto elem = [&](const Shape &i) -> char * {
            int64_t lin = 0; for (size_t d = 0; d < s.size(); ++d) lin += i[d] * m->dl_tensor.strides[d];
            return (char *)m->dl_tensor.data + m->dl_tensor.byte_offset + lin * m->dl_tensor.dtype.bits / 8;
        };
        auto read = [&](const Shape &i) { return with(t, [&](auto z) { decltype(z) x; memcpy(&x, elem(i), sizeof x); return (double)x; }); };
        MC_CHECK(c, m->dl_tensor.ndim == (int)s.size() && Shape(m->dl_tensor.shape, m->dl_tensor.shape + s.size()) == s, "export-shape", what + ": wrong shape");
        MC_CHECK(c, m->dl_tensor.dtype.code == dl(t).code && m->dl_tensor.dtype.bits == dl(t).bits && m->dl_tensor.dtype.lanes == 1, "export-dtype", what + ": wrong dtype");
        MC_CHECK(c, m->dl_tensor.device.device_type == kDLCPU, "export-device", what);
        if (order == 1) { m->deleter(m); MC_CHECK(c, same(bl::values(b->arr), v), "owner-lost-data", what + ": releasing the export changed the array"); delete b; }
        else {
            if (order == 2) {
                Shape i(s.size(), 0);
                with(t, [&](auto z) { decltype(z) x = 42; memcpy(elem(i), &x, sizeof x); return 0; });
                MC_CHECK(c, bl::get(b->arr, i) == 42, "not-shared", what + ": a write through the export is not seen by the array");
                v[0] = 42;
            }
            delete b;
            Shape i(s.size(), 0); size_t k = 0;
            do { double g = read(i); MC_CHECK(c, g == v[k], "export-elements", what + ": exported element " + mc::str(i) + " is " + mc::str(g) + ", expected " + mc::str(v[k])); ++k; } while (next(i, s));
            m->deleter(m);
        }
    }
    c.outcome(order);
    // releasing every export gives all of its memory back: many rounds, so that one-off allocations do not count
    auto b = layout(s, t, v, l);
    constexpr int rounds = 64;
    size_t before = 0, after = 0;
    for (int k = 0; k <= rounds; ++k) {
        auto *m = b.arr.get_managed_tensor();
        m->deleter(m);
        if (k == 0) before = __sanitizer_get_current_allocated_bytes();
    }
    after = __sanitizer_get_current_allocated_bytes();
    MC_CHECK(c, after < before + rounds * 4, "export-leak", "exporting and releasing a tensor again and again leaves memory allocated");
}
void dl_import(Ctx &c) {
    DT t = c.pick(std::vector<DT>{F32, U8, I64}, "type");
    Shape s = c.pick(std::vector<Shape>{{4}, {2, 3}}, "shape");
    int skind = c.choose(3, "strides");                  // 0 compact, 1 null (compact by convention), 2 transposed / spaced
    int64_t off = c.choose(2, "byte offset") * 2;        // elements
    int use = c.choose(6, "use");
    int64_t n = bl::numel(s);
    std::vector<char> mem(((n * 2) + 4) * 8, 0);
    auto *shape = new int64_t[s.size()], *strides = new int64_t[s.size()];
    Shape st(s.size(), 1);
    for (int d = (int)s.size() - 2; d >= 0; --d) st[d] = st[d + 1] * s[d + 1];
    if (skind == 2) { if (s.size() == 1) st[0] = 2; else { st[0] = 1; st[1] = s[0]; } }
    for (size_t d = 0; d < s.size(); ++d) { shape[d] = s[d]; strides[d] = st[d]; }
    int bytes = dl(t).bits / 8;
    std::vector<double> v;
    Shape i(s.size(), 0);
    auto at = [&](const Shape &i) { int64_t lin = off; for (size_t d = 0; d < s.size(); ++d) lin += i[d] * st[d]; return mem.data() + lin * bytes; };
    do { double x = 3 + v.size() * 2; v.push_back(x); with(t, [&](auto z) { decltype(z) y = x; memcpy(at(i), &y, sizeof y); return 0; }); } while (next(i, s));
    DLManagedTensor m{};
    m.dl_tensor.data = mem.data(); m.dl_tensor.device = DLDevice{kDLCPU, 0}; m.dl_tensor.ndim = s.size(); m.dl_tensor.dtype = dl(t);
    m.dl_tensor.shape = shape; m.dl_tensor.strides = skind == 1 ? nullptr : strides; m.dl_tensor.byte_offset = off * bytes;
    m.manager_ctx = nullptr; m.deleter = nullptr;
    std::string what = std::string("import of ") + name(t) + mc::str(s) + (skind == 0 ? "" : skind == 1 ? " without strides" : " with strides " + mc::str(st)) + (off ? " at a byte offset" : "") + ", use " + mc::str(use);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    ndarray a(m);
    // the producer's description need not outlive the import; the data does
    delete[] shape; delete[] strides;
    ndarray b;
    auto sees = [&](const ndarray &q, const char *k) {
        MC_CHECK(c, q.shape() == s, k, what + ": shape is " + mc::str(q.shape()));
        auto g = bl::values(q);
        MC_CHECK(c, same(g, v), k, what + ": elements are " + mc::str(g) + ", expected " + mc::str(v));
    };
    auto writes = [&](ndarray &q, const char *k) { Shape z(s.size(), 0); bl::set(q, z, 99); double x = with(t, [&](auto y) { decltype(y) r; memcpy(&r, at(z), sizeof r); return (double)r; }); MC_CHECK(c, x == 99, k, what + ": writes do not reach the producer's memory"); };
    if (use == 0) { sees(a, "import-elements"); writes(a, "import-aliasing"); }
    else if (use == 1) { ndarray d(a); sees(d, "import-copy-constructed"); writes(d, "import-copy-constructed"); }
    else if (use == 2) { b = a; sees(b, "import-assigned"); writes(b, "import-assigned"); }
    else if (use == 3) { b = a; ndarray d; d = b; b = ndarray({1}, dl(F32)); sees(d, "import-assigned"); }
    else if (use == 4) { auto z = cut(a, 0, 1, s[0], 1); ndarray d(z); auto g = bl::values(d); std::vector<double> w(v.begin() + n / s[0], v.end()); MC_CHECK(c, same(g, w), "import-sliced", what + ": sliced elements are " + mc::str(g) + ", expected " + mc::str(w)); }
    else { c.assume(t != I64); ndarray d = bland::copy(a); sees(d, "import-copied"); bl::set_at(d, 0, 1); sees(a, "import-copied"); }
    c.outcome(use * 10 + skind);
}

// ------------------------------------------------------------------ A09
std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
void files(Ctx &c) {
    DT t = c.pick(all_dtypes(), "type");
    Shape s = c.pick(std::vector<Shape>{{1}, {5}, {2, 3}, {3, 2, 2}}, "shape");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    int p = c.choose(2, "values");
    int name_kind = c.choose(2, "name");
    auto v = ramp(t, bl::numel(s), p);
    Built A = layout(s, t, v, l);
    std::string path = mc::scratch() + "/raw.bin", longer = path + "XYZ";
    std::string what = "write/read of " + A.desc;
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what) + p * 2 + name_kind);
    unlink(path.c_str()); unlink(longer.c_str());
    { std::ofstream old(path, std::ios::binary); old << std::string(200, 'x'); }                 // an older, longer file is replaced
    bland::write_to_file(A.arr, name_kind ? std::string_view(longer).substr(0, path.size()) : std::string_view(path));
    std::string raw = slurp(path), want;
    for (double x : v) with(t, [&](auto z) { decltype(z) y = (decltype(z))x; want.append((const char *)&y, sizeof y); return 0; });
    MC_CHECK(c, raw == want, "file-bytes", what + ": file holds " + mc::str(raw.size()) + " bytes, expected the " + mc::str(want.size()) + " bytes of the array in order");
    ndarray r = bland::read_from_file(name_kind ? std::string_view(longer).substr(0, path.size()) : std::string_view(path), dl(t));
    MC_CHECK(c, r.shape() == Shape{bl::numel(s)} && r.dtype() == dl(t), "read-shape", what + ": read back shape " + mc::str(r.shape()));
    MC_CHECK(c, same(bl::values(r), v), "round-trip", what + ": read back " + mc::str(bl::values(r)) + ", wrote " + mc::str(v));
    MC_CHECK(c, intact(A, true), "operand-modified", what);
    c.outcome(mc::hash_str(raw));
}
void file_lengths(Ctx &c) {
    DT t = c.pick(all_dtypes(), "type");
    int len = c.choose(20, "bytes");
    std::string path = mc::scratch() + "/len.bin", bytes;
    for (int k = 0; k < len; ++k) bytes += (char)(k % 7 + 1);
    { std::ofstream f(path, std::ios::binary); f << bytes; }
    int w = dl(t).bits / 8;
    std::string what = "reading a " + mc::str(len) + " byte file as " + name(t);
    MC_NOTE(c, what);
    c.step(); c.state(len * 16 + t);
    ndarray r = bland::read_from_file(path, dl(t));
    MC_CHECK(c, r.shape() == Shape{len / w}, "read-shape", what + ": shape " + mc::str(r.shape()));
    MC_CHECK(c, memcmp(r.data_ptr<char>(), bytes.data(), len / w * w) == 0, "read-bytes", what + ": wrong contents");
    c.outcome(len / w);
}
void file_errors(Ctx &c) {
    int kind = c.choose(4, "kind");
    c.step(); c.state(kind);
    ndarray a({2000}, dl(F32)); bland::fill(a, 1.0f);
    bool threw = false;
    static const char *kn[] = {"reading a missing file", "writing into a missing directory", "writing to a full device", "writing a small array to a full device"};
    MC_NOTE(c, kn[kind]);
    try {
        if (kind == 0) (void)bland::read_from_file(mc::scratch() + "/nothing-here", dl(F32));
        if (kind == 1) bland::write_to_file(a, mc::scratch() + "/no-such-dir/x");
        if (kind == 2) bland::write_to_file(a, "/dev/full");
        if (kind == 3) { ndarray b({2}, dl(F32)); bland::fill(b, 1.0f); bland::write_to_file(b, "/dev/full"); }
    } catch (std::exception &) { threw = true; }
    c.outcome(threw);
    MC_CHECK(c, threw, kind == 0 ? "missing-file" : kind == 1 ? "unwritable-path" : "write-error-ignored", std::string(kn[kind]) + " reported success");
}

// ------------------------------------------------------------------ A10
void spectrum(Ctx &c) {
    int64_t n = c.choose(mc::thorough() ? 25 : 13, "length");
    bool whole = c.flip("transform");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    int kind = c.choose(4, "signal");
    std::vector<double> v(n, 0.0);
    if (kind == 0 && n) v[c.choose(n, "impulse at")] = 2;
    if (kind == 1) for (auto &x : v) x = 1;
    if (kind == 2 && n) { int f = c.choose(n, "tone"); for (int64_t k = 0; k < n; ++k) v[k] = (float)std::cos(2 * M_PI * f * k / n + 0.3); }
    if (kind == 3) for (int64_t k = 0; k < n; ++k) v[k] = (k * 7) % 5 - 1.5;
    Built A = layout({n}, F32, v, l);
    std::string what = std::string(whole ? "transform of " : "power spectrum of ") + A.desc + " signal " + mc::str(kind);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what) ^ mc::hash_vec(v));
    ndarray r = whole ? bland::fft(A.arr) : bland::fft_shift_mag_square(A.arr);
    MC_CHECK(c, r.shape() == Shape{n}, "spectrum-shape", what);
    if (whole) {
        MC_CHECK(c, r.dtype().code == kDLComplex && r.dtype().bits == 64, "transform-type", what);
        auto p = r.data_ptr<std::complex<float>>();
        int64_t o = 0; for (auto x : r.offsets()) o += x;
        for (int64_t k = 0; k < n; ++k) {
            std::complex<double> w = 0, got = p[o + k * r.strides()[0]];
            for (int64_t j = 0; j < n; ++j) w += v[j] * std::polar(1.0, -2 * M_PI * k * j / n);
            MC_CHECK(c, std::abs(got - w) < 1e-5 * (1 + n * n), "transform", what + ": bin " + mc::str(k) + " is " + mc::str(got) + ", expected " + mc::str(w));
        }
        MC_CHECK(c, intact(A, true), "operand-modified", what + " modified its operand");
        return;
    }
    auto g = bl::values(r);
    for (int64_t k = 0; k < n; ++k) {
        double re = 0, im = 0;
        for (int64_t j = 0; j < n; ++j) { re += v[j] * std::cos(2 * M_PI * k * j / n); im -= v[j] * std::sin(2 * M_PI * k * j / n); }
        double w = re * re + im * im, got = g[(k + n / 2) % n];
        MC_CHECK(c, std::fabs(got - w) < 1e-4 * (1 + n * n), "spectrum", what + ": bin " + mc::str(k) + " (at " + mc::str((k + n / 2) % n) + ") is " + mc::str(got) + ", expected " + mc::str(w));
    }
    MC_CHECK(c, intact(A, true), "operand-modified", what + " modified its operand");
    c.outcome(mc::hash_vec(g));
}
// the ordering of the result beyond the integers single precision can count: the constant signal's energy is in bin n/2
void spectrum_large(Ctx &c) {
    int64_t n = (1 << 24) + (c.choose(mc::thorough() ? 4 : 2, "length over 2^24") + 2) % 4;
    std::string what = "power spectrum of a constant signal of " + mc::str(n) + " samples";
    MC_NOTE(c, what);
    c.step(); c.state(n);
    ndarray a({n}, dl(F32));
    std::fill(a.data_ptr<float>(), a.data_ptr<float>() + n, 1.0f);
    ndarray r = bland::fft_shift_mag_square(a);
    MC_CHECK(c, r.shape() == Shape{n}, "spectrum-shape", what);
    const float *p = r.data_ptr<float>();
    int64_t at = std::max_element(p, p + n) - p;
    MC_CHECK(c, at == n / 2, "spectrum-order", what + ": zero frequency is at " + mc::str(at) + ", expected " + mc::str(n / 2));
    c.outcome(at);
}
void spectrum_type(Ctx &c) {
    DT t = c.pick(all_dtypes(), "type"); bool whole = c.flip("transform");
    Shape s = c.pick(std::vector<Shape>{{4}, {}, {1, 1}, {4, 1}, {1, 4}, {3, 4}, {2, 2, 2}}, "shape");
    c.assume(t != F32 || s.size() != 1);
    ndarray a = bl::make(s, t, std::vector<double>(bl::numel(s), 1.0));
    std::string what = std::string(whole ? "transform" : "power spectrum") + " of a " + name(t) + " array of shape " + mc::str(s);
    c.step(); c.state(mc::hash_str(what)); c.outcome(t);
    bool threw = false;
    try { (void)(whole ? bland::fft(a) : bland::fft_shift_mag_square(a)); } catch (std::exception &) { threw = true; }
    MC_CHECK(c, threw, t == F32 ? "spectrum-shape-accepted" : "spectrum-dtype", what + " was accepted");
}
} // namespace

MC_PROPERTY(A06) {
    mc::explore("names", names);
    mc::explore("scalarize", scalars);
    mc::explore("fill", fills);
    mc::explore("arange", aranges);
    mc::explore("arange-mixed", arange_mixed);
    mc::explore("random", randoms);
    mc::explore("linspace", linspaces);
    mc::explore("long-sequences", [](Ctx &c) { bool lin = c.flip("linspace"); if (c.choose(2, "type")) long_sequence<double>(c, lin); else long_sequence<float>(c, lin); });
    mc::explore("copy", copies);
}
MC_PROPERTY(A07) { mc::explore("deferred", [](Ctx &c) { deferred(c, mc::thorough() ? 7 : 6); }); mc::explore("unset", unset_deferred); }
MC_PROPERTY(A08) { mc::explore("import", dl_import); mc::explore("export", dl_export); }
MC_PROPERTY(A09) { mc::explore("errors", file_errors); mc::explore("lengths", file_lengths); mc::explore("round-trip", files); }
MC_PROPERTY(A10) { mc::explore("dtype", spectrum_type); mc::explore("spectrum", spectrum); mc::explore("spectrum-large", spectrum_large); }
