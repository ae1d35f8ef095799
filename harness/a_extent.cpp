// A11 arrays without elements, without dimensions, without storage, and larger than 2^31 elements
#include "bl.hpp"
#include <bland/ndarray_deferred.hpp>
#include <bland/ops/creators.hpp>
#include <bland/ops/ops_frequency.hpp>
#include <bland/stride_helper.hpp>
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace bl;
using mc::Ctx;

namespace {
// ---- operations: arguments, and the value of one result element (NaN: not compared)
enum Kind { BINARY, SCALAR, COMPARE, COMPARE_SCALAR, UNARY, UNARY_OUT };
struct Op { const char *name; Kind kind; std::function<ndarray(ndarray, ndarray, ndarray &)> call; std::function<double(double, double)> value; };
const std::vector<Op> &elementwise() {
    using A = ndarray;
    static const std::vector<Op> v{
        {"add", BINARY, [](A a, A b, A &) { return bland::add(a, b); }, [](double a, double b) { return a + b; }},
        {"subtract", BINARY, [](A a, A b, A &) { return bland::subtract(a, b); }, [](double a, double b) { return a - b; }},
        {"multiply", BINARY, [](A a, A b, A &) { return bland::multiply(a, b); }, [](double a, double b) { return a * b; }},
        {"divide", BINARY, [](A a, A b, A &) { return bland::divide(a, b); }, [](double a, double b) { return a / b; }},
        {"a+b", BINARY, [](A a, A b, A &) { return a + b; }, [](double a, double b) { return a + b; }},
        {"add 2", SCALAR, [](A a, A, A &) { return bland::add(a, 2.0f); }, [](double a, double) { return a + 2; }},
        {"subtract 2", SCALAR, [](A a, A, A &) { return bland::subtract(a, 2.0f); }, [](double a, double) { return a - 2; }},
        {"multiply 2", SCALAR, [](A a, A, A &) { return bland::multiply(a, 2.0f); }, [](double a, double) { return a * 2; }},
        {"divide 2", SCALAR, [](A a, A, A &) { return bland::divide(a, 2.0f); }, [](double a, double) { return a / 2; }},
        {"greater_than", COMPARE, [](A a, A b, A &) { return bland::greater_than(a, b); }, [](double a, double b) { return a > b; }},
        {"less_than_equal_to", COMPARE, [](A a, A b, A &) { return bland::less_than_equal_to(a, b); }, [](double a, double b) { return a <= b; }},
        {"equal_to", COMPARE, [](A a, A b, A &) { return bland::equal_to(a, b); }, [](double a, double b) { return a == b; }},
        {"less_than 4", COMPARE_SCALAR, [](A a, A, A &) { return bland::less_than(a, 4.0f); }, [](double a, double) { return a < 4; }},
        {"4 >=", COMPARE_SCALAR, [](A a, A, A &) { return bland::greater_than_equal_to(4.0f, a); }, [](double a, double) { return 4 >= a; }},
        {"square", UNARY, [](A a, A, A &) { return bland::square(a); }, [](double a, double) { return a * a; }},
        {"sqrt", UNARY, [](A a, A, A &) { return bland::sqrt(a); }, [](double a, double) { return (double)std::sqrt((float)a); }},
        {"abs", UNARY, [](A a, A, A &) { return bland::abs(a); }, [](double a, double) { return std::fabs(a); }},
        {"copy", UNARY, [](A a, A, A &) { return bland::copy(a); }, [](double a, double) { return a; }},
        {"to cpu", UNARY, [](A a, A, A &) { return a.to("cpu"); }, [](double a, double) { return a; }},
        {"copy into", UNARY_OUT, [](A a, A, A &o) { return bland::copy(a, o); }, [](double a, double) { return a; }},
        {"square into", UNARY_OUT, [](A a, A, A &o) { return bland::square(a, o); }, [](double a, double) { return a * a; }},
        {"abs into", UNARY_OUT, [](A a, A, A &o) { return bland::abs(a, o); }, [](double a, double) { return std::fabs(a); }},
        {"slice assignment", UNARY_OUT, [](A a, A, A &o) { bland::ndarray_slice z(o); z = a; return o; }, [](double a, double) { return a; }},
        {"fill 3", UNARY_OUT, [](A, A, A &o) { return bland::fill(o, 3.0f); }, [](double, double) { return 3; }},
        {"fill slice 3", UNARY_OUT, [](A, A, A &o) { bland::ndarray_slice z(o); return bland::fill(z, 3.0f); }, [](double, double) { return 3; }},
    };
    return v;
}
struct Red { const char *name; bool masked; std::function<ndarray(ndarray, ndarray, std::vector<int64_t>)> call; std::function<ndarray(ndarray, ndarray, ndarray &, std::vector<int64_t>)> into; };
const std::vector<Red> &reductions() {
    using A = ndarray; using X = std::vector<int64_t>;
    static const std::vector<Red> v{
        {"sum", false, [](A a, A, X x) { return bland::sum(a, x); }, [](A a, A, A &o, X x) { return bland::sum(a, o, x); }},
        {"max", false, [](A a, A, X x) { return bland::max(a, x); }, [](A a, A, A &o, X x) { return bland::max(a, o, x); }},
        {"mean", false, [](A a, A, X x) { return bland::mean(a, x); }, [](A a, A, A &o, X x) { return bland::mean(a, o, x); }},
        {"var", false, [](A a, A, X x) { return bland::var(a, x); }, [](A a, A, A &o, X x) { return bland::var(a, o, x); }},
        {"stddev", false, [](A a, A, X x) { return bland::stddev(a, x); }, [](A a, A, A &o, X x) { return bland::stddev(a, o, x); }},
        {"moment 3", false, [](A a, A, X x) { return bland::standardized_moment(a, 3, x); }, [](A a, A, A &o, X x) { return bland::standardized_moment(a, 3, o, x); }},
        {"mean of mean_stddev", false, [](A a, A, X x) { return bland::mean_stddev(a, x).first; }, [](A a, A, A &o, X x) { A s = bland::copy(o); return bland::mean_stddev(a, o, s, x).first; }},
        {"masked_mean", true, [](A a, A m, X x) { return bland::masked_mean(a, m, x); }, [](A a, A m, A &o, X x) { return bland::masked_mean(a, m, o, x); }},
        {"masked_var", true, [](A a, A m, X x) { return bland::masked_var(a, m, x); }, [](A a, A m, A &o, X x) { return bland::masked_var(a, m, o, x); }},
        {"masked_stddev", true, [](A a, A m, X x) { return bland::masked_stddev(a, m, x); }, [](A a, A m, A &o, X x) { return bland::masked_stddev(a, m, o, x); }},
        {"mean of masked_mean_stddev", true, [](A a, A m, X x) { return bland::masked_mean_stddev(a, m, x).first; }, [](A a, A m, A &o, X x) { A s = bland::copy(o); return bland::masked_mean_stddev(a, m, o, s, x).first; }},
    };
    return v;
}
struct Query { const char *name; std::function<void(ndarray)> call; };
const std::vector<Query> &queries() {
    static const std::vector<Query> v{
        {"scalarize", [](ndarray a) { a.scalarize<float>(); }},
        {"median", [](ndarray a) { bland::median(a); }},
        {"count_true", [](ndarray a) { bland::count_true(a); }},
        {"write_to_file", [](ndarray a) { bland::write_to_file(a, mc::scratch() + "/extent.raw"); }},
        {"repr", [](ndarray a) { a.repr(); }},
        {"fft_shift_mag_square", [](ndarray a) { bland::fft_shift_mag_square(a); }},
    };
    return v;
}
ndarray numbers(const Shape &s, DT t, int salt) {
    ndarray a(s, dl(t));
    for (int64_t k = 0; k < bl::numel(s); ++k) set_at(a, k, 1 + (k * (2 * salt + 3) + salt) % 7);
    return a;
}
template <typename F> std::string attempt(F f) {
    try { f(); return ""; } catch (mc::Fail &) { throw; } catch (std::exception &e) { return std::string("x") + e.what(); }
}

// ------------------------------------------------------------------ arrays never given anything
struct Raw {       // a default constructed array in memory that held something else
    alignas(ndarray) unsigned char mem[sizeof(ndarray)];
    ndarray *a;
    Raw(int pattern) {
        static ndarray live = numbers({4, 3}, F32, 1);
        static const unsigned char fillb[] = {0x00, 0x01, 0x02, 0xFF};
        if (pattern < 4) memset(mem, fillb[pattern], sizeof mem); else memcpy(mem, &live, sizeof mem);
        a = new (mem) ndarray;
    }
    ~Raw() { a->~ndarray(); }
};
void unset(Ctx &c) {
    Raw u(c.choose(5, "memory held")), u2(c.choose(2, "other memory") * 4);
    DT t = c.pick(std::vector<DT>{F32, U8}, "type");
    ndarray x = numbers({2, 3}, t, 1), m = numbers({2, 3}, U8, 2), o = numbers({2, 3}, t, 3);
    auto before = bl::values(o);
    int n1 = elementwise().size(), n2 = reductions().size(), n3 = queries().size();
    int k = c.choose(n1 + 2 * n2 + n3, "operation");
    std::string what, err;
    c.step();
    MC_CHECK(c, u.a->ndim() == 0 && u.a->shape().empty() && u.a->strides().empty() && u.a->offsets().empty() && u.a->data_ptr<void>() == nullptr, "unset-shape", "an array never given anything has a shape");
    if (k < n1) {
        auto &op = elementwise()[k];
        bool two = op.kind == BINARY || op.kind == COMPARE || op.kind == UNARY_OUT;
        int which = two ? 1 + c.choose(3, "unset arguments") : 1;
        what = std::string(op.name) + " with unset " + (which == 1 ? "first" : which == 2 ? "second" : "both");
        if (op.kind == UNARY_OUT && std::string(op.name).rfind("fill", 0) == 0) c.assume(which == 2);
        if (!strcmp(op.name, "to cpu")) { err = attempt([&] { ndarray r = u.a->to("cpu"); MC_CHECK(c, r.ndim() == 0 && r.data_ptr<void>() == nullptr, "unset-to", "an unset array moved to the cpu has elements"); throw std::runtime_error("nothing"); }); }
        else {
            ndarray a = which & 1 ? *u.a : x, b = which & 2 ? (which & 1 ? *u2.a : *u.a) : x;
            ndarray out = which & 2 ? *u.a : o;
            err = attempt([&] { op.call(a, b, out); });
        }
    } else if (k < n1 + 2 * n2) {
        auto &op = reductions()[(k - n1) % n2];
        bool into = k - n1 >= n2;
        int which = 1 + c.choose((op.masked ? 2 : 1) * (into ? 2 : 1) * 2 - 1, "unset arguments");     // bit 0 array, then mask, then out
        int bit_out = op.masked ? 4 : 2;
        std::vector<int64_t> axes = c.choose(2, "axis") ? std::vector<int64_t>{1} : std::vector<int64_t>{};
        what = std::string(op.name) + (into ? " into" : "") + " with unset arguments " + std::to_string(which);
        ndarray out = which & bit_out ? *u2.a : numbers({2}, t, 1);
        if (into && axes.empty() && !(which & bit_out)) out = numbers({1}, t, 1);
        err = attempt([&] { ndarray a = which & 1 ? *u.a : x, mm = op.masked && which & 2 ? *u.a : m; if (into) op.into(a, mm, out, axes); else op.call(a, mm, axes); });
    } else {
        auto &q = queries()[k - n1 - 2 * n2];
        what = std::string(q.name) + " of an unset array";
        err = attempt([&] { q.call(*u.a); });
        if (!strcmp(q.name, "repr")) err = "x";        // describing it is harmless
    }
    MC_NOTE(c, what);
    MC_CHECK(c, !err.empty(), "unset-accepted", what + " did not report an error");
    MC_CHECK(c, same(bl::values(o), before), "unset-wrote", what + " changed another array");
    c.state(mc::hash_str(what)); c.outcome(mc::hash_str(err));
}

// ------------------------------------------------------------------ no elements, or no dimensions
const std::vector<Shape> &odd_shapes() { static const std::vector<Shape> v{{}, {0}, {2, 0}, {0, 3}, {1, 0, 2}, {0, 0}, {2, 3, 0}}; return v; }
struct Held { ndarray arr; ndarray parent; };
// how such an array comes about: the constructor, an exchanged tensor, an empty slice (or, without dimensions, a squeeze)
Held odd(Ctx &c, const Shape &s, DT t, int salt) {
    int how = c.choose(s.empty() ? 3 : 2, "made by");
    Held h;
    if (s.empty()) {
        if (how == 0) { h.arr = ndarray(Shape{}, dl(t)); set_at(h.arr, 0, 3 + salt); }
        else if (how == 1) { h.parent = numbers({1}, t, salt); set_at(h.parent, 0, 3 + salt); h.arr = h.parent.squeeze(0); }
        else { h.parent = numbers({5}, t, salt); set_at(h.parent, 3, 3 + salt); h.arr = ndarray(cut(h.parent, 0, 3, 4)).squeeze(0); }
        return h;
    }
    if (how == 0) { h.arr = ndarray(s, dl(t)); return h; }
    Shape big = s;
    for (auto &x : big) x += 2;
    h.parent = numbers(big, t, salt);
    ndarray v = h.parent;
    for (size_t d = 0; d < s.size(); ++d) { auto z = cut(v, d, 1, 1 + s[d]); v = ndarray(z); }
    h.arr = v;
    return h;
}
void odd_elementwise(Ctx &c) {
    Shape s = c.pick(odd_shapes(), "shape");
    DT t = c.pick(std::vector<DT>{F32, I32, U8}, "type");
    auto op = c.pick(elementwise(), "operation");
    c.assume(!(t != F32 && strcmp(op.name, "sqrt") == 0));
    Held a = odd(c, s, t, 0), b = a, o = a;
    bool two = op.kind == BINARY || op.kind == COMPARE, into = op.kind == UNARY_OUT;
    if (two) b = odd(c, s, t, 1);
    if (into) o = odd(c, s, t, 2);
    std::string what = std::string(op.name) + " of " + bl::name(t) + mc::str(s);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    auto pa = a.parent.ndim() ? bl::values(a.parent) : std::vector<double>{};
    double va = s.empty() ? bl::get(a.arr, {}) : 0, vb = s.empty() ? bl::get(b.arr, {}) : 0;
    ndarray r;
    std::string err = attempt([&] { r = op.call(a.arr, b.arr, o.arr); });
    MC_CHECK(c, err.empty(), "odd-rejected", what + ": " + err);
    MC_CHECK(c, r.shape() == s, "odd-shape", what + " has shape " + mc::str(r.shape()));
    if (s.empty()) MC_CHECK(c, same(bl::get(r, {}), with(of(r.dtype()), [&](auto z) { return (double)(decltype(z))op.value(va, vb); })), "odd-value", what + " is " + mc::str(bl::get(r, {})));
    if (a.parent.ndim()) MC_CHECK(c, same(bl::values(a.parent), pa), "odd-wrote", what + " changed elements it was not given");
    c.outcome(mc::hash_str(what + mc::str(r.shape())));
}
void odd_reduce(Ctx &c) {
    Shape s = c.pick(odd_shapes(), "shape");
    DT t = c.pick(std::vector<DT>{F32, U8}, "type");
    auto op = c.pick(reductions(), "operation");
    std::vector<std::vector<int64_t>> ax{{}};
    for (size_t d = 0; d < s.size(); ++d) ax.push_back({(int64_t)d});
    if (s.size() > 1) ax.push_back({0, 1});
    auto axes = c.pick(ax, "axes");
    bool into = c.choose(2, "into");
    Held a = odd(c, s, t, 0), m = odd(c, s, U8, 1);
    std::string what = std::string(op.name) + " of " + bl::name(t) + mc::str(s) + " over " + mc::str(axes);
    MC_NOTE(c, what);
    Shape want;
    for (size_t d = 0; d < s.size(); ++d) if (!axes.empty() && std::find(axes.begin(), axes.end(), (int64_t)d) == axes.end()) want.push_back(s[d]);
    if (want.empty()) want = {1};
    c.step(); c.state(mc::hash_str(what));
    ndarray r, o = numbers(want, t, 2);
    std::string err = attempt([&] { r = into ? op.into(a.arr, m.arr, o, axes) : op.call(a.arr, m.arr, axes); });
    // what the reduction of nothing is, other than a sum, is left open: a value or a report
    if (!err.empty()) { MC_CHECK(c, strcmp(op.name, "sum") != 0, "odd-rejected", what + ": " + err); c.outcome(mc::hash_str(err)); return; }
    MC_CHECK(c, r.shape() == want, "odd-shape", what + " has shape " + mc::str(r.shape()));
    if (!strcmp(op.name, "sum")) for (double v : bl::values(r)) MC_CHECK(c, v == (s.empty() ? bl::get(a.arr, {}) : 0), "odd-value", what + " is " + mc::str(v));
    if (s.empty() && (!strcmp(op.name, "mean") || !strcmp(op.name, "max"))) MC_CHECK(c, bl::values(r)[0] == bl::get(a.arr, {}), "odd-value", what);
    c.outcome(mc::hash_str(what));
}
void odd_misc(Ctx &c) {
    Shape s = c.pick(odd_shapes(), "shape");
    DT t = c.pick(std::vector<DT>{F32, U8}, "type");
    Held a = odd(c, s, t, 0);
    int k = c.choose(9, "operation");
    std::string what = std::string(bl::name(t)) + mc::str(s) + " operation " + std::to_string(k);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    int64_t n = bl::numel(s);
    MC_CHECK(c, a.arr.numel() == n && a.arr.ndim() == (int64_t)s.size() && a.arr.shape() == s, "odd-shape", what);
    std::string err;
    if (k == 0) {
        float v = -1;
        err = t == F32 ? attempt([&] { v = a.arr.scalarize<float>(); }) : attempt([&] { v = a.arr.scalarize<uint8_t>(); });
        if (n == 0) MC_CHECK(c, !err.empty(), "empty-scalar", what + ": an array without elements has the value " + mc::str(v));
        else MC_CHECK(c, err.empty() && v == bl::get(a.arr, {}), "odd-value", what + err);
    } else if (k == 1) {
        int64_t v = -1;
        err = attempt([&] { v = bland::count_true(numbers(s, U8, 1)); });
        MC_CHECK(c, err.empty() && v == n, "odd-count", what + ": " + std::to_string(v) + err);
    } else if (k == 2) {
        std::string f = mc::scratch() + "/odd.raw";
        bland::write_to_file(a.arr, f);
        std::ifstream i(f, std::ios::binary | std::ios::ate);
        MC_CHECK(c, (int64_t)i.tellg() == n * (t == F32 ? 4 : 1), "odd-file", what);
        ndarray r = bland::read_from_file(f, dl(t));
        MC_CHECK(c, r.shape() == Shape{n} && (n == 0 || bl::values(r)[0] == bl::get(a.arr, {})), "odd-file", what);
        ::unlink(f.c_str());
    } else if (k == 3) {
        std::string r;
        err = attempt([&] { r = a.arr.repr(); });
        MC_CHECK(c, err.empty() && !r.empty(), "odd-repr", what + err);
    } else if (k == 4) {       // adding a dimension of one in every place
        int64_t d = c.choose((int)s.size() + 1, "axis");
        ndarray r = a.arr.unsqueeze(d);
        Shape w = s; w.insert(w.begin() + d, 1);
        MC_CHECK(c, r.shape() == w && same(bl::values(r), bl::values(a.arr)), "odd-unsqueeze", what + " gives " + mc::str(r.shape()));
        ndarray q = r.squeeze(d);
        MC_CHECK(c, q.shape() == s && same(bl::values(q), bl::values(a.arr)), "odd-squeeze", what + " gives " + mc::str(q.shape()));
    } else if (k == 5) {       // reshape to every other shape with as many elements
        Shape w = n ? std::vector<Shape>{{1}, {1, 1}, {}}[c.choose(3, "new shape")] : c.pick(odd_shapes(), "new shape");
        ndarray r;
        err = attempt([&] { r = a.arr.reshape(w); });
        if (bl::numel(w) != n) MC_CHECK(c, !err.empty(), "odd-reshape", what + " accepted " + mc::str(w));
        else if (err.empty()) MC_CHECK(c, r.shape() == w && same(bl::values(r), bl::values(a.arr)), "odd-reshape", what + " gives " + mc::str(r.shape()));
    } else if (k == 6) {       // slices of it
        c.assume(!s.empty());
        int64_t d = c.choose((int)s.size(), "axis");
        int64_t st = 1 + c.choose(2, "stride");
        ndarray r;
        err = attempt([&] { auto z = cut(a.arr, d, 0, s[d], st); r = ndarray(z); });
        Shape w = s; w[d] = (s[d] + st - 1) / st;
        MC_CHECK(c, err.empty() && r.shape() == w, "odd-slice", what + " gives " + mc::str(r.shape()) + err);
    } else if (k == 7) {       // through the exchange structure
        DLManagedTensor *m = a.arr.get_managed_tensor();
        MC_CHECK(c, m->dl_tensor.ndim == (int)s.size(), "odd-exchange", what);
        ndarray r(*m);
        MC_CHECK(c, r.shape() == s && same(bl::values(r), bl::values(a.arr)), "odd-exchange", what);
    } else {
        err = attempt([&] { bland::median(a.arr); });      // open: any answer but a crash
    }
    c.outcome(mc::hash_str(what + err));
}

// ------------------------------------------------------------------ more than 2^31 elements
// Untouched pages of a reservation cost nothing, so a few elements in the far corners of a huge array are placed and operated on.
struct Huge {
    void *mem = MAP_FAILED; size_t bytes;
    Huge(size_t n) : bytes(n) { mem = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (mem == MAP_FAILED) throw std::runtime_error("harness: cannot reserve address space"); }
    void clear() { madvise(mem, bytes, MADV_DONTNEED); }
};
struct Tens { DLManagedTensor m; std::vector<int64_t> shape; };
ndarray huge(Huge &h, const Shape &s, DT t) {
    h.clear();
    auto *k = new Tens;
    k->shape = s;
    k->m = DLManagedTensor{};
    k->m.dl_tensor.data = h.mem; k->m.dl_tensor.device = DLDevice{kDLCPU, 0}; k->m.dl_tensor.ndim = s.size(); k->m.dl_tensor.dtype = dl(t);
    k->m.dl_tensor.shape = k->shape.data(); k->m.dl_tensor.strides = nullptr; k->m.dl_tensor.byte_offset = 0;
    k->m.manager_ctx = k;
    k->m.deleter = [](DLManagedTensor *m) { delete (Tens *)m->manager_ctx; };
    return ndarray(k->m);
}
Huge &store(int i) { static Huge h[3]{Huge((size_t)40 << 30), Huge((size_t)40 << 30), Huge((size_t)40 << 30)}; return h[i]; }
// shapes of more than 2^31 and 2^32 elements, and the blocks of a few elements taken from them
struct Block { Shape shape; Shape start, count, step; };
const std::vector<Block> &blocks() {
    const int64_t G = (int64_t)1 << 30;
    static const std::vector<Block> v{
        {{2 * G + 100}, {2 * G + 90}, {5}, {1}},                              // one offset beyond int
        {{4 * G + 100}, {4 * G + 70}, {11}, {2}},                             // beyond unsigned
        {{4 * G + 100}, {50}, {3}, {2 * G}},                                  // a step beyond int
        {{3, 2 * G}, {0, 2 * G - 9}, {3, 9}, {1, 1}},                         // a row longer than int
        {{70000, 70000}, {69990, 69980}, {3, 9}, {2, 2}},                     // an ordinary looking matrix
        {{70000, 70000}, {0, 0}, {2, 2}, {69999, 69999}},                     // its corners
        {{3, 46341, 46341}, {0, 46339, 3}, {3, 2, 10}, {1, 1, 3}},
        {{6, 1, 2 * G - 100}, {1, 0, 7}, {2, 1, 9}, {4, 1, 5}},
    };
    return v;
}
ndarray take(const ndarray &a, const Block &b) {
    ndarray v = a;
    for (size_t d = 0; d < b.shape.size(); ++d) { auto z = cut(v, d, b.start[d], b.start[d] + (b.count[d] - 1) * b.step[d] + 1, b.step[d]); v = ndarray(z); }
    return v;
}
struct BigArr { ndarray whole, part; };
BigArr big(int slot, const Block &b, DT t, int salt) {
    BigArr r;
    r.whole = huge(store(slot), b.shape, t);
    r.part = take(r.whole, b);
    return r;
}
// own arithmetic: where the elements of the block are
std::vector<int64_t> places(const Block &b) {
    std::vector<int64_t> v;
    Shape i(b.count.size(), 0);
    do {
        Shape g(i.size());
        for (size_t d = 0; d < i.size(); ++d) g[d] = b.start[d] + i[d] * b.step[d];
        v.push_back(ravel(g, b.shape));
    } while (next(i, b.count));
    return v;
}
double number(int salt, size_t k) { return 1 + (k * (2 * salt + 3) + salt) % 7; }
void place(ndarray &a, const std::vector<int64_t> &at, int salt) { for (size_t k = 0; k < at.size(); ++k) set_at(a, at[k], number(salt, k)); }

void large_elementwise(Ctx &c) {
    auto b = c.pick(blocks(), "block");
    DT t = c.pick(std::vector<DT>{F32, I32, U8, U32}, "type");
    auto op = c.pick(elementwise(), "operation");
    bool two = op.kind == BINARY || op.kind == COMPARE, into = op.kind == UNARY_OUT;
    // which of the arguments and the result lie far out; the others are small arrays of the same shape
    int far = 1 + c.choose(two || into ? 3 : 1, "far");
    if (into && !strncmp(op.name, "fill", 4)) c.assume(far == 2);
    std::string what = std::string(op.name) + " " + bl::name(t) + " block " + mc::str(b.start) + "+" + mc::str(b.count) + "*" + mc::str(b.step) + " of " + mc::str(b.shape) + " far " + std::to_string(far);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    auto at = places(b);
    BigArr A, B;
    ndarray a = numbers(b.count, t, 0), y = numbers(b.count, t, 1);
    for (size_t k = 0; k < at.size(); ++k) { set_at(a, k, number(0, k)); set_at(y, k, number(1, k)); }
    if (far & 1) { A = big(0, b, t, 0); place(A.whole, at, 0); a = A.part; MC_CHECK(c, a.shape() == b.count, "large-slice", what + " has shape " + mc::str(a.shape())); }
    if (far & 2) { B = big(1, b, t, 1); place(B.whole, at, 1); y = B.part; }
    ndarray r = op.call(a, y, y);
    MC_CHECK(c, r.shape() == b.count, "large-shape", what);
    for (size_t k = 0; k < at.size(); ++k) {
        double want = with(of(r.dtype()), [&](auto z) { return (double)(decltype(z))op.value(number(0, k), number(1, k)); });
        double got = into && (far & 2) ? get_at(B.whole, at[k]) : bl::get(r, unravel(k, b.count));
        MC_CHECK(c, bl::close(got, want, 1e-6, 0), "large-value", what + ": element " + std::to_string(k) + " is " + mc::str(got) + ", expected " + mc::str(want));
        if (far & 1) MC_CHECK(c, get_at(A.whole, at[k]) == number(0, k), "large-source", what + " changed its argument");
    }
    c.outcome(mc::hash_str(what));
}
void large_reduce(Ctx &c) {
    auto b = c.pick(blocks(), "block");
    auto op = c.pick(reductions(), "operation");
    std::vector<std::vector<int64_t>> ax{{}};
    for (size_t d = 0; d < b.shape.size(); ++d) ax.push_back({(int64_t)d});
    auto axes = c.pick(ax, "axes");
    bool into = c.choose(2, "into");
    std::string what = std::string(op.name) + " block " + mc::str(b.start) + " of " + mc::str(b.shape) + " over " + mc::str(axes) + (into ? " into" : "");
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    auto at = places(b);
    BigArr A = big(0, b, F32, 0), M = big(1, b, U8, 1);
    place(A.whole, at, 0);
    for (size_t k = 0; k < at.size(); ++k) set_at(M.whole, at[k], k % 5 == 1);
    // reference: the same elements in a small array
    ndarray a(b.count, dl(F32)), m(b.count, dl(U8));
    for (size_t k = 0; k < at.size(); ++k) { set_at(a, k, number(0, k)); set_at(m, k, k % 5 == 1); }
    ndarray w, r;
    std::string refused = attempt([&] { w = op.call(a, m, axes); });
    if (!refused.empty()) {       // nothing left to average
        MC_CHECK(c, attempt([&] { op.call(A.part, M.part, axes); }) == refused, "large-reduce", what + ": a small array reports " + refused);
        c.outcome(mc::hash_str(refused));
        return;
    }
    if (into) {       // a result lying far out
        Shape ws = w.shape(), bs = ws, st = ws;
        Block o{bs, st, ws, Shape(ws.size(), 1)};
        for (size_t d = 0; d < ws.size(); ++d) { o.shape[d] = d == 0 ? ((int64_t)1 << 33) / std::max<int64_t>(1, bl::numel(Shape(ws.begin() + 1, ws.end()))) : ws[d]; o.start[d] = d == 0 ? o.shape[0] - ws[0] - 1 : 0; }
        BigArr O = big(2, o, of(w.dtype()), 2);
        op.into(A.part, M.part, O.part, axes);
        auto oat = places(o);
        auto wv = bl::values(w);
        for (size_t k = 0; k < oat.size(); ++k) MC_CHECK(c, same(get_at(O.whole, oat[k]), wv[k]), "large-reduce", what + ": " + mc::str(get_at(O.whole, oat[k])) + ", expected " + mc::str(wv[k]));
    } else {
        r = op.call(A.part, M.part, axes);
        MC_CHECK(c, r.shape() == w.shape() && same(bl::values(r), bl::values(w)), "large-reduce", what + ": " + mc::str(bl::values(r)) + ", expected " + mc::str(bl::values(w)));
    }
    c.outcome(mc::hash_vec(bl::values(w)));
}
void large_misc(Ctx &c) {
    auto b = c.pick(blocks(), "block");
    DT t = c.pick(std::vector<DT>{F32, U8}, "type");
    int k = c.choose(8, "operation");
    std::string what = std::string(bl::name(t)) + " block " + mc::str(b.start) + " of " + mc::str(b.shape) + " operation " + std::to_string(k);
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    auto at = places(b);
    BigArr A = big(0, b, t, 0);
    place(A.whole, at, 0);
    std::vector<double> want;
    for (size_t i = 0; i < at.size(); ++i) want.push_back(number(0, i));
    MC_CHECK(c, A.whole.numel() == bl::numel(b.shape), "large-numel", what + ": " + std::to_string(A.whole.numel()));
    if (k == 0) MC_CHECK(c, same(bl::values(A.part), want), "large-slice", what);
    else if (k == 1) {
        Shape i(b.count.size(), 0);
        size_t n = 0;
        do {
            double v = t == F32 ? (double)A.part.scalarize<float>(i) : (double)A.part.scalarize<uint8_t>(i);
            MC_CHECK(c, v == want[n], "large-scalarize", what + " at " + mc::str(i) + " is " + mc::str(v));
            ++n;
        } while (next(i, b.count));
        Block one = b;
        for (size_t d = 0; d < b.count.size(); ++d) { one.start[d] += (b.count[d] - 1) * b.step[d]; one.count[d] = 1; }
        ndarray p = take(A.whole, one);
        double v = t == F32 ? (double)p.scalarize<float>() : (double)p.scalarize<uint8_t>();
        MC_CHECK(c, v == want.back(), "large-scalarize", what + " last element " + mc::str(v));
    } else if (k == 2) {
        std::string f = mc::scratch() + "/large.raw";
        bland::write_to_file(A.part, f);
        ndarray r = bland::read_from_file(f, dl(t));
        MC_CHECK(c, same(bl::values(r), want), "large-file", what + " wrote " + mc::str(bl::values(r)));
        ::unlink(f.c_str());
    } else if (k == 3) {
        c.assume(t == U8);
        for (size_t i = 0; i < at.size(); ++i) set_at(A.whole, at[i], i % 3 != 0);
        int64_t n = 0;
        for (size_t i = 0; i < at.size(); ++i) n += i % 3 != 0;
        MC_CHECK(c, bland::count_true(A.part) == n, "large-count", what);
    } else if (k == 4) {       // reshaping keeps what is where
        Shape w{bl::numel(b.shape)};
        if (b.shape.size() == 1) w = Shape{2, b.shape[0] / 2};
        ndarray r = A.whole.reshape(w);
        MC_CHECK(c, r.shape() == w && r.numel() == bl::numel(w), "large-reshape", what + " gives " + mc::str(r.shape()));
        for (size_t i = 0; i < at.size(); ++i) {
            Shape g = unravel(at[i], w);
            double v = t == F32 ? (double)r.scalarize<float>(g) : (double)r.scalarize<uint8_t>(g);
            MC_CHECK(c, v == want[i], "large-reshape", what + " element " + mc::str(g));
        }
        std::string err = attempt([&] { A.whole.reshape({bl::numel(b.shape) - ((int64_t)1 << 32)}); });
        MC_CHECK(c, !err.empty(), "large-reshape", what + ": accepted a shape of 2^32 elements fewer");
    } else if (k == 5) {
        bland::stride_helper h(A.part.shape(), A.part.strides());
        auto of = A.part.offsets();
        int64_t base = 0;
        for (auto x : of) base += x;
        Shape i(b.count.size(), 0);
        size_t n = 0;
        do MC_CHECK(c, base + h.to_linear_offset(i) == at[n++], "large-offset", what); while (next(i, b.count));
    } else if (k == 6) {
        std::string r = A.part.repr();
        std::string body = r.substr(r.find('\n') + 1);
        std::stringstream ss(body);
        std::vector<double> got;
        std::string tok;
        while (ss >> tok) got.push_back(atof(tok.c_str()));
        std::vector<double> head(want.begin(), want.begin() + std::min<size_t>(25, want.size()));
        MC_CHECK(c, same(got, head), "large-repr", what + " shows " + r);
    } else {
        DLManagedTensor *m = A.part.get_managed_tensor();
        ndarray r(*m);
        MC_CHECK(c, r.shape() == b.count && same(bl::values(r), want), "large-exchange", what);
    }
    c.outcome(mc::hash_str(what));
}
// sequences of more than 2^31 items
void large_creators(Ctx &c) {
    int k = c.choose(mc::thorough() ? 3 : 1, "creator");
    int64_t n = ((int64_t)1 << 31) + 3;
    static const char *nm[] = {"linspace", "arange", "arange (64 bit)"};
    std::string what = std::string(nm[k]) + " of " + mc::str(n) + " items";
    MC_NOTE(c, what);
    c.step(); c.state(k);
    ndarray a = k == 0 ? bland::linspace<int64_t>(0, 200, (size_t)n, dl(U8)) : k == 1 ? bland::arange<uint32_t, uint32_t, uint32_t>(0, (uint32_t)n, 1, dl(U8)) : bland::arange<int64_t, int64_t, int64_t>(-5, n - 5, 1, dl(U8));
    MC_CHECK(c, a.shape() == Shape{n}, "large-creator", what + " has shape " + mc::str(a.shape()));
    const uint8_t *p = a.data_ptr<uint8_t>();
    for (int64_t i : {(int64_t)0, (int64_t)1, (int64_t)77, n / 2, n - 5, n - 4, n - 3, n - 2, n - 1}) {
        int64_t v = k == 0 ? (int64_t)(200.0 * i / n) : k == 1 ? i : i - 5;
        MC_CHECK(c, p[i] == (uint8_t)v, "large-creator", what + ": item " + mc::str(i) + " is " + mc::str((int)p[i]) + ", expected " + mc::str((int)(uint8_t)v));
    }
    c.outcome(k);
}
} // namespace
MC_PROPERTY(A11) {
    mc::explore("unset", unset);
    mc::explore("odd-elementwise", odd_elementwise);
    mc::explore("odd-reduce", odd_reduce);
    mc::explore("odd-misc", odd_misc);
    mc::explore("large-elementwise", large_elementwise);
    mc::explore("large-reduce", large_reduce);
    mc::explore("large-misc", large_misc);
    mc::explore("large-creators", large_creators);
}
