// A02: element-wise arithmetic and unary maps;  A03: comparisons and bit-and
#include "bl.hpp"
using namespace bl;
using mc::Ctx;

namespace {
const std::vector<DT> kinds{F32, I32, U8, U32}, kinds5{F32, I32, U8, U32, I64};      // of pairs of arrays; of single arrays
template <typename F> auto with4(DT t, F f) {
    switch (t) { case F32: return f(float{}); case I32: return f(int32_t{}); case U8: return f(uint8_t{}); default: return f(uint32_t{}); }
}
template <typename F> auto with5(DT t, F f) { return t == I64 ? f(int64_t{}) : with4(t, f); }
std::vector<double> numbers(DT t, int64_t n, int salt) {
    static const std::vector<double> f{1.5, -2.25, 0.0, 7.0, -0.5, 100.0, 3.0}, i{3, -2, 0, 7, 250, -100, 1}, u{3, 0, 7, 1, 250, 16, 5};
    static const std::vector<double> w{3, -2, 0, 7, 4294967298.0, -1099511627777.0, 1};
    auto &s = t == F32 ? f : t == I32 ? i : t == I64 ? w : u;
    std::vector<double> v;
    for (int64_t k = 0; k < n; ++k) v.push_back(s[(k * (salt + 1) + salt) % s.size()] + (t == U8 ? 0 : (k / 7)));
    return v;
}
double avoid_zero(double v) { return v == 0 ? 4 : v; }

struct Pair { Shape a, b; bool ok; };
const std::vector<Pair> &pairs() {
    static const std::vector<Pair> p{
        {{1}, {1}, true}, {{8}, {8}, true}, {{9}, {9}, true}, {{17}, {1}, true}, {{1}, {17}, true}, {{2, 3}, {2, 3}, true}, {{2, 9}, {2, 9}, true},
        {{2, 9}, {1, 9}, true}, {{1, 9}, {2, 9}, true}, {{3, 1}, {1, 4}, true}, {{1, 4}, {3, 1}, true}, {{2, 3}, {2, 1}, true}, {{2, 1}, {2, 3}, true},
        {{2, 3}, {3}, true}, {{3}, {2, 3}, true}, {{3, 3}, {3}, true}, {{2, 3}, {1}, true}, {{2, 2, 3}, {2, 2, 3}, true}, {{2, 2, 3}, {2, 1, 3}, true}, {{2, 2, 3}, {2, 3}, true},
        {{1, 2, 1}, {2, 1, 3}, true}, {{2}, {3}, false}, {{2, 3}, {2}, false}, {{2, 3}, {3, 3}, false}, {{3, 2}, {2, 3}, false}};
    return p;
}
Shape bshape(const Shape &a, const Shape &b) {
    Shape o(std::max(a.size(), b.size()));
    for (size_t i = 0; i < o.size(); ++i) {
        int64_t x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        o[o.size() - 1 - i] = std::max(x, y);
    }
    return o;
}
double pull(const std::vector<double> &v, const Shape &s, const Shape &idx) {
    Shape j(s.size());
    for (size_t d = 0; d < s.size(); ++d) { auto k = idx[idx.size() - s.size() + d]; j[d] = s[d] == 1 ? 0 : k; }
    return v[ravel(j, s)];
}
enum Op { ADD, SUB, MUL, DIV };
const char *opname[] = {"+", "-", "*", "/"};
// C++ semantics of one element, then conversion to the result type; `defined` is false where C++ leaves it undefined
template <typename A, typename B, typename Out> double elem(int op, A a, B b, bool &defined) {
    auto as_out = [&](auto r) {
        using R = decltype(r);
        if (std::is_floating_point<R>::value && std::is_integral<Out>::value) {
            double d = (double)r;
            if (!(d > (double)std::numeric_limits<Out>::min() - 1 && d < (double)std::numeric_limits<Out>::max() + 1)) { defined = false; return 0.0; }
        }
        return (double)(Out)r;
    };
    switch (op) {
    case ADD: return as_out(a + b);
    case SUB: return as_out(a - b);
    case MUL: return as_out(a * b);
    default:
        if (std::is_integral<A>::value && std::is_integral<B>::value && b == (B)0) { defined = false; return 0; }
        return as_out(a / b);
    }
}
ndarray call(int op, bool as_operator, const ndarray &a, const ndarray &b) {
    switch (op) {
    case ADD: return as_operator ? a + b : bland::add(a, b);
    case SUB: return as_operator ? a - b : bland::subtract(a, b);
    case MUL: return as_operator ? a * b : bland::multiply(a, b);
    default: return as_operator ? a / b : bland::divide(a, b);
    }
}
template <typename S> ndarray call_scalar(int op, const ndarray &a, S s, int form) {   // form 0: function, 1: a op s, 2: s op a
    if (form == 2) switch (op) { case ADD: return s + a; case SUB: return s - a; case MUL: return s * a; default: return s / a; }
    if (form == 1) switch (op) { case ADD: return a + s; case SUB: return a - s; case MUL: return a * s; default: return a / s; }
    switch (op) { case ADD: return bland::add(a, s); case SUB: return bland::subtract(a, s); case MUL: return bland::multiply(a, s); default: return bland::divide(a, s); }
}
void unchanged(Ctx &c, const Built &b, const char *which) { MC_CHECK(c, intact(b, true), "operand-modified", std::string(which) + " was modified by the operation"); }

void binary(Ctx &c) {
    int op = c.choose(4, "op");
    auto pr = c.pick(pairs(), "shapes");
    DT ta = c.pick(kinds, "a type"), tb = c.pick(kinds, "b type");
    Layout la = (Layout)c.choose(NLAYOUT, "a layout"), lb = (Layout)c.choose(NLAYOUT, "b layout");
    bool as_op = mc::thorough() ? c.flip("operator") : (la == lb);
    auto va = numbers(ta, bl::numel(pr.a), 0), vb = numbers(tb, bl::numel(pr.b), 2);
    if (op == DIV) for (auto &x : vb) x = avoid_zero(x);
    Built A = layout(pr.a, ta, va, la), B = layout(pr.b, tb, vb, lb, 55);
    c.step();
    std::string what = A.desc + " " + opname[op] + " " + B.desc;
    MC_NOTE(c, what);
    ndarray r;
    bool threw = false;
    try { ndarray t = call(op, as_op, A.arr, B.arr); r = t; } catch (std::exception &e) { threw = true; MC_NOTE(c, std::string("threw: ") + e.what()); }
    if (!pr.ok) { MC_CHECK(c, threw, "incompatible-shapes-accepted", what + " did not fail"); return; }
    // a broadcast the library refuses outright is not a wrong answer, except for equal shapes / equal ranks
    if (threw) { MC_CHECK(c, pr.a.size() != pr.b.size(), "compatible-shapes-rejected", what + " was refused"); return; }
    Shape os = bshape(pr.a, pr.b);
    MC_CHECK(c, r.shape() == os, "result-shape", what + ": result shape " + mc::str(r.shape()) + ", expected " + mc::str(os));
    DT to = of(r.dtype());
    MC_CHECK(c, to == ta, "result-type", what + ": result type changed to " + name(to));
    Shape i(os.size(), 0);
    uint64_t h = 0;
    do {
        double a = pull(va, pr.a, i), b = pull(vb, pr.b, i);
        bool def = true;
        double e = with5(ta, [&](auto x) { using A_ = decltype(x); return with4(tb, [&](auto y) { using B_ = decltype(y); return elem<A_, B_, A_>(op, (A_)a, (B_)b, def); }); });
        double g = bl::get(r, i);
        h = mc::mix(h, mc::hash_bytes(&g, 8));
        if (def) MC_CHECK(c, same(g, e), "value", what + ": element " + mc::str(i) + " = " + mc::str(g) + ", expected " + mc::str(a) + opname[op] + mc::str(b) + " = " + mc::str(e));
    } while (next(i, os));
    unchanged(c, A, "left operand"); unchanged(c, B, "right operand");
    bland::fill(r, 9);
    unchanged(c, A, "left operand (after writing to the result)"); unchanged(c, B, "right operand (after writing to the result)");
    c.state(mc::mix(mc::hash_str(what), op)); c.outcome(h);
}
void scalar(Ctx &c) {
    int op = c.choose(4, "op"), form = c.choose(3, "form");
    static const std::vector<Shape> shapes{{1}, {7}, {9}, {3, 1}, {2, 9}, {2, 1, 3}, {17}};
    Shape s = c.pick(shapes, "shape");
    DT ta = c.pick(kinds5, "a type"), ts = c.pick(kinds, "scalar type");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    double sv = c.pick(ts == F32 ? std::vector<double>{2.5, -0.25} : ts == I32 ? std::vector<double>{3, -7} : std::vector<double>{3, 200}, "scalar");
    auto va = numbers(ta, bl::numel(s), 1);
    if (op == DIV && form == 2) for (auto &x : va) x = avoid_zero(x);
    Built A = layout(s, ta, va, la);
    c.step();
    std::string what = form == 2 ? mc::str(sv) + "(" + name(ts) + ") " + opname[op] + " " + A.desc : A.desc + " " + opname[op] + " " + mc::str(sv) + "(" + name(ts) + ")";
    MC_NOTE(c, what);
    ndarray r = with4(ts, [&](auto y) { return call_scalar(op, A.arr, (decltype(y))sv, form); });
    MC_CHECK(c, r.shape() == s, "scalar-shape", what + ": result shape " + mc::str(r.shape()));
    MC_CHECK(c, of(r.dtype()) == ta, "scalar-type", what + ": result type changed");
    Shape i(s.size(), 0);
    uint64_t h = 0;
    do {
        double a = va[ravel(i, s)];
        bool def = true;
        double e = with5(ta, [&](auto x) { using A_ = decltype(x); return with4(ts, [&](auto y) { using B_ = decltype(y);
            return form == 2 ? elem<B_, A_, A_>(op, (B_)sv, (A_)a, def) : elem<A_, B_, A_>(op, (A_)a, (B_)sv, def); }); });
        double g = bl::get(r, i);
        h = mc::mix(h, mc::hash_bytes(&g, 8));
        if (def) MC_CHECK(c, same(g, e), form == 2 ? "scalar-first-value" : "scalar-value", what + ": element " + mc::str(i) + " (" + mc::str(a) + ") gave " + mc::str(g) + ", expected " + mc::str(e));
    } while (next(i, s));
    unchanged(c, A, "operand");
    c.state(mc::hash_str(what)); c.outcome(h);
}
void unary(Ctx &c) {
    int op = c.choose(4, "op");            // square sqrt abs copy
    static const char *nm[] = {"square", "sqrt", "abs", "copy"};
    static const std::vector<Shape> shapes{{1}, {9}, {2, 3}, {2, 1, 3}, {3, 1}, {1, 3}};
    Shape s = c.pick(shapes, "shape");
    DT ta = c.pick(kinds5, "type");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    auto va = numbers(ta, bl::numel(s), 1);
    if (op == 1) for (auto &x : va) x = std::fabs(x);
    int out_kind = c.choose(3, "out");     // 0: fresh, 1: given out same shape, 2: given out, broadcast
    Shape os = s;
    if (out_kind == 2) { bool any = false; for (auto &d : os) if (d == 1) { d = 4; any = true; } c.assume(any); }
    Built A = layout(s, ta, va, la), O;
    DT to = ta;
    if (out_kind) {
        to = c.pick(kinds5, "out type");
        O = layout(os, to, std::vector<double>(bl::numel(os), 13), (Layout)c.choose(NLAYOUT, "out layout"), 66);
    }
    c.step();
    std::string what = std::string(nm[op]) + " of " + A.desc + (out_kind ? " into " + O.desc : "");
    MC_NOTE(c, what);
    ndarray r;
    if (!out_kind) r = op == 0 ? bland::square(A.arr) : op == 1 ? bland::sqrt(A.arr) : op == 2 ? bland::abs(A.arr) : bland::copy(A.arr);
    else r = op == 0 ? bland::square(A.arr, O.arr) : op == 1 ? bland::sqrt(A.arr, O.arr) : op == 2 ? bland::abs(A.arr, O.arr) : bland::copy(A.arr, O.arr);
    MC_CHECK(c, r.shape() == os, "unary-shape", what + ": result shape " + mc::str(r.shape()));
    uint64_t h = 0;
    Shape i(os.size(), 0);
    do {
        double a = pull(va, s, i);
        double x = op == 0 ? a * a : op == 1 ? std::sqrt(a) : op == 2 ? std::fabs(a) : a;
        bool def = true;
        double e = with5(ta, [&](auto z) { using A_ = decltype(z); A_ q = (A_)a;
            return with5(to, [&](auto w) { using O_ = decltype(w);
                auto conv = [&](auto v) { double d = (double)v; if (std::is_floating_point<decltype(v)>::value && std::is_integral<O_>::value && !(d > (double)std::numeric_limits<O_>::min() - 1 && d < (double)std::numeric_limits<O_>::max() + 1)) { def = false; return 0.0; } return (double)(O_)v; };
                if (op == 0) return conv(q * q);
                if (op == 1) return conv(std::sqrt(q));
                if (op == 2) return conv(q < 0 ? (decltype(q))(0 - q) : q);
                return conv(q); }); });
        (void)x;
        for (int where = 0; where < (out_kind ? 2 : 1); ++where) {
            double g = bl::get(where ? O.arr : r, i);
            h = mc::mix(h, mc::hash_bytes(&g, 8));
            if (def) MC_CHECK(c, same(g, e), "unary-value", what + ": element " + mc::str(i) + " (" + mc::str(a) + ") gave " + mc::str(g) + ", expected " + mc::str(e));
        }
    } while (next(i, os));
    unchanged(c, A, "operand");
    if (out_kind) MC_CHECK(c, intact(O, false), "stray-write", what + ": elements outside the output view were written");
    c.state(mc::hash_str(what)); c.outcome(h);
}

// ---------------------------------------------------------------- comparisons
const char *cmpname[] = {">", ">=", "<", "<=", "==", "&"};
// integers compare by value, whatever their signedness
template <typename A, typename B> double cmp(int op, A a, B b) {
    if constexpr (std::is_integral<A>::value && std::is_integral<B>::value && !std::is_same<A, int64_t>::value)
        if (op < 5) return cmp<int64_t, int64_t>(op, a, b);
    switch (op) {
    case 0: return a > b; case 1: return a >= b; case 2: return a < b; case 3: return a <= b; case 4: return a == b;
    default: if constexpr (std::is_integral<A>::value && std::is_integral<B>::value) return (double)(uint8_t)(a & b); else return -1;
    }
}
template <typename L, typename R> ndarray call_cmp(int op, bool as_op, const L &a, const R &b) {
    if (as_op) switch (op) { case 0: return a > b; case 1: return a >= b; case 2: return a < b; case 3: return a <= b; case 4: return a == b; default: if constexpr (!std::is_floating_point<L>::value && !std::is_floating_point<R>::value) return a & b; else throw std::runtime_error("n/a"); }
    switch (op) {
    case 0: return bland::greater_than(a, b); case 1: return bland::greater_than_equal_to(a, b); case 2: return bland::less_than(a, b);
    case 3: return bland::less_than_equal_to(a, b); case 4: return bland::equal_to(a, b); default: if constexpr (!std::is_floating_point<L>::value && !std::is_floating_point<R>::value) return bland::logical_and(a, b); else throw std::runtime_error("n/a");
    }
}
void cmp_binary(Ctx &c) {
    int op = c.choose(6, "op");
    auto pr = c.pick(pairs(), "shapes");
    DT ta = c.pick(kinds, "a type"), tb = c.pick(kinds, "b type");
    Layout la = (Layout)c.choose(NLAYOUT, "a layout"), lb = (Layout)c.choose(NLAYOUT, "b layout");
    auto va = numbers(ta, bl::numel(pr.a), 0), vb = numbers(tb, bl::numel(pr.b), 1);
    Built A = layout(pr.a, ta, va, la), B = layout(pr.b, tb, vb, lb, 55);
    c.step();
    std::string what = A.desc + " " + cmpname[op] + " " + B.desc;
    MC_NOTE(c, what);
    ndarray r; bool threw = false;
    try { r = call_cmp(op, la == lb, A.arr, B.arr); } catch (std::exception &e) { threw = true; MC_NOTE(c, std::string("threw: ") + e.what()); }
    if (!pr.ok) { MC_CHECK(c, threw, "incompatible-shapes-accepted", what + " did not fail"); return; }
    bool fl = op == 5 && (ta == F32 || tb == F32);
    if (fl) { MC_CHECK(c, threw, "float-bit-and-accepted", what + " did not fail"); return; }
    if (threw) { MC_CHECK(c, pr.a.size() != pr.b.size(), "compatible-shapes-rejected", what + " was refused"); return; }
    Shape os = bshape(pr.a, pr.b);
    MC_CHECK(c, r.shape() == os, "result-shape", what + ": result shape " + mc::str(r.shape()) + ", expected " + mc::str(os));
    MC_CHECK(c, of(r.dtype()) == U8, "result-type", what + ": result is not an 8-bit mask");
    Shape i(os.size(), 0);
    uint64_t h = 0;
    do {
        double a = pull(va, pr.a, i), b = pull(vb, pr.b, i), g = bl::get(r, i);
        double e = with5(ta, [&](auto x) { using A_ = decltype(x); return with4(tb, [&](auto y) { using B_ = decltype(y); return cmp<A_, B_>(op, (A_)a, (B_)b); }); });
        h = mc::mix(h, (uint64_t)g);
        MC_CHECK(c, g == e, "value", what + ": element " + mc::str(i) + ": " + mc::str(a) + cmpname[op] + mc::str(b) + " gave " + mc::str(g));
    } while (next(i, os));
    unchanged(c, A, "left operand"); unchanged(c, B, "right operand");
    c.state(mc::hash_str(what)); c.outcome(h);
}
void cmp_scalar(Ctx &c) {
    int op = c.choose(6, "op");
    bool first = c.flip("scalar first"), as_op = c.flip("operator");
    static const std::vector<Shape> shapes{{1}, {7}, {9}, {3, 1}, {2, 9}, {2, 1, 3}};
    Shape s = c.pick(shapes, "shape");
    DT ta = c.pick(kinds5, "a type"), ts = c.pick(kinds, "scalar type");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    double sv = c.pick(ts == F32 ? std::vector<double>{1.5, -0.5, 7} : ts == I32 ? std::vector<double>{3, -2, 7, -300} : ts == U32 ? std::vector<double>{3, 300, 4294967294.0} : std::vector<double>{3, 7, 1}, "scalar");
    auto va = numbers(ta, bl::numel(s), 0);
    Built A = layout(s, ta, va, la);
    c.step();
    std::string what = first ? mc::str(sv) + "(" + name(ts) + ") " + cmpname[op] + " " + A.desc : A.desc + " " + cmpname[op] + " " + mc::str(sv) + "(" + name(ts) + ")";
    MC_NOTE(c, what);
    ndarray r; bool threw = false;
    try {
        r = with4(ts, [&](auto y) { using S = decltype(y); return first ? call_cmp(op, as_op, (S)sv, A.arr) : call_cmp(op, as_op, A.arr, (S)sv); });
    } catch (std::exception &e) { threw = true; }
    bool fl = op == 5 && (ta == F32 || ts == F32);
    if (fl) { MC_CHECK(c, threw, "float-bit-and-accepted", what + " did not fail"); return; }
    MC_CHECK(c, !threw, "comparison-refused", what + " threw");
    MC_CHECK(c, r.shape() == s && of(r.dtype()) == U8, "scalar-shape", what + ": result is not a mask of the operand's shape");
    Shape i(s.size(), 0);
    uint64_t h = 0;
    do {
        double a = va[ravel(i, s)], g = bl::get(r, i);
        double e = with5(ta, [&](auto x) { using A_ = decltype(x); return with4(ts, [&](auto y) { using B_ = decltype(y);
            return first ? cmp<B_, A_>(op, (B_)sv, (A_)a) : cmp<A_, B_>(op, (A_)a, (B_)sv); }); });
        h = mc::mix(h, (uint64_t)g);
        MC_CHECK(c, g == e, first ? "scalar-first-value" : "scalar-value", what + ": element " + mc::str(i) + " (" + mc::str(a) + ") gave " + mc::str(g) + ", expected " + mc::str(e));
    } while (next(i, s));
    unchanged(c, A, "operand");
    c.state(mc::hash_str(what)); c.outcome(h);
}

// ---------------------------------------------------------------- values at the ends of every type, in all pairs
const std::vector<double> &ends(DT t) {
    static const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    static const std::vector<double> f{0.0, -0.0, 1, -1, inf, -inf, nan, (double)std::numeric_limits<float>::max(), -(double)std::numeric_limits<float>::max(), (double)std::numeric_limits<float>::min(),
                                       (double)std::numeric_limits<float>::denorm_min(), 16777216.0, 0.5, -0.75, 255.0, 4294967296.0},
        i{0, 1, -1, 2, 2147483647.0, -2147483648.0, 2147483646.0, 16777217, -16777217, 65536, 46341, 256, 255}, u{0, 1, 2, 254, 255, 128, 127, 16}, w{0, 1, 2, 4294967295.0, 4294967294.0, 2147483648.0, 2147483647.0, 16777217, 65536, 256, 255};
    static const std::vector<double> l{0, 1, -1, 2, 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740991.0, -9007199254740991.0, 16777217, 3037000499.0, 256, 255};
    return t == F32 ? f : t == I32 ? i : t == U8 ? u : t == I64 ? l : w;
}
// not decided by the language: signed overflow, integer division by zero, conversion of a number that does not fit
template <typename A, typename B> bool overflows(int op, A a, B b) {
    if constexpr (std::is_integral<A>::value && std::is_integral<B>::value) {
        decltype(a + b) x = a, y = b, r;
        if (op == DIV) return y == 0 || (std::is_signed<decltype(r)>::value && y == (decltype(r))-1 && x == std::numeric_limits<decltype(r)>::min());
        if (std::is_unsigned<decltype(r)>::value) return false;
        return op == ADD ? __builtin_add_overflow(x, y, &r) : op == SUB ? __builtin_sub_overflow(x, y, &r) : __builtin_mul_overflow(x, y, &r);
    }
    return false;
}
template <typename A, typename B> bool exact(A a, B b) {       // an integer compared with a floating point number is one itself
    if constexpr (std::is_integral<A>::value && std::is_floating_point<B>::value) return (double)(float)a == (double)a;
    else if constexpr (std::is_integral<B>::value && std::is_floating_point<A>::value) return (double)(float)b == (double)b;
    else return true;
}
void extremes(Ctx &c, bool comparing) {
    int op = c.choose(comparing ? 6 : 4, "op");
    DT ta = c.pick(kinds5, "a type"), tb = c.pick(kinds, "b type");
    int form = (ta == I64 ? 2 : 0) + c.choose(ta == I64 ? 2 : 4, "form");                                          // arrays, array of one element broadcast, array op scalar, scalar op array
    if (comparing && op == 5) c.assume(ta != F32 && tb != F32);
    int how = c.choose(2, "function/operator");
    std::vector<double> bs = ends(tb), as = ends(ta), va, vb;
    auto usable = [&](double a, double b) {
        return with5(ta, [&](auto x) { using A_ = decltype(x); return with4(tb, [&](auto y) { using B_ = decltype(y);
            return comparing ? exact<A_, B_>((A_)a, (B_)b) : !(form == 3 ? overflows<B_, A_>(op, (B_)b, (A_)a) : overflows<A_, B_>(op, (A_)a, (B_)b)); }); });
    };
    if (form == 0) {
        for (double a : as) for (double b : bs) if (usable(a, b)) { va.push_back(a); vb.push_back(b); }
    } else {
        double b = c.pick(bs, "other");
        for (double a : as) if (usable(a, b)) { va.push_back(a); vb.push_back(b); }
    }
    c.assume(!va.empty());
    Shape s{(int64_t)va.size()};
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    Built A = layout(s, ta, va, l), B = layout(form == 0 ? s : Shape{1}, tb, form == 0 ? vb : std::vector<double>{vb[0]}, l, 55);
    c.step();
    std::string sym = comparing ? cmpname[op] : opname[op], what = form == 3 ? mc::str(vb[0]) + "(" + name(tb) + ") " + sym + " " + name(ta) + " values" : std::string(name(ta)) + " values " + sym + " " + (form == 2 ? mc::str(vb[0]) + "(" + name(tb) + ")" : std::string(name(tb)) + (form ? " value " + mc::str(vb[0]) : " values"));
    MC_NOTE(c, what);
    ndarray r;
    if (form <= 1) r = comparing ? call_cmp(op, how, A.arr, B.arr) : call(op, how, A.arr, B.arr);
    else r = with4(tb, [&](auto y) { using S = decltype(y); S b = (S)vb[0];
        return comparing ? (form == 3 ? call_cmp(op, how, b, A.arr) : call_cmp(op, how, A.arr, b)) : call_scalar(op, A.arr, b, form == 3 ? 2 : how); });
    uint64_t h = 0;
    for (size_t k = 0; k < va.size(); ++k) {
        double g = bl::get(r, {(int64_t)k});
        bool def = true;
        double e = with5(ta, [&](auto x) { using A_ = decltype(x); A_ a = (A_)va[k]; return with4(tb, [&](auto y) { using B_ = decltype(y); B_ b = (B_)vb[k];
            if (comparing) return form == 3 ? cmp<B_, A_>(op, b, a) : cmp<A_, B_>(op, a, b);
            return form == 3 ? elem<B_, A_, A_>(op, b, a, def) : elem<A_, B_, A_>(op, a, b, def); }); });
        h = mc::mix(h, mc::hash_bytes(&g, 8));
        if (def) MC_CHECK(c, same(g, e), "extreme-value", what + ": " + mc::str(form == 3 ? vb[k] : va[k]) + " " + sym + " " + mc::str(form == 3 ? va[k] : vb[k]) + " gave " + mc::str(g) + ", expected " + mc::str(e));
    }
    unchanged(c, A, "operand"); unchanged(c, B, "other operand");
    c.state(mc::hash_str(what)); c.outcome(h);
}
void extreme_unary(Ctx &c) {
    int op = c.choose(4, "op");
    DT t = c.pick(kinds5, "type");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    std::vector<double> v;
    for (double x : ends(t)) {
        if (t == I32 && op == 2 && x == -2147483648.0) continue;
        if (t == I32 && op == 0 && std::fabs(x) > 46340) continue;
        if (t == I64 && op == 0 && std::fabs(x) > 3037000499.0) continue;
        if ((t == I32 || t == I64) && op == 1 && x < 0) continue;
        v.push_back(x);
    }
    Built A = layout({(int64_t)v.size()}, t, v, l);
    c.step();
    ndarray r = op == 0 ? bland::square(A.arr) : op == 1 ? bland::sqrt(A.arr) : op == 2 ? bland::abs(A.arr) : bland::copy(A.arr);
    static const char *nm[] = {"square", "sqrt", "abs", "copy"};
    std::string what = std::string(nm[op]) + " of " + name(t) + " values";
    for (size_t k = 0; k < v.size(); ++k) {
        double e = with5(t, [&](auto x) { using T = decltype(x); T q = (T)v[k]; return (double)(T)(op == 0 ? q * q : op == 1 ? std::sqrt(q) : op == 2 ? (T)(std::is_signed<T>::value ? (std::is_floating_point<T>::value ? (T)std::fabs((double)q) : (T)(q < 0 ? -q : q)) : q) : q); });
        double g = bl::get(r, {(int64_t)k});
        MC_CHECK(c, same(g, e), "extreme-unary", what + ": " + mc::str(v[k]) + " gave " + mc::str(g) + ", expected " + mc::str(e));
    }
    unchanged(c, A, "operand");
    c.state(mc::hash_str(what)); c.outcome(mc::hash_str(what));
}
// every pair of shapes of few, short dimensions
void shapes(Ctx &c, bool comparing) {
    static std::vector<Shape> all = [] {
        std::vector<Shape> v;
        for (int n = 1; n <= (mc::thorough() ? 4 : 3); ++n) { Shape i(n, 0), lim(n, n == 4 ? 2 : 3); do { Shape x = i; for (auto &y : x) ++y; v.push_back(x); } while (next(i, lim)); }
        return v;
    }();
    Shape sa = c.pick(all, "a shape"), sb = c.pick(all, "b shape");
    Layout la = (Layout)c.choose(NLAYOUT, "a layout"), lb = mc::thorough() && sa.size() < 4 && sb.size() < 4 ? (Layout)c.choose(NLAYOUT, "b layout") : (Layout)((la + sb.size()) % NLAYOUT);
    int op = c.choose(2, "op");                                  // - and /, > and <=
    bool ok = true;
    for (size_t k = 1; k <= std::min(sa.size(), sb.size()); ++k) { auto x = sa[sa.size() - k], y = sb[sb.size() - k]; ok = ok && (x == y || x == 1 || y == 1); }
    std::vector<double> va, vb;
    for (int64_t k = 0; k < bl::numel(sa); ++k) va.push_back(3 + (k * 7) % 11);
    for (int64_t k = 0; k < bl::numel(sb); ++k) vb.push_back(1 << (k % 5));
    Built A = layout(sa, F32, va, la), B = layout(sb, F32, vb, lb, 55);
    std::string what = A.desc + (comparing ? op ? " <= " : " > " : op ? " / " : " - ") + B.desc;
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    ndarray r;
    bool threw = false;
    try { r = comparing ? call_cmp(op ? 3 : 0, la % 2, A.arr, B.arr) : call(op ? DIV : SUB, la % 2, A.arr, B.arr); } catch (std::exception &) { threw = true; }
    unchanged(c, A, "left operand"); unchanged(c, B, "right operand");
    if (!ok) { MC_CHECK(c, threw, "incompatible-shapes-accepted", what + " did not fail"); c.outcome(0); return; }
    if (threw) { MC_CHECK(c, sa.size() != sb.size(), "compatible-shapes-rejected", what + " was refused"); c.outcome(1); return; }
    Shape os = bshape(sa, sb);
    MC_CHECK(c, r.shape() == os, "result-shape", what + ": result shape " + mc::str(r.shape()) + ", expected " + mc::str(os));
    auto g = bl::values(r);
    Shape i(os.size(), 0); int64_t k = 0;
    do {
        double a = pull(va, sa, i), b = pull(vb, sb, i), e = comparing ? (op ? a <= b : a > b) : op ? (double)((float)a / (float)b) : a - b;
        MC_CHECK(c, g[k] == e, "value", what + ": element " + mc::str(i) + " = " + mc::str(g[k]) + ", expected " + mc::str(e));
        ++k;
    } while (next(i, os));
    c.outcome(mc::hash_vec(g));
}
// arrays of every type, those the operations do not support as well: the result is right or there is none
void types(Ctx &c, bool comparing) {
    int op = c.choose(comparing ? 6 : 8, "op");                    // + - * / square sqrt abs copy
    bool un = !comparing && op >= 4;
    DT ta = c.pick(all_dtypes(), "a type"), tb = un ? F32 : c.pick(all_dtypes(), "b type");
    int form = un ? 0 : c.choose(4, "form");                       // arrays, with a scalar of 3 types
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    c.assume(form == 0 || tb == F32);
    Shape s{2, 9};
    std::vector<double> va, vb;
    for (int k = 0; k < 18; ++k) { va.push_back(8 + (k * 5) % 7); vb.push_back(form ? 3 : 1 + (k * 3) % 8 + (comparing ? 4 : 0)); }
    if (un && op == 5) for (auto &x : va) x = (double)((int)x % 5 * ((int)x % 5));
    if (!comparing && op == 2) for (auto &x : va) x -= 6;
    Built A = layout(s, ta, va, l), B = layout(s, tb, vb, l, 55);
    bool fl = is_float(ta) || (form ? form == 1 : is_float(tb));
    static const char *un_name[] = {"square", "sqrt", "abs", "copy"};
    static const char *sc[] = {"", "float", "int", "uint8"};
    std::string what = un ? std::string(un_name[op - 4]) + " of " + A.desc : A.desc + " " + (comparing ? cmpname : opname)[op] + " " + (form ? std::string("3 (") + sc[form] + ")" : B.desc);
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what));
    ndarray r;
    auto run = [&](auto y) { r = comparing ? call_cmp(op, l % 2, A.arr, y) : call_scalar(op, A.arr, y, l % 2); };
    try {
        if (un) r = op == 4 ? bland::square(A.arr) : op == 5 ? bland::sqrt(A.arr) : op == 6 ? bland::abs(A.arr) : bland::copy(A.arr);
        else if (form == 0) r = comparing ? call_cmp(op, l % 2, A.arr, B.arr) : call(op, l % 2, A.arr, B.arr);
        else if (form == 1) run(3.0f); else if (form == 2) run((int32_t)3); else run((uint8_t)3);
    } catch (std::exception &e) {
        MC_CHECK(c, !(ta == F32 && (form || tb == F32)) || (comparing && op == 5), "float-refused", what + " throws " + e.what());
        c.outcome(0);
        unchanged(c, A, "operand"); unchanged(c, B, "other operand");
        return;
    }
    MC_CHECK(c, !(comparing && op == 5 && fl), "float-bit-and-accepted", what + " did not fail");
    MC_CHECK(c, r.shape() == s && of(r.dtype()) == (comparing ? U8 : ta), "types-result", what + ": result is " + name(of(r.dtype())) + mc::str(r.shape()));
    auto g = bl::values(r);
    for (int k = 0; k < 18; ++k) {
        double a = va[k], b = vb[k], e;
        if (comparing) e = op == 0 ? a > b : op == 1 ? a >= b : op == 2 ? a < b : op == 3 ? a <= b : op == 4 ? a == b : (double)((int64_t)a & (int64_t)b);
        else e = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : op == 4 ? a * a : op == 5 ? std::sqrt(a) : a;
        if (!comparing && !is_float(ta)) e = is_unsigned(ta) && e < 0 ? g[k] : std::trunc(e);
        MC_CHECK(c, std::fabs(g[k] - e) <= 1e-6 * std::fabs(e), "types-value", what + ": " + mc::str(a) + (un ? "" : ", " + mc::str(b)) + " gave " + mc::str(g[k]) + ", expected " + mc::str(e));
    }
    c.outcome(mc::hash_vec(g));
    unchanged(c, A, "operand"); unchanged(c, B, "other operand");
}
} // namespace

MC_PROPERTY(A02) {
    mc::explore("types", [](Ctx &c) { types(c, false); });
    mc::explore("shapes", [](Ctx &c) { shapes(c, false); });
    mc::explore("scalar", scalar);
    mc::explore("unary", unary);
    mc::explore("array-array", binary);
    mc::explore("extremes", [](Ctx &c) { extremes(c, false); });
    mc::explore("extremes-unary", extreme_unary);
}
MC_PROPERTY(A03) {
    mc::explore("types", [](Ctx &c) { types(c, true); });
    mc::explore("shapes", [](Ctx &c) { shapes(c, true); });
    mc::explore("compare-scalar", cmp_scalar);
    mc::explore("compare-arrays", cmp_binary);
    mc::explore("extremes", [](Ctx &c) { extremes(c, true); });
}
