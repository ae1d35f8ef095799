// A04: reductions over any axes and memory layout;  A05: masked reductions
#include "bl.hpp"
using namespace bl;
using mc::Ctx;

namespace {
template <typename T> std::vector<std::vector<T>> ordered_subsets(int n) {
    std::vector<std::vector<T>> out{{}};
    for (int m = 1; m < (1 << n); ++m) {
        std::vector<T> s;
        for (int d = 0; d < n; ++d) if (m >> d & 1) s.push_back(d);
        out.push_back(s);
        if (s.size() > 1) { std::vector<T> r(s.rbegin(), s.rend()); out.push_back(r); }
    }
    return out;
}
std::vector<double> pattern(int p, DT t, int64_t n) {
    std::vector<double> v;
    for (int64_t k = 0; k < n; ++k) {
        double x;
        switch (p) {
        case 0: x = (k * 5) % 7 - (is_unsigned(t) ? 0 : 3) + (is_float(t) ? 0.25 : 0); break;
        case 1: x = is_float(t) ? (double)0.1f : 3; break;                                  // constant: variance exactly 0
        case 2: x = is_float(t) ? 1000 + (k % 3) * 0.5 : 200 + (k % 4) * 7; break;          // large offset / 8 bit totals that do not fit
        default: x = is_float(t) ? -(double)(1 + k * k) * 1e5 : (t == I32 ? -100000 * (1 + k) : 250 - k); break;
        }
        v.push_back(with(t, [&](auto z) { return (double)(decltype(z))x; }));
    }
    return v;
}
struct Stat { double n = 0, sum = 0, mean = 0, var = 0, maxv = -INFINITY, absmax = 0, m3 = 0, m4 = 0; };
Stat stat(const std::vector<double> &v) {
    Stat s;
    s.n = v.size();
    for (double x : v) { s.sum += x; s.maxv = std::max(s.maxv, x); s.absmax = std::max(s.absmax, std::fabs(x)); }
    s.mean = s.sum / s.n;
    for (double x : v) { double d = x - s.mean; s.var += d * d / s.n; s.m3 += d * d * d / s.n; s.m4 += d * d * d * d / s.n; }
    return s;
}
// elements reduced into each output element
std::vector<std::vector<double>> groups(const std::vector<double> &v, const Shape &s, std::vector<int64_t> axes, Shape &os, const std::vector<char> *keep = nullptr) {
    if (axes.empty()) for (size_t d = 0; d < s.size(); ++d) axes.push_back(d);
    os.clear();
    std::vector<int> kept;
    for (size_t d = 0; d < s.size(); ++d) if (std::find(axes.begin(), axes.end(), (int64_t)d) == axes.end()) { os.push_back(s[d]); kept.push_back(d); }
    std::vector<std::vector<double>> g(bl::numel(os));
    Shape i(s.size(), 0);
    do {
        Shape o; for (int d : kept) o.push_back(i[d]);
        int64_t f = ravel(i, s);
        if (!keep || (*keep)[f]) g[ravel(o, os)].push_back(v[f]);
    } while (next(i, s));
    if (os.empty()) os = {1};
    return g;
}
enum Red { SUM, MEAN, STD, VAR, MAX, MSTD };
const char *rname[] = {"sum", "mean", "stddev", "var", "max", "mean_stddev"};
bool value_ok(DT t, double got, double want, double tol) {
    if (is_float(t)) return std::fabs(got - want) <= tol;
    return std::fabs(got - want) < 1.0 + 1e-9 && (got == std::trunc(want) || std::fabs(want - std::round(want)) < 1e-6);
}
void check_one(Ctx &c, const std::string &what, int op, DT t, double got, const std::vector<double> &g, bool second = false) {
    Stat s = stat(g);
    double eps = 3e-7;
    double tol_mean = eps * s.absmax * 4 + 1e-30, want, tol;
    double tol_std = eps * std::sqrt(s.var) * 4 + s.absmax * 4e-8 + 1e-30;      // double accumulators: sqrt(1e-15)*absmax
    if (op == SUM) { want = s.sum; tol = eps * s.absmax * s.n * 4; }
    else if (op == MEAN || (op == MSTD && !second)) { want = s.mean; tol = tol_mean; }
    else if (op == MAX) { want = s.maxv; tol = 0; }
    else if (op == VAR) { want = s.var; tol = 2 * std::sqrt(s.var) * tol_std + tol_std * tol_std + 1e-12; }
    else { want = std::sqrt(s.var); tol = tol_std; }
    if (op == VAR && !is_float(t)) { double sd = std::trunc(std::sqrt(s.var) + 1e-9), lo = std::trunc(std::sqrt(s.var) - 1e-9); MC_CHECK(c, got == sd * sd || got == lo * lo || std::fabs(got - s.var) < 1, std::string(rname[op]) + "-value", what + " = " + mc::str(got) + ", expected " + mc::str(s.var)); return; }
    bool ok = op == SUM && !is_float(t) ? got == want : value_ok(t, got, want, tol);
    MC_CHECK(c, ok, std::string(rname[op]) + "-value", what + " = " + mc::str(got) + ", expected " + mc::str(want) + " over " + mc::str(g));
}

const std::vector<Shape> &shapes() { static const std::vector<Shape> s{{1}, {5}, {2, 3}, {3, 1}, {3, 4}, {2, 3, 2}}; return s; }

void reduce(Ctx &c) {
    int op = c.choose(6, "op");
    Shape s = c.pick(shapes(), "shape");
    auto axes = c.pick(ordered_subsets<int64_t>(s.size()), "axes");
    DT t = c.pick(std::vector<DT>{F32, I32, U8, I64, U32}, "type");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    int p = c.choose(4, "values");
    int out_kind = c.choose(mc::thorough() ? 5 : 3, "out");          // 0 fresh, else given output in some layout
    auto v = pattern(p, t, bl::numel(s));
    Built A = layout(s, t, v, la);
    Shape os;
    auto g = groups(v, s, axes, os);
    if (op == SUM && !is_float(t)) for (auto &x : g) { double q = stat(x).sum; c.assume(t == U8 ? q < 256 : std::fabs(q) < 2e9); }   // totals the type can hold
    if (op == VAR && !is_float(t)) for (auto &x : g) c.assume(stat(x).var < (t == U8 ? 255 : 2e9));
    Built O, O2;
    if (out_kind) { O = layout(os, t, std::vector<double>(bl::numel(os), 9), (Layout)(out_kind - 1), 66); O2 = layout(os, t, std::vector<double>(bl::numel(os), 9), (Layout)(out_kind - 1), 66); }
    c.step();
    std::string what = std::string(rname[op]) + "(" + A.desc + ", axes " + mc::str(axes) + (out_kind ? ", into " + O.desc : "") + ")";
    MC_NOTE(c, what);
    ndarray r, r2;
    switch (op) {
    case SUM: r = out_kind ? bland::sum(A.arr, O.arr, axes) : bland::sum(A.arr, axes); break;
    case MEAN: r = out_kind ? bland::mean(A.arr, O.arr, axes) : bland::mean(A.arr, axes); break;
    case STD: r = out_kind ? bland::stddev(A.arr, O.arr, axes) : bland::stddev(A.arr, axes); break;
    case VAR: r = out_kind ? bland::var(A.arr, O.arr, axes) : bland::var(A.arr, axes); break;
    case MAX: r = out_kind ? bland::max(A.arr, O.arr, axes) : bland::max(A.arr, axes); break;
    default: { auto pr = out_kind ? bland::mean_stddev(A.arr, O.arr, O2.arr, axes) : bland::mean_stddev(A.arr, axes); r = pr.first; r2 = pr.second; }
    }
    MC_CHECK(c, r.shape() == os, std::string(rname[op]) + "-shape", what + ": result shape " + mc::str(r.shape()) + ", expected " + mc::str(os));
    auto rv = bl::values(r), ov = out_kind ? bl::values(O.arr) : rv;
    for (size_t k = 0; k < g.size(); ++k) {
        check_one(c, what + "[" + mc::str(k) + "]", op, t, rv[k], g[k]);
        if (out_kind) check_one(c, what + ": output array[" + mc::str(k) + "]", op, t, ov[k], g[k]);
        if (op == MSTD) { check_one(c, what + ".second[" + mc::str(k) + "]", op, t, bl::values(r2)[k], g[k], true); if (out_kind) check_one(c, what + ".second out", op, t, bl::values(O2.arr)[k], g[k], true); }
    }
    MC_CHECK(c, intact(A, true), "operand-modified", what + " modified its operand");
    if (out_kind) MC_CHECK(c, intact(O, false), "stray-write", what + " wrote outside its output view");
    c.state(mc::hash_str(what) + p); c.outcome(mc::hash_vec(rv));
}
void summary(Ctx &c) {
    int op = c.choose(2, "op");
    Shape s = c.pick(shapes(), "shape");
    DT t = c.pick(op ? std::vector<DT>{F32, I32, U8, U32} : std::vector<DT>{F32, I32, U8, U32, I64}, "type");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    int64_t n = bl::numel(s);
    std::vector<double> v;
    if (op == 0) {
        int p = c.choose(4, "values");
        v = pattern(p, t, n);
    } else {
        int m = c.choose(1 << std::min<int64_t>(n, 6), "nonzero");
        for (int64_t k = 0; k < n; ++k) v.push_back(k < 6 ? ((m >> k & 1) ? (is_float(t) ? 0.25 : 4) : 0) : (k % 2));
    }
    Built A = layout(s, t, v, la);
    c.step();
    std::string what = std::string(op ? "count_true" : "median") + "(" + A.desc + " " + mc::str(v) + ")";
    MC_NOTE(c, what);
    double got = op ? (double)bland::count_true(A.arr) : (double)bland::median(A.arr), want;
    if (op) { want = 0; for (double x : v) want += x != 0; }
    else { auto q = v; std::sort(q.begin(), q.end()); want = n % 2 ? q[n / 2] : (q[n / 2 - 1] + q[n / 2]) / 2; }
    MC_CHECK(c, std::fabs(got - want) <= 1e-6 * std::fabs(want), op ? "count" : "median", what + " = " + mc::str(got) + ", expected " + mc::str(want));
    MC_CHECK(c, intact(A, true), "operand-modified", what + " modified its operand");
    c.state(mc::hash_str(what)); c.outcome((uint64_t)(got * 64));
}
void moments(Ctx &c) {
    int deg = 1 + c.choose(4, "degree");
    Shape s = c.pick(std::vector<Shape>{{5}, {2, 3}, {3, 4}, {2, 3, 2}}, "shape");
    auto axes = c.pick(ordered_subsets<int64_t>(s.size()), "axes");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    int p = c.choose(2, "values") * 2;
    auto v = pattern(p, F32, bl::numel(s));
    Built A = layout(s, F32, v, la);
    Shape os;
    auto g = groups(v, s, axes, os);
    c.step();
    std::string what = "standardized_moment(" + A.desc + ", degree " + mc::str(deg) + ", axes " + mc::str(axes) + ")";
    MC_NOTE(c, what);
    ndarray r = bland::standardized_moment(A.arr, deg, axes);
    MC_CHECK(c, r.shape() == os, "moment-shape", what + ": result shape " + mc::str(r.shape()));
    auto rv = bl::values(r);
    for (size_t k = 0; k < g.size(); ++k) {
        Stat st = stat(g[k]);
        if (st.var < 1e-3) continue;
        double m = deg == 1 ? 0 : deg == 2 ? st.var : deg == 3 ? st.m3 : st.m4, u = st.n / (st.n - 1);   // both moments carry the unbiased 1/(n-1)
        double want = m * u / std::pow(st.var * u, deg / 2.0);
        MC_CHECK(c, std::fabs(rv[k] - want) < 2e-3, "moment", what + "[" + mc::str(k) + "] = " + mc::str(rv[k]) + ", expected " + mc::str(want));
    }
    c.state(mc::hash_str(what) + p); c.outcome(mc::hash_vec(rv));
}

// arrays of every type, the result is right or there is none
void types(Ctx &c, bool mask) {
    int op = c.choose(mask ? 4 : 7, "op");
    DT t = c.pick(all_dtypes(), "type");
    Layout l = (Layout)c.choose(NLAYOUT, "layout");
    auto axes = c.pick(std::vector<std::vector<int64_t>>{{}, {0}, {1}}, "axes");
    int p = c.choose(2, "values");
    Shape s{4, 5}, os;
    std::vector<double> v, mv; std::vector<char> keep;
    for (int k = 0; k < 20; ++k) { v.push_back(p ? 2 + (k * 7) % 9 : 3); keep.push_back(k % 3 != 1); mv.push_back(keep.back() ? 0 : 4); }
    Built A = layout(s, t, v, l), M = layout(s, U8, mv, l);
    static const char *nm[] = {"masked_mean", "masked_stddev", "masked_var", "masked_mean_stddev"};
    static const int map[] = {MEAN, STD, VAR, MSTD};
    int red = mask ? map[op] : op;
    std::string what = std::string(mask ? nm[op] : op == 6 ? "median" : rname[op]) + "(" + A.desc + ", axes " + mc::str(axes) + ")";
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what) + p);
    auto g = groups(v, s, axes, os, mask ? &keep : nullptr);
    ndarray r; double med = 0;
    try {
        if (mask) r = op == 0 ? bland::masked_mean(A.arr, M.arr, axes) : op == 1 ? bland::masked_stddev(A.arr, M.arr, axes) : op == 2 ? bland::masked_var(A.arr, M.arr, axes) : bland::masked_mean_stddev(A.arr, M.arr, axes).first;
        else if (op == 6) med = (double)bland::median(A.arr);
        else r = op == SUM ? bland::sum(A.arr, axes) : op == MEAN ? bland::mean(A.arr, axes) : op == STD ? bland::stddev(A.arr, axes) : op == VAR ? bland::var(A.arr, axes) : op == MAX ? bland::max(A.arr, axes) : bland::mean_stddev(A.arr, axes).first;
    } catch (std::exception &e) { MC_CHECK(c, t != F32, "float-refused", what + " throws " + e.what()); c.outcome(0); return; }
    if (!mask && op == 6) { auto q = v; std::sort(q.begin(), q.end()); double want = (q[9] + q[10]) / 2; MC_CHECK(c, std::fabs(med - want) < 1e-6, "median", what + " = " + mc::str(med)); c.outcome(1); return; }
    MC_CHECK(c, r.shape() == os, "types-shape", what + ": result shape " + mc::str(r.shape()));
    auto rv = bl::values(r);
    for (size_t k = 0; k < g.size(); ++k) check_one(c, what + "[" + mc::str(k) + "]", red, t, rv[k], g[k]);
    MC_CHECK(c, intact(A, true) && intact(M, true), "operand-modified", what);
    c.outcome(mc::hash_vec(rv));
}
// outputs of another type than the array: the result fits the output
void typed_outputs(Ctx &c) {
    int op = c.choose(6, "op");
    DT t = c.pick(std::vector<DT>{F32, I32, U8, U32, I64}, "type"), to = c.pick(all_dtypes(), "out type");
    auto axes = c.pick(std::vector<std::vector<int64_t>>{{}, {0}, {1}}, "axes");
    Layout la = (Layout)c.choose(NLAYOUT, "layout");
    int p = c.choose(3, "values");
    Shape s{6, 30}, os;
    std::vector<double> v;
    for (int k = 0; k < 180; ++k) v.push_back(p == 0 ? 2 + (k * 7) % 9 : p == 1 ? 200 + k % 50 : 16777216.0 + 8 * (k % 3));
    c.assume(p < 2 || t != U8);
    Built A = layout(s, t, v, la);
    auto g = groups(v, s, axes, os);
    Built O = layout(os, to, std::vector<double>(bl::numel(os), 9), la, 66), O2 = layout(os, to, std::vector<double>(bl::numel(os), 9), la, 66);
    std::string what = std::string(rname[op]) + "(" + A.desc + ", axes " + mc::str(axes) + ", into " + O.desc + ")";
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what) + p);
    for (auto &x : g) { Stat st = stat(x); double r = op == SUM ? st.sum : op == MAX ? st.maxv : op == VAR ? std::max(st.var, st.mean) : st.mean; c.assume(is_float(to) || r <= with(to, [](auto z) { return (double)std::numeric_limits<decltype(z)>::max(); })); }
    c.assume(op != VAR || p < 2);
    ndarray r; auto ax = axes;
    try {
        switch (op) {
        case SUM: r = bland::sum(A.arr, O.arr, ax); break;
        case MEAN: r = bland::mean(A.arr, O.arr, ax); break;
        case STD: r = bland::stddev(A.arr, O.arr, ax); break;
        case VAR: r = bland::var(A.arr, O.arr, ax); break;
        case MAX: r = bland::max(A.arr, O.arr, ax); break;
        default: r = bland::mean_stddev(A.arr, O.arr, O2.arr, ax).first;
        }
    } catch (std::exception &e) { c.outcome(0); return; }
    auto rv = bl::values(r), ov = bl::values(O.arr);
    for (size_t k = 0; k < g.size(); ++k) { check_one(c, what + "[" + mc::str(k) + "]", op, to, rv[k], g[k]); check_one(c, what + ": output[" + mc::str(k) + "]", op, to, ov[k], g[k]); }
    MC_CHECK(c, intact(A, true) && intact(O, false), "stray-write", what);
    c.outcome(mc::hash_vec(rv));
}
// as many elements as whole coarse channels have
void long_arrays(Ctx &c, bool mask) {
    int op = c.choose(mask ? 4 : 6, "op");
    static const int map[] = {MEAN, STD, VAR, MSTD};
    static const char *nm[] = {"masked_mean", "masked_stddev", "masked_var", "masked_mean_stddev"};
    int red = mask ? map[op] : op;
    struct Case { Shape s; std::vector<int64_t> axes; };
    const int64_t mid = mc::thorough() ? 4194319 : 262147;
    auto k = c.pick(std::vector<Case>{{{(1 << 24) + 43}, {}}, {{3, mid}, {1}}, {{mid, 3}, {0}}, {{mid, 3}, {}}, {{4, 5, mid / 20}, {0, 2}}}, "shape");
    bool big = k.s.size() == 1;
    DT t = mask ? F32 : c.pick(std::vector<DT>{F32, U8}, "type");
    int p = big && !mc::thorough() ? 0 : c.choose(2, "values");
    c.assume(!big || mc::thorough() || t == F32);
    c.assume(t == F32 || (red != SUM && red != VAR));
    int64_t n = bl::numel(k.s);
    // ones with a few others at the end; values with a large offset
    auto value = [&](int64_t i) -> double { return p == 0 ? (i > n - 1000 ? 2 : 1) : t == F32 ? 1000 + (i % 5) * 0.5 : 200 + i % 5; };
    auto kept = [&](int64_t i) { return !mask || i % 7 != 3; };
    ndarray a(k.s, dl(t)), m;
    if (t == F32) { auto d = a.data_ptr<float>(); for (int64_t i = 0; i < n; ++i) d[i] = (float)value(i); }
    else { auto d = a.data_ptr<uint8_t>(); for (int64_t i = 0; i < n; ++i) d[i] = (uint8_t)value(i); }
    if (mask) { m = ndarray(k.s, dl(U8)); auto d = m.data_ptr<uint8_t>(); for (int64_t i = 0; i < n; ++i) d[i] = kept(i) ? 0 : 1 + i % 255; }
    std::string what = std::string(mask ? nm[op] : rname[op]) + " of " + name(t) + mc::str(k.s) + ", axes " + mc::str(k.axes) + ", values " + mc::str(p);
    MC_NOTE(c, what); c.step(); c.state(mc::hash_str(what)); c.outcome(op);
    ndarray r, r2;
    auto axes = k.axes;
    if (mask && op == 3) { auto q = bland::masked_mean_stddev(a, m, axes); r = q.first; r2 = q.second; }
    else if (mask) r = op == 0 ? bland::masked_mean(a, m, axes) : op == 1 ? bland::masked_stddev(a, m, axes) : bland::masked_var(a, m, axes);
    else if (op == MSTD) { auto q = bland::mean_stddev(a, axes); r = q.first; r2 = q.second; }
    else r = op == SUM ? bland::sum(a, axes) : op == MEAN ? bland::mean(a, axes) : op == STD ? bland::stddev(a, axes) : op == VAR ? bland::var(a, axes) : bland::max(a, axes);
    // sums of the groups
    std::vector<char> red_axis(k.s.size(), axes.empty());
    for (auto x : axes) red_axis[x] = 1;
    int64_t groups_n = 1; for (size_t d = 0; d < k.s.size(); ++d) if (!red_axis[d]) groups_n *= k.s[d];
    std::vector<double> cnt(groups_n, 0), sum(groups_n, 0), sq(groups_n, 0), mx(groups_n, -1e30);
    Shape i(k.s.size(), 0); int64_t flat = 0;
    double base = p == 0 ? 1 : t == F32 ? 1000 : 200;                       // exact sums of small numbers
    do {
        if (kept(flat)) {
            int64_t g = 0; for (size_t d = 0; d < i.size(); ++d) if (!red_axis[d]) g = g * k.s[d] + i[d];
            double x = value(flat) - base;
            cnt[g] += 1; sum[g] += x; sq[g] += x * x; mx[g] = std::max(mx[g], x);
        }
        ++flat;
    } while (next(i, k.s));
    auto rv = bl::values(r), r2v = red == MSTD ? bl::values(r2) : rv;
    MC_CHECK(c, (int64_t)rv.size() == groups_n, "long-shape", what + ": result shape " + mc::str(r.shape()));
    for (int64_t g = 0; g < groups_n; ++g) {
        double mean = base + sum[g] / cnt[g], var = sq[g] / cnt[g] - (sum[g] / cnt[g]) * (sum[g] / cnt[g]);
        auto ok = [&](double got, double want, double tol) { return is_float(t) ? std::fabs(got - want) <= tol : std::fabs(got - want) < 1 + 1e-9; };
        // to a few units in the last place of single precision, and the cancellation of an offset in double precision
        double ts = 3e-6 * std::sqrt(var) + (p ? 2e-3 : 1e-4);
        bool good = red == SUM ? ok(rv[g], mean * cnt[g], 3e-6 * mean * cnt[g]) : red == MAX ? rv[g] == base + mx[g] : red == MEAN || red == MSTD ? ok(rv[g], mean, 3e-6 * mean) : red == STD ? ok(rv[g], std::sqrt(var), ts) : ok(rv[g], var, 2 * std::sqrt(var) * ts + ts * ts);
        MC_CHECK(c, good, std::string("long-") + (mask ? nm[op] : rname[op]), what + "[" + mc::str(g) + "] = " + mc::str(rv[g]) + ", mean " + mc::str(mean) + " variance " + mc::str(var));
        if (red == MSTD) MC_CHECK(c, ok(r2v[g], std::sqrt(var), ts), "long-mean_stddev", what + ": stddev " + mc::str(r2v[g]) + ", expected " + mc::str(std::sqrt(var)));
    }
}
// ---------------------------------------------------------------- masked
void masked(Ctx &c) {
    int op = c.choose(4, "op");                                        // mean, stddev, var, mean_stddev
    static const char *nm[] = {"masked_mean", "masked_stddev", "masked_var", "masked_mean_stddev"};
    static const int map[] = {MEAN, STD, VAR, MSTD};
    Shape s = c.pick(mc::thorough() ? std::vector<Shape>{{1}, {5}, {2, 3}, {3, 1}, {2, 2, 2}, {3, 3}} : std::vector<Shape>{{1}, {4}, {2, 3}, {2, 2, 1}}, "shape");
    auto axes = c.pick(ordered_subsets<int64_t>(s.size()), "axes");
    Layout la = (Layout)c.choose(NLAYOUT, "layout"), lm = (Layout)c.choose(NLAYOUT, "mask layout");
    DT t = F32;
    int p = c.choose(3, "values");
    int64_t n = bl::numel(s);
    int m = c.choose(1 << n, "mask");
    int out_kind = m % 3;                                              // vary how the result is delivered along with the mask
    static const double flag[] = {1, 4, 255};
    std::vector<double> mv; std::vector<char> keep;
    for (int64_t k = 0; k < n; ++k) { bool bad = m >> k & 1; mv.push_back(bad ? flag[k % 3] : 0); keep.push_back(!bad); }
    auto v = pattern(p, t, n);
    Built A = layout(s, t, v, la), M = layout(s, U8, mv, lm, (m & 1) ? 0 : 3);
    Shape os;
    auto g = groups(v, s, axes, os, &keep);
    Built O, O2;
    if (out_kind) { O = layout(os, t, std::vector<double>(bl::numel(os), 9), (Layout)(out_kind == 1 ? CONTIG : STRIDED), 66); O2 = layout(os, t, std::vector<double>(bl::numel(os), 9), OFFSET, 66); }
    c.step();
    std::string what = std::string(nm[op]) + "(" + A.desc + ", mask " + mc::str(mv) + " " + bl::name(lm) + ", axes " + mc::str(axes) + (out_kind ? ", into an output" : "") + ")";
    MC_NOTE(c, what);
    bool none = false;
    for (auto &x : g) none |= x.empty();
    ndarray r, r2;
    bool threw = false;
    try {
        switch (op) {
        case 0: r = out_kind ? bland::masked_mean(A.arr, M.arr, O.arr, axes) : bland::masked_mean(A.arr, M.arr, axes); break;
        case 1: r = out_kind ? bland::masked_stddev(A.arr, M.arr, O.arr, axes) : bland::masked_stddev(A.arr, M.arr, axes); break;
        case 2: r = out_kind ? bland::masked_var(A.arr, M.arr, O.arr, axes) : bland::masked_var(A.arr, M.arr, axes); break;
        default: { auto pr = out_kind ? bland::masked_mean_stddev(A.arr, M.arr, O.arr, O2.arr, axes) : bland::masked_mean_stddev(A.arr, M.arr, axes); r = pr.first; r2 = pr.second; }
        }
    } catch (std::exception &e) { threw = true; MC_NOTE(c, std::string("threw: ") + e.what()); }
    c.state(mc::hash_str(what) + p);
    if (none) { MC_CHECK(c, threw, std::string(nm[op]) + "-all-masked", what + " returned a number for an output with no unmasked element"); c.outcome(1); return; }
    MC_CHECK(c, !threw, std::string(nm[op]) + "-refused", what + " threw");
    MC_CHECK(c, r.shape() == os, std::string(nm[op]) + "-shape", what + ": result shape " + mc::str(r.shape()));
    auto rv = bl::values(r);
    for (size_t k = 0; k < g.size(); ++k) {
        check_one(c, what + "[" + mc::str(k) + "]", map[op], t, rv[k], g[k]);
        if (out_kind) check_one(c, what + ": output array[" + mc::str(k) + "]", map[op], t, bl::values(O.arr)[k], g[k]);
        if (op == 3) { check_one(c, what + ".second[" + mc::str(k) + "]", MSTD, t, bl::values(r2)[k], g[k], true); if (out_kind) check_one(c, what + ".second output", MSTD, t, bl::values(O2.arr)[k], g[k], true); }
    }
    MC_CHECK(c, intact(A, true) && intact(M, true), "operand-modified", what + " modified an operand");
    if (out_kind) MC_CHECK(c, intact(O, false), "stray-write", what + " wrote outside its output view");
    c.outcome(mc::hash_vec(rv));
}
void masked_bad(Ctx &c) {
    int op = c.choose(4, "op"), kind = c.choose(4, "kind");
    Shape ms = kind == 0 ? Shape{2, 3} : kind == 1 ? Shape{3, 2} : kind == 2 ? Shape{6} : Shape{2, 3};
    DT mt = kind == 0 ? F32 : kind == 3 ? U32 : U8;
    ndarray a = make({2, 3}, F32, {1, 2, 3, 4, 5, 6});
    ndarray m(ms, dl(mt));
    bland::fill(m, 0);
    std::string what = std::string("masked reduction ") + mc::str(op) + " with a " + bl::name(mt) + mc::str(ms) + " mask over f32[2,3]";
    MC_NOTE(c, what);
    c.step(); c.state(op * 4 + kind);
    bool threw = false;
    try { if (op == 0) bland::masked_mean(a, m); if (op == 1) bland::masked_stddev(a, m); if (op == 2) bland::masked_var(a, m); if (op == 3) bland::masked_mean_stddev(a, m); } catch (std::exception &) { threw = true; }
    c.outcome(threw);
    MC_CHECK(c, threw, "bad-mask-accepted", what + " was accepted");
}
// axes the array does not have, axes named twice, and outputs that cannot hold the result are refused
void bad_requests(Ctx &c, bool with_mask) {
    int op = c.choose(with_mask ? 4 : 7, "op");
    Shape s = c.pick(std::vector<Shape>{{2, 3}, {5}, {2, 3, 2}}, "shape");
    int64_t nd = s.size();
    bool given = c.choose(2, "given output");
    std::vector<int64_t> axes;
    Shape os, os2;
    std::string why;
    int64_t lead = s[0];
    if (c.choose(2, "problem") == 0 || !given) {
        axes = c.pick(std::vector<std::vector<int64_t>>{{nd}, {-1}, {0, nd}, {nd, 0}, {0, 0}, {-nd}, {100000}, {INT64_MIN}, {0, -1}}, "axes");
        os = os2 = c.choose(2, "output") ? Shape{1} : Shape(s.begin() + 1, s.end());
        if (os.empty()) os = os2 = {1};
        why = "over axes " + mc::str(axes);
    } else {
        int64_t right = bl::numel(s) / lead;
        axes = {0};
        int64_t wrong = c.pick(std::vector<int64_t>{right + 1, right * 2, 0}, "elements");
        int which = c.choose(2, "wrong one");
        os = {which == 0 ? wrong : right}; os2 = {which == 1 ? wrong : right};
        c.assume(which == 0 || op == (with_mask ? 3 : MSTD));
        why = "over the first axis into outputs of " + mc::str(os[0]) + " and " + mc::str(os2[0]) + " elements";
    }
    DT t = F32;
    auto v = pattern(0, t, bl::numel(s));
    Built A = layout(s, t, v, CONTIG);
    ndarray m(s, dl(U8)), o(os, dl(t)), o2(os2, dl(t));
    bland::fill(m, 0);
    std::string what = std::string(with_mask ? "masked " : "") + (op == 6 ? "standardized_moment" : with_mask ? rname[op == 0 ? MEAN : op == 1 ? STD : op == 2 ? VAR : MSTD] : rname[op]) + " of f32" + mc::str(s) + " " + why;
    MC_NOTE(c, what);
    c.step(); c.state(mc::hash_str(what));
    bool threw = false;
    try {
        if (with_mask) {
            if (op == 0) given ? bland::masked_mean(A.arr, m, o, axes) : bland::masked_mean(A.arr, m, axes);
            if (op == 1) given ? bland::masked_stddev(A.arr, m, o, axes) : bland::masked_stddev(A.arr, m, axes);
            if (op == 2) given ? bland::masked_var(A.arr, m, o, axes) : bland::masked_var(A.arr, m, axes);
            if (op == 3) given ? bland::masked_mean_stddev(A.arr, m, o, o2, axes) : bland::masked_mean_stddev(A.arr, m, axes);
        } else {
            if (op == SUM) given ? bland::sum(A.arr, o, axes) : bland::sum(A.arr, axes);
            if (op == MEAN) given ? bland::mean(A.arr, o, axes) : bland::mean(A.arr, axes);
            if (op == STD) given ? bland::stddev(A.arr, o, axes) : bland::stddev(A.arr, axes);
            if (op == VAR) given ? bland::var(A.arr, o, axes) : bland::var(A.arr, axes);
            if (op == MAX) given ? bland::max(A.arr, o, axes) : bland::max(A.arr, axes);
            if (op == MSTD) given ? bland::mean_stddev(A.arr, o, o2, axes) : bland::mean_stddev(A.arr, axes);
            if (op == 6) given ? bland::standardized_moment(A.arr, 4, o, axes) : bland::standardized_moment(A.arr, 4, axes);
        }
    } catch (std::exception &) { threw = true; }
    c.outcome(threw);
    MC_CHECK(c, threw, "bad-request-accepted", what + " was accepted");
    MC_CHECK(c, intact(A, true), "operand-modified", what + " modified its operand");
}
} // namespace

MC_PROPERTY(A04) {
    mc::explore("bad-requests", [](Ctx &c) { bad_requests(c, false); });
    mc::explore("types", [](Ctx &c) { types(c, false); });
    mc::explore("typed-outputs", typed_outputs);
    mc::explore("long-arrays", [](Ctx &c) { long_arrays(c, false); });
    mc::explore("summary", summary);
    mc::explore("moments", moments);
    mc::explore("reduce", reduce);
}
MC_PROPERTY(A05) {
    mc::explore("types", [](Ctx &c) { types(c, true); });
    mc::explore("long-arrays", [](Ctx &c) { long_arrays(c, true); });
    mc::explore("bad-mask", masked_bad);
    mc::explore("bad-requests", [](Ctx &c) { bad_requests(c, true); });
    mc::explore("masked", masked);
}
