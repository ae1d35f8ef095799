// A01: views (slice/squeeze/unsqueeze/reshape chains) address the right elements; writing through a view hits exactly them
#include "bl.hpp"
using namespace bl;
using mc::Ctx;

namespace {
struct Model {                        // a view: shape plus the parent element each index denotes
    Shape shape;
    std::vector<int64_t> map;
};
Model m_slice(const Model &m, int d, int64_t start, int64_t end, int64_t stride) {
    Model r;
    int64_t n = end > start ? (end - start + stride - 1) / stride : 0;
    r.shape = m.shape; r.shape[d] = n;
    if (bl::numel(r.shape)) {
        Shape i(r.shape.size(), 0);
        do { Shape j = i; j[d] = start + i[d] * stride; r.map.push_back(m.map[ravel(j, m.shape)]); } while (next(i, r.shape));
    }
    return r;
}
void check_view(Ctx &c, const ndarray &v, const Model &m, const std::string &what) {
    MC_CHECK(c, v.shape() == m.shape, "shape", what + ": shape is " + mc::str(v.shape()) + ", expected " + mc::str(m.shape));
    MC_CHECK(c, v.ndim() == (int64_t)m.shape.size() && v.numel() == bl::numel(m.shape), "numel", what + ": ndim/numel disagree with the shape");
    if (bl::numel(m.shape) == 0) return;
    Shape i(m.shape.size(), 0);
    size_t k = 0;
    do {
        double g = bl::get(v, i);
        MC_CHECK(c, g == m.map[k], "element", what + ": element " + mc::str(i) + " is parent element " + mc::str(g) + ", expected " + mc::str(m.map[k]));
        MC_CHECK(c, v.scalarize<float>(i) == m.map[k], "element-access", what + ": indexed element access " + mc::str(i) + " disagrees");
        ++k;
    } while (next(i, m.shape));
}

void body(Ctx &c, int depth, bool small) {
    static const std::vector<Shape> parents{{5}, {4, 3}, {1, 4}, {2, 3, 2}};
    static const std::vector<Shape> few{{5}, {3, 2}};
    Shape ps = c.pick(small ? few : parents, "parent");
    ndarray base(ps, dl(F32));
    Model m; m.shape = ps;
    for (int64_t k = 0; k < bl::numel(ps); ++k) { bl::set_at(base, k, k); m.map.push_back(k); }
    ndarray v = base;
    MC_NOTE(c, "parent shape " + mc::str(ps));
    for (int s = 0; s < depth; ++s) {
        int op = c.choose(5, "op");
        c.step();
        std::string what;
        if (op == 0) break;
        if (op == 1) {                                  // slice
            int d = c.choose(m.shape.size(), "dim");
            int64_t n = m.shape[d];
            static const std::vector<std::array<int64_t, 3>> forms{
                {0, 1 << 30, 1}, {1, 1 << 30, 1}, {0, -1, 1}, {-1, 1 << 30, 1}, {-2, -1, 1}, {0, 1 << 30, 2}, {1, 1 << 30, 2},
                {0, 1 << 30, 3}, {2, 3, 1}, {1, 1, 1}, {-3, 1 << 30, 2}, {0, 2, 1}, {9, 10, 1}, {-9, 10, 1}, {2, 1, 1}, {0, 3, 0}, {3, 0, -1}};
            static const std::vector<std::array<int64_t, 3>> few_forms{{1, 1 << 30, 1}, {0, -1, 1}, {-2, 1 << 30, 1}, {0, 1 << 30, 2}, {1, 1 << 30, 2}, {1, 2, 1}};
            auto f = c.pick(small ? few_forms : forms, "range");
            int64_t st = f[0] < 0 ? n + f[0] : f[0], en = f[1] < 0 ? n + f[1] : std::min<int64_t>(f[1], n);
            bool invalid = st < 0 || st > n || en < st || f[2] <= 0;
            what = "slice(dim " + mc::str(d) + ", " + mc::str(f[0]) + ":" + (f[1] == (1 << 30) ? "" : mc::str(f[1])) + ":" + mc::str(f[2]) + ") of " + mc::str(m.shape);
            MC_NOTE(c, what);
            bool threw = false;
            try {
                if (!small && c.flip("through spec")) {
                    bland::ndarray_slice z = bland::slice(v, bland::slice_spec(d, f[0], f[1] == (1 << 30) ? std::numeric_limits<int64_t>::max() : f[1], f[2]));
                    v = ndarray(z);
                } else {
                    bland::ndarray_slice z = cut(v, d, f[0], f[1], f[2]);
                    v = ndarray(z);
                }
            } catch (std::exception &) { threw = true; }
            if (invalid) { MC_CHECK(c, threw, "invalid-slice-accepted", what + " names no valid range but was accepted"); break; }
            MC_CHECK(c, !threw, "valid-slice-rejected", what + " was rejected");
            m = m_slice(m, d, st, en, f[2]);
        } else if (op == 2) {                           // unsqueeze
            int d = c.choose(m.shape.size() + 1, "axis");
            c.assume(m.shape.size() < 4);
            what = "unsqueeze(" + mc::str(d) + ") of " + mc::str(m.shape);
            MC_NOTE(c, what);
            ndarray w = v;
            ndarray z = w.unsqueeze(d);
            v = ndarray(z);
            m.shape.insert(m.shape.begin() + d, 1);
        } else if (op == 3) {                           // squeeze
            c.assume(m.shape.size() > 1);
            int d = c.choose(m.shape.size(), "axis");
            bool neg = c.flip("negative axis");
            int64_t ax = neg ? d - (int64_t)m.shape.size() : d;
            what = "squeeze(" + mc::str(ax) + ") of " + mc::str(m.shape);
            MC_NOTE(c, what);
            bool threw = false;
            try { ndarray w = v; ndarray z = w.squeeze(ax); v = ndarray(z); } catch (std::exception &) { threw = true; }
            if (m.shape[d] != 1) { MC_CHECK(c, threw, "bad-squeeze-accepted", what + " dropped a dimension that is not 1"); break; }
            MC_CHECK(c, !threw, "squeeze-rejected", what + " was rejected");
            m.shape.erase(m.shape.begin() + d);
        } else {                                        // reshape (the library may refuse one that needs a copy)
            int64_t n = bl::numel(m.shape);
            c.assume(n > 0);
            std::vector<Shape> to{{n}, {1, n}, {n, 1}, {1, n, 1}};
            for (int64_t q = 2; q < n; ++q) if (n % q == 0) { to.push_back({q, n / q}); to.push_back({q, 1, n / q}); }
            to.push_back({n + 1});
            Shape ns = c.pick(to, "new shape");
            what = "reshape of " + mc::str(m.shape) + " to " + mc::str(ns);
            MC_NOTE(c, what);
            bool threw = false;
            try { ndarray w = v; ndarray z = w.reshape(ns); v = ndarray(z); } catch (std::exception &) { threw = true; }
            if (bl::numel(ns) != n) { MC_CHECK(c, threw, "bad-reshape-accepted", what + " changed the number of elements"); break; }
            if (threw) {
                // refusing is only acceptable where strided data would have to move or the rank stays the same
                bool contiguous = true; for (size_t k = 1; k < m.map.size(); ++k) contiguous &= m.map[k] == m.map[k - 1] + 1;
                MC_CHECK(c, !contiguous || ns.size() == m.shape.size(), "reshape-rejected", what + " of contiguous data was rejected");
                break;
            }
            m.shape = ns;
        }
        check_view(c, v, m, what);
    }
    c.state(mc::mix(mc::hash_vec(m.shape), mc::hash_vec(m.map)));
    // write through the view
    std::vector<double> expect;
    for (int64_t k = 0; k < bl::numel(ps); ++k) expect.push_back(k);
    int w = c.choose(3, "write");
    c.step();
    if (w == 0) {
        bland::fill(v, 100.0f);
        for (auto p : m.map) expect[p] = 100;
        MC_NOTE(c, "fill through the view with 100");
    } else if (w == 1) {
        ndarray src(m.shape, dl(F32));
        for (int64_t k = 0; k < bl::numel(m.shape); ++k) bl::set_at(src, k, 200 + k);
        bland::ndarray_slice sl(v);
        sl = src;
        for (size_t k = 0; k < m.map.size(); ++k) expect[m.map[k]] = 200 + k;
        MC_NOTE(c, "assign 200.. through the view");
    } else {
        ndarray cp = bland::copy(v);
        MC_CHECK(c, cp.shape() == m.shape, "copy-shape", "copy has another shape");
        std::vector<double> vals = bl::values(cp);
        for (size_t k = 0; k < m.map.size(); ++k) MC_CHECK(c, vals[k] == m.map[k], "copy", "copy of the view holds " + mc::str(vals) + " expected " + mc::str(m.map));
        if (bl::numel(m.shape)) bland::fill(cp, 300.0f);
        MC_NOTE(c, "copy the view, then overwrite the copy");
    }
    for (int64_t k = 0; k < bl::numel(ps); ++k)
        MC_CHECK(c, bl::get_at(base, k) == expect[k], "write-through", "after the write parent element " + mc::str(k) + " is " + mc::str(bl::get_at(base, k)) + ", expected " + mc::str(expect[k]));
    c.outcome(mc::hash_vec(expect));
}
} // namespace

MC_PROPERTY(A01) {
    mc::explore("view-chain", [](Ctx &c) { body(c, mc::thorough() ? 3 : 2, false); });
    mc::explore("view-chain-deep", [](Ctx &c) { body(c, mc::thorough() ? 5 : 4, true); });
    mc::explore("invalid-axis", [](Ctx &c) {
        ndarray a({3, 2}, dl(F32));
        int64_t ax = c.pick(std::vector<int64_t>{-3, -1, 2, 3, 50}, "axis");
        int op = c.choose(3, "op");
        c.step();
        bool threw = false;
        try {
            if (op == 0) (void)a.size(ax);
            if (op == 1) { auto s = cut(a, ax, 0, 1, 1); (void)s; }
            if (op == 2) { c.assume(ax != -1); (void)a.squeeze(ax); }
        } catch (std::exception &) { threw = true; }
        c.state(op * 10 + ax);
        MC_CHECK(c, threw, op == 0 ? "size-bad-axis" : op == 1 ? "slice-bad-axis" : "squeeze-bad-axis", "axis " + mc::str(ax) + " of a 2-d array was accepted");
    });
}
