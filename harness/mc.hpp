// Stateless explicit-choice model checker used by every harness in this directory.
//
// A harness body is an ordinary function that drives the real bliss/bland code and asks `Ctx::choose(n)` for every
// decision (which operation, which argument, which fault, which crash point, ...).  `explore` runs the body once for
// every sequence of answers (depth-first), so the space described by the body is enumerated completely; nothing is
// sampled.  A failing sequence is re-executed at once with tracing on and written to a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};                               // this path is outside the space (or belongs to another shard)
struct Fail { std::string key, msg; };        // property violated on this path
struct Divergence { std::string msg; };       // harness not deterministic: a hard error

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
    auto b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 1099511628211ull; }
    return mix(h, n);
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
template <typename T> uint64_t hash_vec(const std::vector<T> &v) { return hash_bytes(v.data(), v.size() * sizeof(T)); }

template <typename T> std::string str(const T &v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string str(unsigned char v) { return std::to_string(v); }
template <typename T> std::string str(const std::vector<T> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { s += (i ? "," : ""); s += str(v[i]); }
    return s + "]";
}

class Ctx {
  public:
    // ---- decisions
    int choose(int n, const char *label = "") {
        if (n <= 0) throw Skip{};
        int v;
        if (_pos < _path.size()) {
            if (_path[_pos].second != n) {
                throw Divergence{std::string("choice point '") + label + "' has " + std::to_string(n) + " alternatives, had " +
                                 std::to_string(_path[_pos].second)};
            }
            v = _path[_pos].first;
        } else {
            v = 0;
            _path.emplace_back(0, n);
        }
        ++_pos;
        publish(_pos);
        if (!_shard_decided) {
            _shard_idx = _shard_idx * n + v;
            _shard_prod *= n;
            if (_shard_prod >= _shard_at) decide_shard();
        }
        if (verbose && label[0] && n > 1) notes += std::string("  ") + label + "=" + std::to_string(v) + "/" + std::to_string(n);
        return v;
    }
    template <typename T> T pick(const std::vector<T> &v, const char *label = "") { return v[choose((int)v.size(), label)]; }
    bool flip(const char *label = "") { return choose(2, label) == 1; }
    // a departure from the default answer 0; pruned once `budget` departures are used
    int deviate(int n, const char *label = "") {
        if (deviations >= deviation_bound) return 0;
        int v = choose(n, label);
        if (v) ++deviations;
        return v;
    }
    void assume(bool ok) { if (!ok) throw Skip{}; }

    // ---- observation
    void step() { ++steps; }
    void state(uint64_t h) { if (_counting && states->size() < 4000000) states->insert(mix(h, _space_id)); }
    void outcome(uint64_t h) { if (_counting && outcomes->size() < 4000000) outcomes->insert(mix(h, _space_id)); }
    void note(const std::string &s) { if (verbose) { notes += s; notes += "\n"; } }
#define MC_NOTE(c, expr) do { if ((c).verbose) { (c).note(expr); } } while (0)
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
#define MC_CHECK(c, cond, key, msg) do { if (!(cond)) { (c).fail(key, msg); } } while (0)

    bool        verbose = false;
    std::string notes;
    uint64_t    steps = 0;
    int         deviations = 0, deviation_bound = 1 << 30;
    bool        thorough = false;

    // ---- internals
    std::vector<std::pair<int, int>> _path;
    size_t                           _pos = 0;
    bool                             _counting = true;
    uint64_t                         _space_id = 0;
    std::unordered_set<uint64_t>    *states = nullptr, *outcomes = nullptr;
    int                              _shard = 0, _nshards = 1;
    uint64_t                         _shard_idx = 0, _shard_prod = 1;
    bool                             _shard_decided = false;
    uint64_t                         _shard_at = 512;             // alternatives after which paths are divided among processes
    void decide_shard() {
        _shard_decided = true;
        if (_nshards > 1 && (int)(mix(0x55, _shard_idx) % (uint64_t)_nshards) != _shard) throw Skip{};
    }
    void publish(size_t n);
};

void explore(const char *space, const std::function<void(Ctx &)> &body);
bool thorough();                 // tier
const std::string &scratch();    // private scratch directory of this process
// property ids -> function running its spaces
struct Reg { Reg(const char *id, void (*fn)()); };
#define MC_PROPERTY(id) static void mc_prop_##id(); static mc::Reg mc_reg_##id(#id, mc_prop_##id); static void mc_prop_##id()

} // namespace mc
