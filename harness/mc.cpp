#include <cxxabi.h>
#include "mc.hpp"
#include <chrono>
#include <csignal>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mc {
static std::map<std::string, void (*)()> &registry() { static std::map<std::string, void (*)()> r; return r; }
Reg::Reg(const char *id, void (*fn)()) { registry()[id] = fn; }

static std::string g_prop, g_out, g_scratch, g_replay_space;
static std::vector<int> g_replay;
static bool   g_replaying = false, g_thorough = false;
static int    g_shard = 0, g_nshards = 1;
static double g_deadline = 600;
static auto   g_start = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count(); }

struct SpaceStat { std::string name; uint64_t executions = 0, skipped = 0, steps = 0; double seconds = 0; bool complete = true; };
static std::vector<SpaceStat> g_spaces;
static std::unordered_set<uint64_t> g_states, g_outcomes;
static std::vector<std::string> g_samples;
struct Viol { std::string key, msg, space, notes; std::vector<int> path; };
static std::vector<Viol> g_viol;
static std::map<std::string, int> g_keycount;
static std::string g_error;

// current path, readable from a signal handler
static int             g_cur[4096];
static volatile size_t g_cur_n = 0;
static char            g_cur_space[256];
static const Ctx      *g_ctx = nullptr;
static volatile unsigned long g_progress = 0;
static unsigned long   g_last_progress = 0;
static int             g_stuck = 0;

void Ctx::publish(size_t n) {
    if (n <= 4096) g_cur[n - 1] = _path[n - 1].first;
    g_cur_n = n;
    g_ctx = this;
    g_progress = g_progress + 1;
}

bool thorough() { return g_thorough; }
const std::string &scratch() { return g_scratch; }

static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static void write_results() {
    FILE *f = fopen(g_out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"property\":\"%s\",\"error\":\"%s\",\"wall\":%.3f,\"spaces\":[", g_prop.c_str(), esc(g_error).c_str(), elapsed());
    for (size_t i = 0; i < g_spaces.size(); ++i) {
        auto &s = g_spaces[i];
        fprintf(f, "%s{\"name\":\"%s\",\"executions\":%lu,\"skipped\":%lu,\"steps\":%lu,\"complete\":%s,\"seconds\":%.2f}", i ? "," : "", esc(s.name).c_str(),
                s.executions, s.skipped, s.steps, s.complete ? "true" : "false", s.seconds);
    }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < g_samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(g_samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < g_viol.size(); ++i) {
        auto &v = g_viol[i];
        fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"space\":\"%s\",\"notes\":\"%s\",\"count\":%d,\"path\":[", i ? "," : "", esc(v.key).c_str(),
                esc(v.msg).c_str(), esc(v.space).c_str(), esc(v.notes).c_str(), g_keycount[v.key]);
        for (size_t k = 0; k < v.path.size(); ++k) fprintf(f, "%s%d", k ? "," : "", v.path[k]);
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    fclose(f);
    FILE *h = fopen((g_out + ".states").c_str(), "wb");
    if (h) { for (auto v : g_states) fwrite(&v, 8, 1, h); fclose(h); }
    h = fopen((g_out + ".outcomes").c_str(), "wb");
    if (h) { for (auto v : g_outcomes) fwrite(&v, 8, 1, h); fclose(h); }
}

// called on a crash (sanitizer report, fatal signal, hang): record the path that did it and leave
static void die_with(const char *key, const char *what) {
    static volatile int once = 0;
    if (once) _exit(3);
    once = 1;
    Viol v;
    v.key = key; v.msg = what; v.space = g_cur_space;
    for (size_t i = 0; i < g_cur_n && i < 4096; ++i) v.path.push_back(g_cur[i]);
    if (g_ctx && g_replaying) v.notes = g_ctx->notes;
    g_keycount[key]++;
    g_viol.push_back(v);
    write_results();
    _exit(2);
}
static void on_signal(int sig) {
    if (sig == SIGFPE) die_with("crash", "fatal signal SIGFPE (integer division by zero)");
    if (sig == SIGSEGV) die_with("crash", "fatal signal SIGSEGV");
    if (sig == SIGBUS) die_with("crash", "fatal signal SIGBUS");
    if (sig == SIGABRT) die_with("crash", "abort (uncaught exception, assertion, or allocator check)");
    die_with("crash", "fatal signal");
}
static void on_death() { die_with("memory-error", "AddressSanitizer reported an invalid memory access"); }
static void on_alarm(int) {
    if (g_progress == g_last_progress && g_cur_n > 0) {
        if (++g_stuck >= 90) die_with("hang", "one execution made no progress for a long time");
    } else {
        g_stuck = 0;
        g_last_progress = g_progress;
    }
}

static bool run_once(const std::function<void(Ctx &)> &body, Ctx &c, Fail &f) {
    // returns false if skipped; throws Divergence; sets f.key when failing
    try {
        body(c);
        if (!c._shard_decided) c.decide_shard();
        return true;
    } catch (Skip &) {
        return false;
    } catch (Fail &x) {
        f = x;
        return true;
    } catch (Divergence &) {
        throw;
    } catch (std::exception &e) {
        f = Fail{"unexpected-exception", std::string("uncaught exception: ") + e.what()};
        return true;
    } catch (...) {
        std::string n = "(unknown)";
        if (auto *t = abi::__cxa_current_exception_type()) n = t->name();
        f = Fail{"unexpected-exception", "uncaught exception of type " + n};
        return true;
    }
}

void explore(const char *space, const std::function<void(Ctx &)> &body) {
    snprintf(g_cur_space, sizeof g_cur_space, "%s", space);
    uint64_t sid = hash_str(space);
    if (g_replaying) {
        if (g_replay_space != space) return;
        Ctx c;
        c.verbose = true; c.thorough = g_thorough;
        std::unordered_set<uint64_t> s1, s2;
        c.states = &s1; c.outcomes = &s2; c._space_id = sid; c._counting = false; c._shard_decided = true;
        // the number of alternatives is not recorded: take the recorded answers as they come
        for (int v : g_replay) c._path.emplace_back(v, -1);
        // permissive: patch the alternatives as they are asked for
        struct P : Ctx {};
        Fail f;
        // two-pass: fill in n lazily by catching divergence
        bool ok = false;
        for (size_t guard = 0; guard < g_replay.size() + 2; ++guard) {
            Ctx d = c; d._pos = 0; d.notes.clear();
            f = Fail{};
            try { ok = run_once(body, d, f); c.notes = d.notes; break; }
            catch (Divergence &e) {
                // message ends in "has N alternatives, had -1": patch this point
                size_t k = d._pos;
                int n = 0;
                auto p = e.msg.find(" has ");
                n = atoi(e.msg.c_str() + p + 5);
                if (k >= c._path.size() || c._path[k].second != -1 || c._path[k].first >= n) { g_error = "replay diverged: " + e.msg; return; }
                c._path[k].second = n;
            }
        }
        (void)ok;
        SpaceStat st; st.name = space; st.executions = 1; g_spaces.push_back(st);
        g_samples.push_back(c.notes);
        if (!f.key.empty()) {
            g_keycount[f.key]++;
            g_viol.push_back(Viol{f.key, f.msg, space, c.notes, g_replay});
        }
        return;
    }
    SpaceStat st; st.name = space;
    const double begun = elapsed();
    Ctx c;
    c.thorough = g_thorough;
    c.states = &g_states; c.outcomes = &g_outcomes; c._space_id = sid; c._shard = g_shard; c._nshards = g_nshards;
    uint64_t next_sample = 1;
    int failures = 0;
    for (;;) {
        c._pos = 0; c.notes.clear(); c.deviations = 0; c.deviation_bound = 1 << 30; c.verbose = false; c._counting = true;
        c._shard_idx = 0; c._shard_prod = 1; c._shard_decided = (g_nshards == 1); c.steps = 0;
        Fail f;
        bool counted;
        try { counted = run_once(body, c, f); }
        catch (Divergence &d) { g_error = std::string(space) + ": " + d.msg; g_spaces.push_back(st); write_results(); _exit(4); }
        if (counted) { st.executions++; st.steps += c.steps; } else st.skipped++;
        bool want_sample = counted && f.key.empty() && st.executions == next_sample && g_samples.size() < 12;
        if (want_sample || !f.key.empty()) {
            if (!f.key.empty()) g_keycount[f.key]++;
            bool fresh = !f.key.empty() && g_keycount[f.key] == 1;
            if (want_sample || fresh) {
                Ctx d = c;
                d._pos = 0; d.notes.clear(); d.verbose = true; d._counting = false; d.deviations = 0; d.deviation_bound = 1 << 30;
                d._shard_decided = true;
                d._path.resize(c._pos);
                Fail f2;
                try { run_once(body, d, f2); } catch (Divergence &e) { g_error = std::string(space) + ": re-execution diverged: " + e.msg; }
                if (fresh) {
                    std::vector<int> p;
                    for (auto &x : d._path) p.push_back(x.first);
                    std::string m = f.msg;
                    if (f2.key != f.key) m += " [NOT reproduced on immediate re-execution]";
                    g_viol.push_back(Viol{f.key, m, space, d.notes, p});
                    ++failures;
                } else {
                    g_samples.push_back(std::string(space) + ": " + d.notes.substr(0, 600));
                    next_sample *= 100;
                }
            }
        }
        if (failures > 40) { st.complete = false; break; }
        if (elapsed() > g_deadline) { st.complete = false; break; }
        // backtrack
        c._path.resize(c._pos);
        while (!c._path.empty() && c._path.back().first + 1 >= c._path.back().second) c._path.pop_back();
        if (c._path.empty()) break;
        c._path.back().first++;
    }
    st.seconds = elapsed() - begun;
    g_spaces.push_back(st);
    g_cur_n = 0;
}
} // namespace mc

int main(int argc, char **argv) {
    using namespace mc;
    std::string replay;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char *k) { return a.substr(strlen(k)); };
        if (a.rfind("--property=", 0) == 0) g_prop = val("--property=");
        else if (a.rfind("--out=", 0) == 0) g_out = val("--out=");
        else if (a.rfind("--tier=", 0) == 0) g_thorough = val("--tier=") == "thorough";
        else if (a.rfind("--shard=", 0) == 0) sscanf(a.c_str() + 8, "%d/%d", &g_shard, &g_nshards);
        else if (a.rfind("--deadline=", 0) == 0) g_deadline = atof(a.c_str() + 11);
        else if (a.rfind("--scratch=", 0) == 0) g_scratch = val("--scratch=");
        else if (a.rfind("--replay-space=", 0) == 0) { g_replay_space = val("--replay-space="); g_replaying = true; }
        else if (a.rfind("--replay-path=", 0) == 0) {
            std::stringstream ss(val("--replay-path="));
            std::string t;
            while (std::getline(ss, t, ',')) if (!t.empty()) g_replay.push_back(atoi(t.c_str()));
            g_replaying = true;
        }
    }
    auto it = registry().find(g_prop);
    if (it == registry().end() || g_out.empty()) { fprintf(stderr, "no such property %s\n", g_prop.c_str()); return 5; }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    static char altstack[1 << 16];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGFPE, SIGABRT, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    if (!__sanitizer_set_death_callback) sigaction(SIGSEGV, &sa, nullptr);
    struct sigaction sal{}; sal.sa_handler = on_alarm; sal.sa_flags = SA_RESTART; sigaction(SIGALRM, &sal, nullptr);
    itimerval tv{}; tv.it_interval.tv_sec = 1; tv.it_value.tv_sec = 1; setitimer(ITIMER_REAL, &tv, nullptr);
    try { it->second(); }
    catch (std::exception &e) { g_error = std::string("harness exception: ") + e.what(); }
    write_results();
    _exit(g_error.empty() ? 0 : 4);
}
