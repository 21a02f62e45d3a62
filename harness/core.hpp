// Runtime-monitoring core: deterministic case runner, trace, coverage ledger,
// sanitizer / assertion / hang capture.  No ICL code is used in here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <algorithm>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace vf {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix64(h);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { return mix64(s++ * 0x2545F4914F6CDD1Dull + 0x1234567); }
    int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); } // inclusive
    bool chance(int num, int den) { return below(den) < num; }
};

struct CaseFail { std::string tag, msg; };
struct CaseSkip {};               // a lenient case ran into something another property judges

struct Case {
    Rng rng;
    bool tracing = false;
    bool lenient = false;          // functional mismatches end the case silently
    bool live = false;             // write trace to stderr as it happens
    std::vector<std::string> trace;
    uint64_t h = 0;                // fingerprint of the case's observed behaviour
    bool nontrivial = false;
    uint64_t observations = 0;     // oracle comparisons made
    explicit Case(uint64_t seed) : rng(seed) {}
    template <class F> void say(F f) {
        if (!tracing) return;
        std::ostringstream o; f(o);
        if (trace.size() < 400) trace.push_back(o.str());
        if (live) { fprintf(stderr, "TRACE %s\n", o.str().c_str()); fflush(stderr); }
    }
    void see(uint64_t x) { h = mix64(h ^ (x + 0x51ed270b)); }
    void obs(uint64_t n = 1) { observations += n; }
    [[noreturn]] void fail(const std::string& tag, const std::string& msg) {
        if (lenient && tag.compare(0, 4, "mem:") != 0) throw CaseSkip();
        throw CaseFail{tag, msg};
    }
    void check(bool ok, const char* tag, const char* msg) { obs(); if (!ok) fail(tag, msg); }
};

struct Config {
    std::string name;
    int cases_quick, cases_thorough;
    std::function<void(Case&, int)> fn; // (case, index)
};
inline std::vector<Config>& registry() { static std::vector<Config> r; return r; }
inline std::map<std::string, uint64_t>& counters() { static std::map<std::string, uint64_t> c; return c; }
inline void count(const std::string& k, uint64_t n = 1) { counters()[k] += n; }
inline void reg(const std::string& name, int q, int t, std::function<void(Case&, int)> fn) {
    registry().push_back(Config{name, q, t, std::move(fn)});
}

inline const char* g_config = "?";
inline long g_case = -1;

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

inline void say_dead(const char* why) {
    char b[512];
    int n = snprintf(b, sizeof b, "\nDEAD why=%s config=%s case=%ld\n", why, g_config, g_case);
    if (n > 0) { ssize_t r = write(2, b, size_t(n)); (void)r; }
}
inline void on_abort(int) { say_dead("abort"); _exit(88); }
inline void on_prof(int) { say_dead("hang"); _exit(86); }
inline void arm_watchdog(int secs) {
    itimerval it{}; it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr);
}
} // namespace vf

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define VF_HAVE_SAN 1
#endif

// BOOST_ASSERT failures inside the library are violations of its own contract
namespace boost {
#ifdef BOOST_ENABLE_ASSERT_HANDLER
inline void assertion_failed(char const* expr, char const* function, char const* file, long line) {
    (void)function;
    std::string f(file); auto p = f.rfind("boost/icl"); if (p != std::string::npos) f = f.substr(p);
    throw vf::CaseFail{"assert:" + f, std::string("BOOST_ASSERT(") + expr + ") failed at " + f + ":" + std::to_string(line)};
}
inline void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) {
    (void)msg; assertion_failed(expr, function, file, line);
}
#endif
}

namespace vf {
inline int run_main(int argc, char** argv) {
    uint64_t seed = 1; std::string only, out, tier = "quick"; long onecase = -1; bool live = false; double scale = 1;
    std::set<std::string> skip;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--config") only = val();
        else if (a == "--case") onecase = atol(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--tier") tier = val();
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--live") live = true;
        else if (a == "--skip") skip.insert(val()); // "config#case" to leave out
        else if (a == "--list") { for (auto& c : registry()) printf("%s %d %d\n", c.name.c_str(), c.cases_quick, c.cases_thorough); return 0; }
    }
    signal(SIGABRT, on_abort);
    signal(SIGPROF, on_prof);
#ifdef VF_HAVE_SAN
    __sanitizer_set_death_callback([] { say_dead("sanitizer"); });
#endif
    struct Failure { std::string config, tag, msg; long idx; std::vector<std::string> trace; uint64_t count; };
    std::map<std::pair<std::string, std::string>, Failure> fails;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, nontriv = 0, obs = 0;
    std::vector<std::pair<std::string, std::vector<std::string>>> samples;
    std::map<std::string, std::pair<uint64_t, uint64_t>> per; // evals, distinct
    std::map<std::string, std::vector<long>> fail_cases;
    for (auto& cfg : registry()) {
        if (!only.empty() && cfg.name != only) continue;
        g_config = cfg.name.c_str();
        long n = tier == "thorough" ? cfg.cases_thorough : cfg.cases_quick;
        n = std::max<long>(1, long(n * scale));
        long from = 0, to = n;
        if (onecase >= 0) { from = onecase; to = onecase + 1; }
        uint64_t cfgseed = hash_str(cfg.name, seed * 0x9e3779b97f4a7c15ull + 77);
        int nfail = 0;
        for (long k = from; k < to; ++k) {
            g_case = k;
            if (!skip.empty() && skip.count(cfg.name + "#" + std::to_string(k))) continue;
            auto attempt = [&](Case& c) -> bool {
                arm_watchdog(20);
                try {
#ifdef VF_VALGRIND
                    unsigned long e0 = VALGRIND_COUNT_ERRORS;
                    cfg.fn(c, int(k)); c.obs();
                    if (VALGRIND_COUNT_ERRORS != e0) throw CaseFail{"mem:valgrind", "memcheck reported an error during this case"};
                    if (!RUNNING_ON_VALGRIND) throw CaseFail{"mem:valgrind", "not running under valgrind"};
#else
                    cfg.fn(c, int(k));
#endif
                    return true;
                }
                catch (CaseFail& f) {
                    auto key = std::make_pair(cfg.name, f.tag);
                    auto it = fails.find(key);
                    if (it == fails.end() || (c.tracing && it->second.idx == k)) {
                        uint64_t cnt = it == fails.end() ? 0 : it->second.count;
                        fails[key] = Failure{cfg.name, f.tag, f.msg, k, c.trace, cnt};
                    }
                }
                catch (std::exception& e) {
                    std::string tag = "exception";
                    fails[std::make_pair(cfg.name, tag)] = Failure{cfg.name, tag, e.what(), k, c.trace, 0};
                }
                return false;
            };
            Case c(mix64(cfgseed + uint64_t(k) * 0x9e3779b9ull));
            bool sample = (k == from + 1 || (n == 1)) && samples.size() < 6;
            c.tracing = sample || live; c.live = live;
            bool ok = attempt(c);
            ++evals; obs += c.observations;
            auto& p = per[cfg.name]; ++p.first;
            if (c.nontrivial) { if (distinct.insert(mix64(c.h ^ cfgseed)).second) { ++nontriv; ++p.second; } }
            if (sample && ok) samples.push_back({cfg.name + "#" + std::to_string(k), c.trace});
            if (!ok) {
                auto& v = fail_cases[cfg.name]; v.push_back(k);
                if (!c.tracing && nfail < 10) { // replay deterministically with tracing
                    Case d(mix64(cfgseed + uint64_t(k) * 0x9e3779b9ull));
                    d.tracing = true; attempt(d);
                }
                if (++nfail >= 400) break;
            }
        }
    }
    arm_watchdog(0);
    std::ostringstream o;
    o << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontriv << ",\"observations\":" << obs << ",\"configs\":{";
    bool first = true;
    for (auto& p : per) { o << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":[" << p.second.first << "," << p.second.second << "]"; first = false; }
    o << "},\"counters\":{"; first = true;
    for (auto& p : counters()) { o << (first ? "" : ",") << "\"" << json_escape(p.first) << "\":" << p.second; first = false; }
    auto tr = [&](const std::vector<std::string>& t) {
        o << "["; for (size_t i = 0; i < t.size(); ++i) o << (i ? "," : "") << "\"" << json_escape(t[i]) << "\""; o << "]";
    };
    o << "},\"samples\":["; first = true;
    for (auto& s : samples) { o << (first ? "" : ",") << "{\"case\":\"" << json_escape(s.first) << "\",\"trace\":"; tr(s.second); o << "}"; first = false; }
    o << "],\"failures\":["; first = true;
    for (auto& p : fails) {
        auto& f = p.second;
        o << (first ? "" : ",") << "{\"config\":\"" << json_escape(f.config) << "\",\"case\":" << f.idx << ",\"tag\":\"" << json_escape(f.tag)
          << "\",\"msg\":\"" << json_escape(f.msg) << "\",\"trace\":"; tr(f.trace); o << "}"; first = false;
    }
    o << "]}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(o.str().c_str(), f); fclose(f); }
    else fputs(o.str().c_str(), stdout);
    fflush(stdout);
    return fails.empty() ? 0 : 10;
}
} // namespace vf
#define VF_MAIN int main(int argc, char** argv) { return vf::run_main(argc, argv); }
