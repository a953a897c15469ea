// Simulator core: PRNG, run context (event hash, counters), plans.
#ifndef RONSIM_CORE_HPP
#define RONSIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

using std::string;
using i64 = int64_t;
using u64 = uint64_t;

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s{mix64(seed ^ 0x5eedULL)} {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ULL;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 in(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
    bool chance(int percent) { return below(100) < u64(percent); }
    /** skewed small number */
    i64 small(i64 max) {
        i64 a = in(0, max), b = in(0, max);
        return a < b ? a : b;
    }
};

/** One step of a plan: an operation, a fault or a scheduling decision. All the
 *  arguments are integers, so plans can be shrunk and replayed from text. */
struct Step {
    string op;
    std::vector<i64> a;
    Step() = default;
    Step(string o, std::vector<i64> args = {}) : op{std::move(o)}, a{std::move(args)} {}
    i64 arg(size_t i, i64 dflt = 0) const { return i < a.size() ? a[i] : dflt; }
    u64 uarg(size_t i) const { return u64(arg(i)) & 0x7fffffffffffffffULL; }
    string str() const {
        string s = op;
        for (auto v : a) s += ' ' + std::to_string(v);
        return s;
    }
};
using Plan = std::vector<Step>;

struct Violation {
    string cls;  // oracle id: stable under minimisation
    string msg;
};
/** Thrown when an oracle fails. */
[[noreturn]] inline void fail(const string& cls, const string& msg) {
    throw Violation{cls, msg};
}

/** Per-run context. */
struct Ctx {
    u64 hash = 0xcbf29ce484222325ULL;  // event log hash
    u64 events = 0;
    bool log = false;  // print events
    std::map<string, u64> faults;  // injected (fired) faults by kind
    std::map<string, u64> probes;  // rare conditions reached
    std::set<u64> states;          // distinct abstract states reached
    u64 sim_us = 0;                // simulated time covered
    bool muted = false;

    void fold(const char* p, size_t n) {
        for (size_t i = 0; i < n; i++) {
            hash ^= (unsigned char)p[i];
            hash *= 0x100000001b3ULL;
        }
        hash ^= 0xff;
        hash *= 0x100000001b3ULL;
    }
    void ev(const string& text) {
        if (muted) return;
        string s = text;
        // SST checksums cover the ids RocksDB draws for each session
        for (const char* k : {"stored = ", "computed = "})
            for (size_t at = s.find(k); at != string::npos; at = s.find(k, at)) {
                at += strlen(k);
                while (at < s.size() && isdigit((unsigned char)s[at])) s.erase(at, 1);
            }
        ++events;
        fold(s.data(), s.size());
        if (log) {
            fwrite(s.data(), 1, s.size(), stderr);
            fputc('\n', stderr);
        }
    }
    void fault(const string& k) {
        ++faults[k];
        ev("FAULT " + k);
    }
    void probe(const string& k, u64 n = 1) { probes[k] += n; }
    void state(u64 h) { states.insert(h); }
};

extern Ctx* cx;  // never null while a run is in progress

inline u64 hstr(const string& s, u64 h = 0xcbf29ce484222325ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 0x100000001b3ULL;
    }
    return mix64(h);
}

/** A world: a plan generator plus an executor with its oracles. */
struct World {
    string name;
    string property;
    string what;
    std::function<Plan(Rng&)> gen;
    std::function<void(const Plan&)> exec;  // throws Violation
    string stubs;      // which components run real code, which a stub
};
std::vector<World>& worlds();
struct Register {
    explicit Register(World w) { worlds().push_back(std::move(w)); }
};

inline string esc(const string& s) {
    string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127) {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else
            r += char(c);
    }
    return r;
}

}  // namespace sim
#endif
