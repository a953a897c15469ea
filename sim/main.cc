// Runner: seeds, forked runs, determinism gate, minimiser, replay files.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include "core.hpp"
#include "simfs.hpp"

using namespace sim;

namespace {

struct Outcome {
    bool ok = false;
    string cls, msg;  // violation
    u64 hash = 0, events = 0, sim_us = 0;
    std::map<string, u64> faults, probes;
    std::vector<u64> states;
    bool failed() const { return !cls.empty(); }
};

double now_s() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

string one_line(string s, size_t max = 2000) {
    for (auto& c : s)
        if (c == '\n') c = ' ';
    return s.substr(0, max);
}

const World* find_world(const string& n) {
    for (auto& w : worlds())
        if (w.name == n) return &w;
    return nullptr;
}

/** the run proper; in a child process */
Outcome run_here(const World& w, const Plan& plan, bool log) {
    Outcome o;
    Ctx ctx;
    ctx.log = log;
    cx = &ctx;
    global_us = EPOCH_US;
    fs_trace = true;
    enter_sim_thread();
    i64 t0 = global_us;
    try {
        w.exec(plan);
        o.ok = true;
    } catch (const Violation& v) {
        o.cls = v.cls;
        o.msg = v.msg;
    } catch (const std::exception& e) {
        o.cls = string("exception");
        o.msg = e.what();
    }
    o.hash = ctx.hash;
    o.events = ctx.events;
    o.sim_us = u64(global_us - t0) + ctx.sim_us;
    o.faults = ctx.faults;
    o.probes = ctx.probes;
    o.states.assign(ctx.states.begin(), ctx.states.end());
    return o;
}

void put(string& s, const string& v) { s += v; s += '\0'; }

Outcome run_forked(const World& w, const Plan& plan, bool log = false) {
    int fd[2], er[2];
    if (pipe(fd) || pipe(er)) {
        perror("pipe");
        exit(2);
    }
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (!pid) {
        close(fd[0]);
        close(er[0]);
        if (!log) dup2(er[1], 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        struct rlimit rl = {30, 35};
        setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        Outcome o = run_here(w, plan, log);
        string s;
        put(s, o.ok ? "1" : "0");
        put(s, o.cls);
        put(s, o.msg);
        put(s, std::to_string(o.hash));
        put(s, std::to_string(o.events));
        put(s, std::to_string(o.sim_us));
        for (auto* m : {&o.faults, &o.probes}) {
            put(s, std::to_string(m->size()));
            for (auto& p : *m) {
                put(s, p.first);
                put(s, std::to_string(p.second));
            }
        }
        put(s, std::to_string(o.states.size()));
        for (auto h : o.states) put(s, std::to_string(h));
        put(s, "END");
        size_t at = 0;
        while (at < s.size()) {
            ssize_t k = write(fd[1], s.data() + at, s.size() - at);
            if (k <= 0) break;
            at += size_t(k);
        }
        _exit(0);
    }
    close(fd[1]);
    close(er[1]);
    string s, e;
    char buf[65536];
    struct pollfd p[2] = {{fd[0], POLLIN, 0}, {er[0], POLLIN, 0}};
    int left = 2;
    double t0 = now_s();
    bool timeout = false;
    while (left) {
        if (poll(p, 2, 1000) < 0 && errno != EINTR) break;
        for (int i = 0; i < 2; i++) {
            if (p[i].fd < 0 || !(p[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            ssize_t k = read(p[i].fd, buf, sizeof buf);
            if (k <= 0) {
                p[i].fd = -1;
                --left;
                continue;
            }
            if (i == 0)
                s.append(buf, size_t(k));
            else if (e.size() < 200000)
                e.append(buf, size_t(k));
        }
        if (now_s() - t0 > 90) {
            timeout = true;
            kill(pid, SIGKILL);
            break;
        }
    }
    close(fd[0]);
    close(er[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    std::vector<string> f;
    for (size_t i = 0; i < s.size();) {
        size_t z = s.find('\0', i);
        if (z == string::npos) break;
        f.push_back(s.substr(i, z - i));
        i = z + 1;
    }
    if (!f.empty() && f.back() == "END") {
        size_t i = 0;
        o.ok = f[i++] == "1";
        o.cls = f[i++];
        o.msg = f[i++];
        o.hash = strtoull(f[i++].c_str(), nullptr, 10);
        o.events = strtoull(f[i++].c_str(), nullptr, 10);
        o.sim_us = strtoull(f[i++].c_str(), nullptr, 10);
        for (auto* m : {&o.faults, &o.probes}) {
            size_t n = strtoull(f[i++].c_str(), nullptr, 10);
            while (n--) {
                (*m)[f[i]] = strtoull(f[i + 1].c_str(), nullptr, 10);
                i += 2;
            }
        }
        size_t n = strtoull(f[i++].c_str(), nullptr, 10);
        while (n--) o.states.push_back(strtoull(f[i++].c_str(), nullptr, 10));
        return o;
    }
    o.ok = false;
    if (timeout || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
        o.cls = "hang";
        o.msg = "no answer within the CPU budget of a run";
    } else if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
        string why = WIFSIGNALED(st) ? string("signal ") + std::to_string(WTERMSIG(st))
                                     : string("exit ") + std::to_string(WEXITSTATUS(st));
        auto a = e.find("Assertion `");
        auto san = e.find("ERROR: AddressSanitizer: ");
        auto ub = e.find("runtime error: ");
        if (e.find("SIM-DEADLOCK") != string::npos)
            o.cls = "deadlock";
        else if (a != string::npos) {
            auto z = e.find("' failed", a);
            o.cls = "crash:assert:" + one_line(e.substr(a + 11, z == string::npos ? 60 : z - a - 11), 80);
        } else if (san != string::npos) {
            auto z = e.find_first_of(" \n", san + 25);
            o.cls = "crash:asan:" + e.substr(san + 25, z - san - 25);
        } else if (ub != string::npos) {
            o.cls = "crash:ubsan";
        } else
            o.cls = "crash:" + why;
        o.msg = "the process dies (" + why + "): " + e.substr(0, 3000);
    } else {
        o.cls = "crash:lost";
        o.msg = "no outcome";
    }
    o.hash = hstr(o.cls);
    return o;
}

Plan minimise(const World& w, Plan p, const string& cls, double budget) {
    double end = now_s() + budget;
    auto bad = [&](const Plan& q) { return now_s() < end && run_forked(w, q).cls == cls; };
    // drop chunks
    for (size_t n = std::max<size_t>(1, p.size() / 2); n >= 1; n /= 2) {
        bool again = true;
        while (again && now_s() < end) {
            again = false;
            for (size_t i = 0; i < p.size() && now_s() < end;) {
                Plan q(p.begin(), p.begin() + long(i));
                if (i + n < p.size()) q.insert(q.end(), p.begin() + long(i + n), p.end());
                if (q.size() < p.size() && bad(q)) {
                    p = q;
                    again = n == 1;
                } else
                    i += n;
            }
        }
        if (n == 1) break;
    }
    // shrink arguments
    for (auto i = 0u; i < p.size() && now_s() < end; i++) {
        for (auto k = 0u; k < p[i].a.size() && now_s() < end; k++) {
            for (i64 v : {i64(0), i64(1), p[i].a[k] / 1000000, p[i].a[k] / 1000, p[i].a[k] / 2}) {
                if (std::llabs(v) >= std::llabs(p[i].a[k])) continue;
                Plan q = p;
                q[i].a[k] = v;
                if (bad(q)) {
                    p = q;
                    break;
                }
            }
        }
    }
    return p;
}

string jstr(const string& s) {
    string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c < 32 || c >= 127) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += char(c);
    }
    return r + "\"";
}
string jmap(const std::map<string, u64>& m) {
    string r = "{";
    for (auto& p : m) r += (r.size() > 1 ? "," : "") + jstr(p.first) + ":" + std::to_string(p.second);
    return r + "}";
}
string plan_text(const Plan& p) {
    string s;
    for (auto& st : p) s += st.str() + "\n";
    return s;
}

void save_replay(const string& path, const World& w, u64 seed, const Plan& p, const Outcome& o, size_t orig) {
    std::ofstream f(path);
    f << "# ronsim replay\nworld " << w.name << "\nproperty " << w.property << "\nseed " << seed << "\nclass "
      << o.cls << "\nhash " << o.hash << "\nsteps_before_minimisation " << orig << "\n";
    std::stringstream ss(o.msg);
    string line;
    while (std::getline(ss, line)) f << "# " << line << "\n";
    f << "plan\n" << plan_text(p);
}

struct Replay {
    string world, cls;
    u64 seed = 0, hash = 0;
    Plan plan;
};
bool load_replay(const string& path, Replay& r) {
    std::ifstream f(path);
    if (!f) return false;
    string line;
    bool inplan = false;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::stringstream ss(line);
        string k;
        ss >> k;
        if (inplan) {
            Step s{k};
            i64 v;
            while (ss >> v) s.a.push_back(v);
            r.plan.push_back(s);
        } else if (k == "world")
            ss >> r.world;
        else if (k == "seed")
            ss >> r.seed;
        else if (k == "hash")
            ss >> r.hash;
        else if (k == "class")
            r.cls = line.substr(6);
        else if (k == "plan")
            inplan = true;
    }
    return !r.world.empty();
}

u64 world_seed(const World& w, u64 base, u64 i) { return mix64(base * 1000003 + i) ^ hstr(w.name); }

int cmd_run(int argc, char** argv) {
    // run WORLD BASE FROM COUNT SECONDS OUT.json REPLAYDIR [KNOWN...]
    const World* w = find_world(argv[2]);
    if (!w) {
        fprintf(stderr, "no world %s\n", argv[2]);
        return 2;
    }
    u64 base = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10),
        count = strtoull(argv[5], nullptr, 10);
    double secs = atof(argv[6]);
    string out = argv[7], dir = argv[8];
    std::vector<string> known;  // violation signatures listed as known findings
    for (int i = 9; i < argc; i++) known.push_back(argv[i]);
    double t0 = now_s();
    u64 runs = 0, steps = 0, events = 0, sim_us = 0, rechecks = 0, mismatches = 0, unreproduced = 0,
        nontrivial = 0;
    double slowest = 0;
    u64 slowest_seed = 0;
    std::map<string, u64> faults, probes, known_hits;
    std::set<u64> states, hashes;
    string sample, viol = "[]";
    int fails = 0;
    std::set<string> classes;
    string vlist, odd;
    for (u64 i = from; i < from + count && now_s() - t0 < secs; i++) {
        u64 seed = world_seed(*w, base, i);
        Rng r{seed};
        Plan p = w->gen(r);
        double r0 = now_s();
        Outcome o = run_forked(*w, p);
        r0 = now_s() - r0;
        if (r0 > slowest) slowest = r0, slowest_seed = seed;
        ++runs;
        steps += p.size();
        events += o.events;
        sim_us += o.sim_us;
        for (auto& f : o.faults) faults[f.first] += f.second;
        for (auto& f : o.probes) probes[f.first] += f.second;
        states.insert(o.states.begin(), o.states.end());
        if (hashes.insert(o.hash).second && o.states.size() > 1) ++nontrivial;
        if (sample.empty() && p.size() > 5) sample = plan_text(p);
        if (!o.failed()) {
            if (i % 16 == 0) {
                ++rechecks;
                Outcome o2 = run_forked(*w, p);
                if (o2.hash != o.hash) {
                    ++mismatches;
                    odd += (odd.empty() ? "" : ",") + jstr(std::to_string(seed) + ": " + std::to_string(o.events) + "/" +
                                                          std::to_string(o2.events) + " events, " + o2.cls);
                }
            }
            continue;
        }
        bool is_known = false;
        for (auto& k : known)
            if (!k.empty() && (o.cls + " " + one_line(o.msg)).find(k) != string::npos) {
                ++known_hits[k];
                is_known = true;
            }
        if (is_known) continue;
        if (classes.count(o.cls)) continue;
        // gate: the same seed has to give the same failure, event by event
        Outcome o2 = run_forked(*w, p);
        if (o2.cls != o.cls || o2.hash != o.hash) {
            ++unreproduced;
            fprintf(stderr, "UNREPRODUCED %s seed %llu: %s vs %s\n", w->name.c_str(), (unsigned long long)seed,
                    o.cls.c_str(), o2.cls.c_str());
            continue;
        }
        Plan q = minimise(*w, p, o.cls, 40);
        Outcome oq = run_forked(*w, q);
        if (oq.cls != o.cls) {
            q = p;
            oq = o;
        }
        // the minimised trace may be a known finding in disguise
        for (auto& k : known)
            if (!k.empty() && (oq.cls + " " + one_line(oq.msg)).find(k) != string::npos) is_known = true;
        if (is_known) {
            q = p;
            oq = o;
        }
        string path = dir + "/" + w->name + "-" + std::to_string(seed) + ".replay";
        save_replay(path, *w, seed, q, oq, p.size());
        classes.insert(o.cls);
        vlist += (vlist.empty() ? "" : ",") + string("{\"replay\":") + jstr(path) + ",\"class\":" + jstr(oq.cls) +
                 ",\"msg\":" + jstr(oq.msg.substr(0, 4000)) + ",\"seed\":" + std::to_string(seed) +
                 ",\"steps\":" + std::to_string(q.size()) + "}";
        if (++fails >= 2) break;
    }
    std::ofstream f(out);
    f << "{\"world\":" << jstr(w->name) << ",\"runs\":" << runs << ",\"steps\":" << steps << ",\"events\":" << events
      << ",\"sim_us\":" << sim_us << ",\"rechecks\":" << rechecks << ",\"mismatches\":" << mismatches
      << ",\"odd\":[" << odd << "],\"unreproduced\":" << unreproduced << ",\"nontrivial\":" << nontrivial << ",\"wall\":" << now_s() - t0
      << ",\"slowest_run_s\":" << slowest << ",\"slowest_seed\":" << slowest_seed << ",\"faults\":" << jmap(faults) << ",\"probes\":" << jmap(probes) << ",\"known\":" << jmap(known_hits)
      << ",\"stubs\":" << jstr(w->stubs) << ",\"what\":" << jstr(w->what) << ",\"sample\":" << jstr(sample)
      << ",\"violations\":[" << vlist << "],\"states\":[";
    bool first = true;
    for (auto h : states) {
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "],\"hashes\":[";
    first = true;
    for (auto h : hashes) {
        f << (first ? "" : ",") << h;
        first = false;
    }
    f << "]}\n";
    return 0;
}

int cmd_replay(const char* path, bool log) {
    Replay r;
    if (!load_replay(path, r)) {
        fprintf(stderr, "cannot read %s\n", path);
        return 2;
    }
    const World* w = find_world(r.world);
    if (!w) return 2;
    Outcome o = run_forked(*w, r.plan, log);
    if (o.failed()) {
        printf("REPRODUCED world=%s class=%s hash=%llu expected=%llu\n%s\n", w->name.c_str(), o.cls.c_str(),
               (unsigned long long)o.hash, (unsigned long long)r.hash, o.msg.c_str());
        return o.cls == r.cls && o.hash == r.hash ? 1 : 3;
    }
    printf("NOT-REPRODUCED world=%s\n", w->name.c_str());
    return 0;
}

}  // namespace

int main(int argc, char** argv) {
    // one address-space layout, one allocator fill pattern: runs are repeatable
    if (!getenv("RONSIM_CHILD")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("RONSIM_CHILD", "1", 1);
        setenv("MALLOC_PERTURB_", "165", 1);
        setenv("MALLOC_ARENA_MAX", "1", 1);
        setenv("TZ", "UTC", 1);
        execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    if (argc < 2) return 2;
    string c = argv[1];
    if (c == "list") {
        for (auto& w : worlds()) printf("%s\t%s\t%s\n", w.name.c_str(), w.property.c_str(), w.what.c_str());
        return 0;
    }
    if (c == "run" && argc >= 9) return cmd_run(argc, argv);
    if (c == "replay" && argc >= 3) return cmd_replay(argv[2], argc > 3);
    if (c == "one" && argc >= 4) {  // one WORLD RAWSEED [log]: for debugging
        const World* w = find_world(argv[2]);
        if (!w) return 2;
        Rng r{strtoull(argv[3], nullptr, 10)};
        Plan p = w->gen(r);
        if (argc > 4) fputs(plan_text(p).c_str(), stdout);
        Outcome o = run_forked(*w, p, argc > 4);
        printf("%s hash=%llu events=%llu\n%s\n", o.failed() ? o.cls.c_str() : "ok", (unsigned long long)o.hash,
               (unsigned long long)o.events, o.msg.c_str());
        return o.failed();
    }
    if (c == "hashes" && argc >= 6) {  // hashes WORLD BASE FROM COUNT: determinism diff
        const World* w = find_world(argv[2]);
        if (!w) return 2;
        u64 base = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10);
        for (u64 i = from; i < from + strtoull(argv[5], nullptr, 10); i++) {
            Rng r{world_seed(*w, base, i)};
            Outcome o = run_forked(*w, w->gen(r));
            printf("%llu %s %llu seed=%llu\n", (unsigned long long)i, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)world_seed(*w, base, i));
        }
        return 0;
    }
    return 2;
}
