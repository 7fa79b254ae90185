// Driver: seeded exploration, replay and minimisation of simulated runs.
#include "world.hpp"
#include "wsrep/logger.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace ad { __attribute__((weak)) void scenario(const std::string&); }      // only in sim26
namespace ro { void reporter_scenario(const std::string&); void options_scenario(const std::string&); }

static double wall()
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) / 1e9; }

static void scenario(const std::string& prop)
{
    if (prop == "C18") return ro::reporter_scenario(prop);
    if (prop == "C20") return ro::options_scenario(prop);
    if (prop == "C22")
    {
        if (!ad::scenario) { fprintf(stderr, "this simulator has no adapter\n"); _exit(2); }
        return ad::scenario(prop);
    }
    if (prop == "C23")
    {
        const uint32_t k = sim::choose(8, "world");
        if (k == 7) return ro::reporter_scenario("C18");
        static const char* const control[] = { "C13", "C14", "C15" };
        if (k >= 4) return w::control_scenario(control[sim::choose(3, "control")]);
        return w::cluster_scenario(prop);
    }
    if (prop == "C13" || prop == "C14" || prop == "C15")
    {
        // alternate between one node against a scripted group and the cluster
        if (sim::choose(3, "world") != 2) return w::control_scenario(prop);
    }
    w::cluster_scenario(prop);
}

static sim::run_config config(const std::string& prop)
{
    sim::run_config c;
    c.prop = prop;
    c.accept.insert("*");
    if (const char* a = getenv("SIM_ACCEPT")) c.accept.insert(a);      // debugging of foreign observations
    race::on = prop == "C23";
    const bool cluster = prop != "C18" && prop != "C20" && prop != "C22";
    if (cluster)
    {
        const char* all[] = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17", "C19", "C21" };
        for (auto a : all) c.accept.insert(a);
        if (prop == "C13" || prop == "C14" || prop == "C15") { c.accept.insert("C13"); c.accept.insert("C14"); c.accept.insert("C15"); }
    }
    c.max_steps = 600000;
    return c;
}

// A run counts as non-trivial for a property when it reached the mechanism the
// property is about.
static bool nontrivial_run(const std::string& prop, const std::map<std::string, uint64_t>& pr)
{
    static const std::map<std::string, std::vector<const char*>> m =
    {
        { "C01", { "cert-failed", "sr-commit", "rollback-event", "node-crash", "replay", "client-deadlock" } },
        { "C02", { "cert-failed", "client-deadlock", "sr-commit", "toi-executed" } },
        { "C03", { "bf-certifying", "bf-idle", "bf-committing", "bf-streaming-applier", "bf-preparing", "client-deadlock" } },
        { "C04", { "must-replay" } },
        { "C05", { "fragment" } },
        { "C06", { "fragment" } },
        { "C07", { "rollback-event", "rollback-event-failed" } },
        { "C08", { "orphan-discarded", "nonprim-view", "node-crash", "disconnect" } },
        { "C09", { "recovered-sr", "node-crash", "disconnect" } },
        { "C10", { "xa" } },
        { "C11", { "toi-executed", "toi-failed" } },
        { "C12", { "nbo", "nbo-phase-two-failed" } },
        { "C13", { "paused", "rsu", "control" } },
        { "C14", { "control", "nonprim-view", "disconnect", "node-crash" } },
        { "C15", { "control", "sst", "ist", "sst-failed" } },
        { "C16", { "client-deadlock", "toi-failed", "cert-failed" } },
        { "C17", { "background-rollback", "async-rollback" } },
        { "C18", { "report" } },
        { "C19", { "causal-read", "causal-read-failed", "toi-executed", "sr-commit" } },
        { "C20", { "option" } },
        { "C21", { "vote", "apply-error" } },
        { "C22", { "upcall", "downcall" } },
        { "C23", { "client-deadlock", "bf-idle", "bf-certifying", "bf-streaming-applier", "orphan-discarded", "background-rollback", "disconnect", "control", "report" } },
    };
    auto i = m.find(prop);
    if (i == m.end()) return !pr.empty();
    for (auto k : i->second) if (pr.count(k)) return true;
    return false;
}

static volatile sig_atomic_t stop_requested = 0;
static void on_term(int) { stop_requested = 1; }

static std::string esc(const std::string& s)
{
    std::string r;
    for (char ch : s) { if (ch == '\n') r += "\\n"; else r += ch; }
    return r;
}

struct Replay
{
    std::string prop, kind, tags, detail;
    uint64_t seed = 0, hash = 0;
    uint64_t pre = 0, stride = 1;      // runs executed before in the same process
    std::vector<uint16_t> dec;
};
static bool load(const std::string& f, Replay& r)
{
    std::ifstream is(f);
    if (!is) return false;
    std::string line;
    while (std::getline(is, line))
    {
        if (line == "--- trace") break;
        size_t p = line.find('=');
        if (p == std::string::npos) continue;
        std::string k = line.substr(0, p), v = line.substr(p + 1);
        if (k == "property") r.prop = v;
        else if (k == "kind") r.kind = v;
        else if (k == "tags") r.tags = v;
        else if (k == "detail") r.detail = v;
        else if (k == "pre") r.pre = strtoull(v.c_str(), 0, 10);
        else if (k == "stride") r.stride = strtoull(v.c_str(), 0, 10);
        else if (k == "seed") r.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "hash") r.hash = strtoull(v.c_str(), 0, 16);
        else if (k == "decisions")
        {
            // zero runs are written as zN
            std::istringstream ds(v);
            std::string t;
            while (ds >> t)
            {
                if (t[0] == 'z') r.dec.insert(r.dec.end(), size_t(atoi(t.c_str() + 1)), 0);
                else r.dec.push_back(uint16_t(atoi(t.c_str())));
            }
        }
    }
    return true;
}
static void save(const std::string& f, const Replay& r, const std::string& trace)
{
    std::ofstream os(f);
    os << "property=" << r.prop << "\nkind=" << r.kind << "\ntags=" << r.tags << "\ndetail=" << esc(r.detail)
       << "\nseed=" << r.seed << "\npre=" << r.pre << "\nstride=" << r.stride << "\nhash=" << std::hex << r.hash << std::dec << "\ndecisions=";
    for (size_t i = 0; i < r.dec.size();)
    {
        if (r.dec[i]) { os << r.dec[i] << ' '; ++i; continue; }
        size_t j = i;
        while (j < r.dec.size() && !r.dec[j]) ++j;
        os << 'z' << (j - i) << ' ';
        i = j;
    }
    os << "\n";
    if (trace.size()) os << "--- trace\n" << trace;
}

static sim::run_result go(const std::string& prop, uint64_t seed, const std::vector<uint16_t>* dec, bool trace, const std::string& dump)
{
    sim::run_config c = config(prop);
    c.seed = seed;
    c.replay = dec;
    c.trace = trace;
    c.dump_file = dump;
    alarm(60);
    sim::run_result r = sim::run(c, [prop] { scenario(prop); });
    alarm(0);
    return r;
}

// One run in a child process. Returns verdict of the run, crash included.
struct Verdict { bool violated = false; std::string kind, tags, detail; uint64_t hash = 0; std::vector<uint16_t> dec; std::string trace; };
static void put(int fd, const void* p, size_t n)
{ const char* c = static_cast<const char*>(p); while (n) { ssize_t r = write(fd, c, n); if (r <= 0) { if (errno == EINTR) continue; _exit(4); } c += r; n -= size_t(r); } }
static void puts_(int fd, const std::string& s) { uint64_t n = s.size(); put(fd, &n, 8); put(fd, s.data(), s.size()); }
static Verdict isolated(const std::string& prop, uint64_t seed, const std::vector<uint16_t>* dec, bool trace, const std::string& tmp,
                        uint64_t pre = 0, uint64_t stride = 1)
{
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    const std::string dump = tmp + ".dump";
    unlink(dump.c_str());
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        sim::install_crash_handler();
        for (uint64_t i = pre; i > 0; --i) go(prop, seed - i * stride, 0, false, dump);
        sim::run_result r = go(prop, seed, dec, trace, dump);
        char v = r.violated ? 1 : 0;
        put(p[1], &v, 1);
        put(p[1], &r.log_hash, 8);
        puts_(p[1], r.kind); puts_(p[1], r.tags); puts_(p[1], r.detail);
        puts_(p[1], std::string(reinterpret_cast<const char*>(r.decisions.data()), r.decisions.size() * 2));
        puts_(p[1], r.trace);
        _exit(0);
    }
    close(p[1]);
    std::string buf;
    char b[65536];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) buf.append(b, size_t(n));
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Verdict v;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && buf.size() > 9)
    {
        size_t o = 0;
        v.violated = buf[o++];
        memcpy(&v.hash, &buf[o], 8); o += 8;
        auto gets_ = [&] { uint64_t k; memcpy(&k, &buf[o], 8); o += 8; std::string s = buf.substr(o, k); o += k; return s; };
        v.kind = gets_(); v.tags = gets_(); v.detail = gets_();
        std::string d = gets_();
        v.dec.resize(d.size() / 2);
        if (d.size()) memcpy(v.dec.data(), d.data(), d.size());
        v.trace = gets_();
    }
    else
    {
        v.violated = true;
        v.tags = "*";
        int sig = WIFEXITED(st) ? WEXITSTATUS(st) - 100 : WTERMSIG(st);
        v.kind = sig == SIGALRM ? "hang" : "crash";
        v.detail = std::string("process died with ") + (sig > 0 ? strsignal(sig) : "exit");
        std::ifstream is(dump, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        v.dec.resize(d.size() / 2);
        if (d.size()) memcpy(v.dec.data(), d.data(), d.size() / 2 * 2);
        v.hash = sim::hash_str(v.kind + v.detail) ^ v.dec.size();
    }
    unlink(dump.c_str());
    return v;
}

static int explore(const std::string& prop, uint64_t seed0, uint64_t stride, double secs, uint64_t max_runs, const std::string& out)
{
    const double t0 = wall();
    std::map<std::string, uint64_t> probes, faults, foreign;
    std::unordered_set<uint64_t> sched, ntsched, states;
    signal(SIGTERM, on_term);
    uint64_t runs = 0, steps = 0, simtime = 0, switches = 0, decisions = 0, nviol = 0, faulty_runs = 0, nontrivial = 0;
    uint64_t seed = seed0;
    std::vector<std::string> viols;
    std::set<std::string> kinds;
    const uint64_t batch = 25;
    while (wall() - t0 < secs && runs < max_runs && nviol < 20 && !stop_requested)
    {
        int p[2];
        if (pipe(p)) { perror("pipe"); return 3; }
        const std::string dump = out + ".dump";
        unlink(dump.c_str());
        fflush(0);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            signal(SIGTERM, SIG_DFL);
            sim::install_crash_handler();
            for (uint64_t i = 0; i < batch && wall() - t0 < secs; ++i)
            {
                const uint64_t s = seed + i * stride;
                std::ostringstream a;
                a << "S " << s << "\n";
                put(p[1], a.str().data(), a.str().size());
                sim::run_result r = go(prop, s, 0, false, dump);
                std::ostringstream os;
                bool nt = nontrivial_run(prop, r.probes);
                os << "R " << r.violated << ' ' << r.steps << ' ' << r.sim_time << ' ' << r.switches << ' ' << r.decisions.size()
                   << ' ' << r.sched_hash << ' ' << (!r.faults.empty()) << ' ' << nt << "\n";
                for (auto& x : r.probes) os << "P " << x.second << ' ' << x.first << "\n";
                for (auto& x : r.faults) os << "F " << x.second << ' ' << x.first << "\n";
                for (auto& x : r.foreign) os << "X " << x.second << ' ' << x.first << "\n";
                std::sort(r.states.begin(), r.states.end());
                r.states.erase(std::unique(r.states.begin(), r.states.end()), r.states.end());
                for (auto& x : r.states) os << "T " << x << "\n";
                if (r.violated)
                {
                    Replay rp;
                    rp.prop = prop; rp.kind = r.kind; rp.tags = r.tags; rp.detail = r.detail; rp.seed = s; rp.hash = r.log_hash; rp.pre = i; rp.stride = stride;
                    rp.dec = r.decisions;
                    const std::string f = out + "." + std::to_string(s) + ".raw";
                    save(f, rp, "");
                    os << "V " << f << "\n";
                }
                os << "E\n";
                put(p[1], os.str().data(), os.str().size());
                if (r.violated) _exit(0);
            }
            _exit(0);
        }
        close(p[1]);
        FILE* in = fdopen(p[0], "r");
        char* line = 0; size_t cap = 0;
        uint64_t inprog = 0; bool open_run = false; uint64_t done = 0;
        while (getline(&line, &cap, in) > 0)
        {
            std::string l(line);
            if (!l.empty() && l.back() == '\n') l.pop_back();
            std::istringstream is(l.substr(1));
            switch (l[0])
            {
            case 'S': is >> inprog; open_run = true; break;
            case 'R':
            {
                uint64_t v, s, t, sw, d, h, f, nt;
                is >> v >> s >> t >> sw >> d >> h >> f >> nt;
                ++runs; ++done; steps += s; simtime += t; switches += sw; decisions += d; sched.insert(h); if (nt) ntsched.insert(h); faulty_runs += f; nontrivial += nt;
                break;
            }
            case 'P': { uint64_t c; std::string k; is >> c; std::getline(is, k); probes[k.substr(1)] += c; break; }
            case 'F': { uint64_t c; std::string k; is >> c; std::getline(is, k); faults[k.substr(1)] += c; break; }
            case 'X': { uint64_t c; is >> c; std::string k; std::getline(is, k); foreign[k.substr(1)] += c; break; }
            case 'T': { uint64_t h; is >> h; if (states.size() < 4000000) states.insert(h); break; }
            case 'V': { std::string f; is >> f; viols.push_back(f); ++nviol; break; }
            case 'E': open_run = false; break;
            }
        }
        free(line);
        fclose(in);
        int st = 0;
        waitpid(pid, &st, 0);
        if (open_run)
        {
            // died inside a run
            ++runs; ++done; ++nviol;
            Replay rp;
            int sig = WIFEXITED(st) ? WEXITSTATUS(st) - 100 : WTERMSIG(st);
            rp.prop = prop; rp.kind = sig == SIGALRM ? "hang" : "crash"; rp.tags = "*";
            rp.detail = std::string("process died with ") + (sig > 0 ? strsignal(sig) : "exit");
            rp.seed = inprog; rp.pre = (inprog - seed) / stride; rp.stride = stride;
            std::ifstream is(dump, std::ios::binary);
            std::string d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
            rp.dec.resize(d.size() / 2);
            if (d.size()) memcpy(rp.dec.data(), d.data(), d.size() / 2 * 2);
            rp.hash = sim::hash_str(rp.kind + rp.detail) ^ rp.dec.size();
            const std::string f = out + "." + std::to_string(inprog) + ".raw";
            save(f, rp, "");
            viols.push_back(f);
            unlink(dump.c_str());
        }
        seed += std::max<uint64_t>(done, 1) * stride;
    }
    std::ofstream os(out);
    os << "{\"runs\":" << runs << ",\"faulty_runs\":" << faulty_runs << ",\"steps\":" << steps << ",\"sim_us\":" << simtime
       << ",\"nontrivial\":" << nontrivial << ",\"switches\":" << switches << ",\"decisions\":" << decisions << ",\"wall\":" << (wall() - t0)
       << ",\"last_seed\":" << seed;
    auto dump_map = [&](const char* n, const std::map<std::string, uint64_t>& m)
    {
        os << ",\"" << n << "\":{";
        bool first = true;
        for (auto& x : m) { os << (first ? "" : ",") << "\"" << x.first << "\":" << x.second; first = false; }
        os << "}";
    };
    dump_map("probes", probes); dump_map("faults", faults); dump_map("foreign", foreign);
    os << ",\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) os << (i ? "," : "") << "\"" << viols[i] << "\"";
    os << "]}\n";
    os.close();
    std::ofstream hs(out + ".hashes", std::ios::binary);
    for (uint64_t h : sched) { char t = 0; hs.write(&t, 1); hs.write(reinterpret_cast<const char*>(&h), 8); }
    for (uint64_t h : ntsched) { char t = 2; hs.write(&t, 1); hs.write(reinterpret_cast<const char*>(&h), 8); }
    for (uint64_t h : states) { char t = 1; hs.write(&t, 1); hs.write(reinterpret_cast<const char*>(&h), 8); }
    return 0;
}

static std::string site(const std::string& kind, const std::string& detail)
{
    // what identifies a failure: oracle, and for assertions the expression
    if (kind != "assertion") return kind;
    return kind + " " + detail;
}

static int shrink(const std::string& in, const std::string& out, double secs)
{
    Replay r;
    if (!load(in, r)) return 3;
    const double end = wall() + secs;
    const std::string want = site(r.kind, r.detail);
    const std::string tmp = out + ".tmp";
    auto fails = [&](const std::vector<uint16_t>& d, Verdict& v)
    { v = isolated(r.prop, r.seed, &d, false, tmp); return v.violated && site(v.kind, v.detail) == want; };
    std::vector<uint16_t> best = r.dec;
    Verdict v;
    if (!fails(best, v)) { fprintf(stderr, "shrink: not reproduced (%d %s)\n", v.violated, v.kind.c_str()); return 2; }
    auto trim = [](std::vector<uint16_t> d) { while (!d.empty() && !d.back()) d.pop_back(); return d; };
    best = trim(v.dec.size() && v.dec.size() <= best.size() ? v.dec : best);
    auto attempt = [&](std::vector<uint16_t> d)
    {
        Verdict x;
        if (wall() > end) return false;
        d = trim(d);
        if (!fails(d, x)) return false;
        best = d;
        return true;
    };
    bool progress = true;
    while (progress && wall() < end)
    {
        progress = false;
        // zero blocks
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && wall() < end; len /= 2)
        {
            for (size_t i = 0; i < best.size() && wall() < end; i += len)
            {
                size_t e = std::min(best.size(), i + len);
                bool any = false;
                for (size_t k = i; k < e; ++k) any = any || best[k];
                if (!any) continue;
                std::vector<uint16_t> d = best;
                std::fill(d.begin() + long(i), d.begin() + long(e), 0);
                if (attempt(d)) progress = true;
            }
            if (len == 1) break;
        }
        // delete blocks
        for (size_t len = std::max<size_t>(best.size() / 4, 1); len >= 8 && wall() < end; len /= 2)
            for (size_t i = 0; i + len <= best.size() && wall() < end;)
            {
                std::vector<uint16_t> d = best;
                d.erase(d.begin() + long(i), d.begin() + long(i + len));
                if (attempt(d)) progress = true; else i += len;
            }
        // smaller values
        for (size_t i = 0; i < best.size() && wall() < end; ++i)
            if (best[i] > 1)
            {
                std::vector<uint16_t> d = best;
                d[i] = 1;
                if (attempt(d)) { progress = true; continue; }
                d = best; d[i] = uint16_t(best[i] / 2);
                if (attempt(d)) progress = true;
            }
    }
    // final: exact decisions and trace
    v = isolated(r.prop, r.seed, &best, true, tmp);
    Replay o = r;
    o.pre = 0;
    o.dec = best; o.kind = v.kind; o.tags = v.tags; o.detail = v.detail; o.hash = v.hash;
    save(out, o, v.trace);
    unlink(tmp.c_str());
    size_t nz = 0;
    for (auto x : best) if (x) ++nz;
    printf("shrunk to %zu decisions, %zu non-default\n", best.size(), nz);
    return 0;
}

static void quiet_log(wsrep::log::level, const char*, const char*) { }

int main(int argc, char** argv)
{
    if (!getenv("SIM_REEXEC"))
    {
        // same address space layout in every process, where permitted
        setenv("SIM_REEXEC", "1", 1);
        setenv("MALLOC_PERTURB_", "165", 0);
        setenv("MALLOC_ARENA_MAX", "1", 0);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    struct rlimit rl = { 6ull << 30, 6ull << 30 };
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("SIM_LOG")) { wsrep::log::logger_fn(quiet_log); std::cerr.rdbuf(0); }
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.size() >= 6 && a[0] == "explore")
        return explore(a[1], strtoull(a[2].c_str(), 0, 10), strtoull(a[3].c_str(), 0, 10), atof(a[4].c_str()),
                       strtoull(a[5].c_str(), 0, 10), a[6]);
    if (a.size() >= 2 && a[0] == "replay")
    {
        Replay r;
        if (!load(a[1], r)) { fprintf(stderr, "cannot read %s\n", a[1].c_str()); return 3; }
        const bool trace = a.size() > 2 && a[2] == "--trace";
        const bool nopre = a.back() == "--no-pre";
        Verdict v = isolated(r.prop, r.seed, &r.dec, trace, a[1] + ".run" + std::to_string(getpid()), nopre ? 0 : r.pre, r.stride);
        if (trace) fputs(v.trace.c_str(), stdout);
        printf("hash=%llx violated=%d tags=%s kind=%s detail=%s\n", (unsigned long long)v.hash, v.violated, v.tags.c_str(), v.kind.c_str(), esc(v.detail).c_str());
        return v.violated ? 1 : 0;
    }
    if (a.size() >= 4 && a[0] == "shrink") return shrink(a[1], a[2], atof(a[3].c_str()));
    if (a.size() >= 3 && a[0] == "seed")
    {
        const bool trace = a.size() > 3 && a[3] == "--trace";
        const bool raw = a.size() > 3 && a[3] == "--raw";
        const uint64_t s = strtoull(a[2].c_str(), 0, 10);
        if (raw) { sim::run_result r = go(a[1], s, 0, true, ""); fputs(r.trace.c_str(), stdout); printf("%s %s\n", r.kind.c_str(), r.detail.c_str()); return 0; }
        Verdict v = isolated(a[1], s, 0, trace, "/tmp/simseed." + std::to_string(getpid()));
        if (trace) fputs(v.trace.c_str(), stdout);
        printf("hash=%llx violated=%d tags=%s kind=%s decisions=%zu detail=%s\n", (unsigned long long)v.hash, v.violated, v.tags.c_str(), v.kind.c_str(), v.dec.size(), esc(v.detail).c_str());
        return v.violated ? 1 : 0;
    }
    fprintf(stderr, "usage\n");
    return 3;
}
