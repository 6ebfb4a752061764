// Process-level exploration engine: jobs are handed to forked workers, every execution is
// announced in shared memory before it runs, so that a crash or a hang of the code under test
// is attributed to the exact history; every finding is replayed in a fresh process before it
// is reported.
#pragma once
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vf {

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull) {
    const uint8_t *b = (const uint8_t *) p;
    while (n >= 8) {
        uint64_t v; memcpy(&v, b, 8);
        h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; b += 8; n -= 8;
    }
    uint64_t v = 0; memcpy(&v, b, n); h = (h ^ v ^ (uint64_t(n) << 56)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    return h;
}

static constexpr int MAXW = 16;
static constexpr size_t DESC = 1 << 19;     // longest textual history

struct Shm {
    std::atomic<uint64_t> next_job;
    std::atomic<uint64_t> execs, states, transitions, queries, traces, jobs_done, pruned, truncated;
    std::atomic<uint64_t> outcomes[32];
    std::atomic<int> stop;
    struct W {
        std::atomic<uint64_t> seq;          // bumped at every execution
        std::atomic<int64_t> job;           // job in progress, -1 idle
        std::atomic<uint32_t> len;
        char desc[DESC];                    // history being executed
        std::atomic<int> failed;            // a property failure was found by the oracle
        char why[4096];
    } w[MAXW];
};
inline Shm *shm = nullptr;
inline int wid = 0;

inline void announce(const std::string &d) {
    auto &w = shm->w[wid];
    const size_t n = std::min(d.size(), DESC - 1);
    memcpy(w.desc, d.data(), n);
    w.desc[n] = 0;
    w.len.store(n, std::memory_order_relaxed);
    w.seq.fetch_add(1, std::memory_order_relaxed);
}

// thrown by oracles
struct Fail { std::string why; };
inline std::string strf(const char *f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
// Keys as text: hexadecimal, runs of 32 and more equal bytes as (byte*count)
inline std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef"; std::string r;
    for (size_t i = 0; i < s.size();) {
        const unsigned char c = s[i]; size_t n = 1;
        while (i + n < s.size() && s[i + n] == s[i]) n++;
        if (n >= 32) { r += '('; r += d[c >> 4]; r += d[c & 15]; r += "*" + std::to_string(n) + ")"; i += n; }
        else { r += d[c >> 4]; r += d[c & 15]; i++; }
    }
    return r;
}
inline std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size();) {
        if (s[i] == '(') {
            const char c = (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); char *end;
            r += std::string(strtoul(s.c_str() + i + 4, &end, 10), c); i = end - s.c_str() + 1;
        } else { r += (char) strtol(s.substr(i, 2).c_str(), 0, 16); i += 2; }
    }
    return r;
}

struct Job { std::string name; std::function<void()> run; };

struct Finding { std::string desc, why; };

struct Options {
    std::string prop = "C01", tier = "quick", replay, outdir = "/verif/evidence", known = "/verif/known_findings.txt";
    uint64_t seed = 1; int workers = 8; double budget = 1e9; double hang = 20; bool list = false; std::string only;
};
inline Options opt;
inline double t_start = now();

inline void parse_args(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") opt.prop = nx(); else if (a == "--tier") opt.tier = nx();
        else if (a == "--replay") opt.replay = nx(); else if (a == "--outdir") opt.outdir = nx();
        else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") opt.workers = atoi(nx().c_str());
        else if (a == "--hang") opt.hang = atof(nx().c_str());
        else if (a == "--budget") opt.budget = atof(nx().c_str());
        else if (a == "--known") opt.known = nx();
        else if (a == "--only") opt.only = nx();
        else if (a == "--list") opt.list = true;
    }
    if (opt.workers > MAXW) opt.workers = MAXW;
}

inline std::string json_escape(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// replay(desc) must execute the history and throw Fail if the property is broken.
using Replayer = std::function<void(const std::string &)>;

// Processor time of a child, so that a loaded or suspended machine is not mistaken for code that does not terminate.
inline double cpu_of(pid_t p) {
    clockid_t c; timespec t;
    if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return now();
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// Runs fn in a child with a limit on its processor time (since it last made progress, if `seq` counts that).
// Returns "" if it ended well or was still making progress when the patience ran out, otherwise what happened.
inline std::string isolated(const std::function<void()> &fn, double limit, const volatile uint64_t *seq = nullptr) {
    int p[2]; if (pipe(p)) return "";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int dn = open("/dev/null", O_WRONLY);
        if (!getenv("VF_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
        std::string why;
        try { fn(); } catch (Fail &f) { why = f.why.empty() ? "failed" : f.why; }
        catch (std::exception &e) { why = std::string("exception: ") + e.what(); }
        if (!why.empty()) { ssize_t r = write(p[1], why.data(), why.size()); (void) r; _exit(3); }
        if (getenv("VF_RUN_ATEXIT")) exit(0);
        _exit(0);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    std::string msg; double t0 = now(), c0 = 0; int st = 0; bool hung = false, enough = false; uint64_t sq = seq ? *seq : 0;
    for (;;) {
        char b[4096]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) msg.append(b, n);
        if (waitpid(pid, &st, WNOHANG) == pid) break;
        if (seq && *seq != sq) { sq = *seq; c0 = cpu_of(pid); }
        if (seq && now() - t0 > 60 && cpu_of(pid) - c0 < limit / 2) enough = true;
        if (cpu_of(pid) - c0 > limit || now() - t0 > 10 * limit + 60) hung = true;
        if (hung || enough) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(2000);
    }
    { char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) msg.append(b, n); }
    close(p[0]);
    if (enough) return "";
    if (hung) return strf("does not terminate (%.0f s)", limit);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (!msg.empty()) return msg;
    if (WIFSIGNALED(st)) return strf("crashes with signal %d", WTERMSIG(st));
    return strf("exits abnormally with status %d (sanitizer report)", WEXITSTATUS(st));
}

inline std::vector<std::string> extra_samples;

struct Result { std::vector<Finding> findings; std::vector<std::string> unreproduced; bool complete = true; };

inline Result run_jobs(const std::vector<Job> &jobs, const Replayer &replay, double per_replay_limit = 15) {
    Result res;
    const int nw = std::max(1, opt.workers);
    std::vector<pid_t> pid(nw, 0);
    std::vector<uint64_t> lastseq(nw, 0); std::vector<double> lastt(nw, now()), lastc(nw, 0);
    auto spawn = [&](int i) {
        fflush(stdout); fflush(stderr);
        shm->w[i].failed = 0; shm->w[i].job = -1;
        pid_t p = fork();
        if (p == 0) {
            wid = i;
            if (!getenv("VF_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
            for (;;) {
                if (shm->stop) _exit(0);
                uint64_t j = shm->next_job.fetch_add(1);
                if (j >= jobs.size()) _exit(0);
                shm->w[i].job = (int64_t) j;
                try { jobs[j].run(); }
                catch (Fail &f) {
                    snprintf(shm->w[i].why, sizeof shm->w[i].why, "%s", f.why.c_str());
                    shm->w[i].failed = 1; _exit(3);
                } catch (std::exception &e) {
                    snprintf(shm->w[i].why, sizeof shm->w[i].why, "exception: %s", e.what());
                    shm->w[i].failed = 1; _exit(3);
                }
                shm->w[i].job = -1;
                shm->jobs_done++;
            }
        }
        pid[i] = p; lastseq[i] = shm->w[i].seq; lastt[i] = now(); lastc[i] = 0;
    };
    for (int i = 0; i < nw; i++) spawn(i);
    int live = nw;
    while (live > 0) {
        usleep(5000);
        if (now() - t_start > opt.budget) {         // out of time: what was explored counts, and is reported as incomplete
            for (int i = 0; i < nw; i++) if (pid[i]) { kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); }
            res.complete = false; break;
        }
        for (int i = 0; i < nw; i++) {
            if (!pid[i]) continue;
            int st; bool bad = false; std::string how;
            if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[i] = 0; live--; continue; }
                bad = true;
                if (shm->w[i].failed) how = shm->w[i].why;
                else if (WIFSIGNALED(st)) how = strf("crash, signal %d", WTERMSIG(st));
                else how = strf("abnormal exit, status %d", WEXITSTATUS(st));
            } else {
                uint64_t s = shm->w[i].seq;
                if (s != lastseq[i]) { lastseq[i] = s; lastt[i] = now(); lastc[i] = -1; }
                else if (lastc[i] < 0) lastc[i] = cpu_of(pid[i]);
                else if (shm->w[i].job >= 0 && now() - lastt[i] > opt.hang && (cpu_of(pid[i]) - lastc[i] > opt.hang || now() - lastt[i] > 10 * opt.hang)) {
                    kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); bad = true; how = "hang";
                }
            }
            if (bad) {
                int64_t j = shm->w[i].job;
                std::string d(shm->w[i].desc);
                pid[i] = 0; live--;
                std::string why = isolated([&] { replay(d); }, per_replay_limit);
                if (!why.empty()) res.findings.push_back({d, why});
                else {
                    // not reproduced alone: the whole job may be needed
                    std::string wj;
                    for (int t = 0; j >= 0 && t < 3 && wj.empty(); t++) wj = isolated([&] { wid = i; jobs[j].run(); }, 2 * opt.hang, (volatile uint64_t *) &shm->w[i].seq);
                    if (!wj.empty()) res.findings.push_back({"job " + jobs[j].name + "\nlast-history " + d, wj + " (needs the whole job; first seen as: " + how + ")"});
                    else res.unreproduced.push_back(how + ": " + d);
                }
                if (res.findings.size() >= 6 || (!res.findings.empty() && (res.findings.back().why.compare(0, 18, "does not terminate") == 0 || now() - t_start > 240))) shm->stop = 1;
                if (!shm->stop) { spawn(i); live++; }
                else {      // enough is known
                    res.complete = false;
                    for (int k = 0; k < nw; k++) if (pid[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); pid[k] = 0; }
                    live = 0; break;
                }
            }
        }
    }
    return res;
}

inline void init_shm() {
    // the index library installs handlers that wait for a debugger; crashes must be crashes here
    for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) signal(s, SIG_DFL);
    shm = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

// A finding is "known" when the known-findings file has a line
//   known: property=<id> history=<exact text of the history with newlines as ' | '>  # description
inline std::map<std::string, std::string> load_known(const std::string &prop) {
    std::map<std::string, std::string> r;
    std::ifstream f(opt.known); std::string l;
    while (std::getline(f, l)) {
        const std::string pre = "known: property=" + prop + " history=";
        if (l.compare(0, pre.size(), pre) == 0) {
            std::string rest = l.substr(pre.size()), what;
            size_t p = rest.find("  # "); if (p != std::string::npos) { what = rest.substr(p + 4); rest = rest.substr(0, p); }
            r[rest] = what;
        }
    }
    return r;
}
inline std::string oneline(const std::string &s) {
    std::string r; for (char c : s) { if (c == '\n') r += " | "; else r += c; } return r;
}

inline int report(const Result &res, const std::vector<std::string> &samples, const std::string &bounds,
                  const std::string &assumptions, const std::string &level = "model_checking",
                  const std::string &extra_json = "") {
    auto known = load_known(opt.prop);
    int viol = 0; std::vector<std::string> vlines;
    mkdir(opt.outdir.c_str(), 0777);
    for (size_t i = 0; i < res.findings.size(); i++) {
        auto it = known.find(oneline(res.findings[i].desc));
        if (it != known.end()) { printf("KNOWN-FINDING: property=%s %s\n", opt.prop.c_str(), it->second.c_str()); continue; }
        const std::string path = opt.outdir + "/" + opt.prop + ".violation." + std::to_string(viol) + ".txt";
        std::ofstream o(path); o << res.findings[i].desc << "\n# " << oneline(res.findings[i].why) << "\n"; o.close();
        printf("%s\n  %s\n", oneline(res.findings[i].desc).substr(0, 2000).c_str(), oneline(res.findings[i].why).c_str());
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), path.c_str());
        vlines.push_back(path); viol++;
    }
    std::ofstream e(opt.outdir + "/" + opt.prop + ".json");
    e << "{\n \"property\": \"" << opt.prop << "\",\n \"tier\": \"" << opt.tier << "\",\n \"seed\": " << opt.seed
      << ",\n \"level\": \"" << level << "\",\n \"coverage\": {\n  \"states\": " << shm->states.load()
      << ",\n  \"transitions\": " << shm->transitions.load()
      << ",\n  \"traces_validated_against_impl\": " << shm->traces.load()
      << ",\n  \"executions\": " << shm->execs.load() << ",\n  \"queries_checked\": " << shm->queries.load()
      << ",\n  \"revisits_pruned\": " << shm->pruned.load() << ",\n  \"jobs\": " << shm->jobs_done.load()
      << ",\n  \"exhaustive\": " << (res.complete && res.unreproduced.empty() && !shm->truncated ? "true" : "false")
      << ",\n  \"bounds\": \"" << json_escape(bounds) << "\",\n  \"outcomes\": [";
    for (int i = 0; i < 32; i++) e << (i ? "," : "") << shm->outcomes[i].load();
    e << "],\n  \"samples\": [";
    bool first = true;
    for (auto &s : samples) { e << (first ? "" : ",") << "\n   \"" << json_escape(s) << "\""; first = false; }
    e << "\n  ]" << extra_json << "\n },\n \"wall_s\": " << strf("%.2f", now() - t_start)
      << ",\n \"assumptions\": [\"" << json_escape(assumptions) << "\"],\n \"unreproduced\": " << res.unreproduced.size()
      << ",\n \"violations\": " << viol << "\n}\n";
    e.close();
    printf("%s %s: executions=%lu states=%lu transitions=%lu pruned=%lu queries=%lu jobs=%lu violations=%d wall=%.1fs\n",
           opt.prop.c_str(), opt.tier.c_str(), (unsigned long) shm->execs, (unsigned long) shm->states,
           (unsigned long) shm->transitions, (unsigned long) shm->pruned, (unsigned long) shm->queries,
           (unsigned long) shm->jobs_done, viol, now() - t_start);
    for (auto &u : res.unreproduced) printf("note: not reproduced: %s\n", oneline(u).substr(0, 500).c_str());
    return viol ? 1 : 0;
}

} // namespace vf
