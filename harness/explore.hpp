// Bounded exhaustive explorer: enumerates every case of every family, on the
// real code, in forked workers; attributes crashes/hangs to a case; confirms
// every candidate violation by replaying it alone in a fresh process.
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace ex {

struct Failure { std::string msg; };

inline std::string vfmt(const char* f, va_list ap) {
    char buf[8192];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
[[noreturn]] inline void fail(const char* f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Failure{s};
}
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Slot {               // shared memory, one per worker
    std::atomic<uint64_t> fam, idx, end;     // current case and the end of its chunk
    std::atomic<int> resume;                 // continue the chunk after a failed case
    std::atomic<uint64_t> transitions, traces, cases, finished;
    std::atomic<double> started;
    char failmsg[4096];
    std::atomic<int> failed;
    char obs[256];
};
static const int MAXFAM = 512;
struct Shared {
    std::atomic<uint64_t> next[MAXFAM], done[MAXFAM];
    std::atomic<int> stop;
    Slot slot[64];
};

struct Ctx {
    Slot* s = nullptr;
    std::unordered_set<uint64_t> states;
    bool replay = false;
    bool thorough = false;
    void trans(uint64_t n = 1) { if (s) s->transitions.fetch_add(n, std::memory_order_relaxed); }
    void trace(uint64_t n = 1) { if (s) s->traces.fetch_add(n, std::memory_order_relaxed); }
    void state(uint64_t h) { if (states.size() < 6000000) states.insert(h); }
};

struct Family {
    std::string name;
    uint64_t count;
    std::function<void(Ctx&, uint64_t)> run;
    std::function<std::string(uint64_t)> desc;
    double case_timeout = 30;
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}

struct Viol { size_t fam; uint64_t idx; std::string kind, msg; bool confirmed; };

struct Options {
    bool thorough = false;
    int workers = 8;
    double budget = 600;
    std::string out, scratch = "/tmp";
    std::string known;      // comma separated "family:index" of listed findings
};

inline int run_one(std::vector<Family>& fams, size_t f, uint64_t i, bool thorough) {
    Ctx c; c.replay = true; c.thorough = thorough;
    try { fams[f].run(c, i); }
    catch (Failure& e) { fprintf(stderr, "FAIL %s:%llu %s\n", fams[f].name.c_str(), (unsigned long long)i, e.msg.c_str()); return 1; }
    return 0;
}

inline void worker_loop(std::vector<Family>& fams, Shared* sh, int w, const Options& o, double deadline) {
    Slot* s = &sh->slot[w];
    Ctx c; c.s = s; c.thorough = o.thorough;
    for (size_t f = 0; f < fams.size(); f++) {
        uint64_t chunk = fams[f].count / 4000 + 1; if (chunk > 256) chunk = 256;
        for (;;) {
            if (sh->stop.load()) goto out;
            uint64_t b, e;
            if (s->resume) { if (s->fam != f) break; b = s->idx + 1; e = s->end; s->resume = 0; }
            else {
                b = sh->next[f].fetch_add(chunk);
                if (b >= fams[f].count) break;
                e = b + chunk < fams[f].count ? b + chunk : fams[f].count;
            }
            s->end = e;
            for (uint64_t i = b; i < e; i++) {
                if (sh->stop.load()) goto out;
                s->fam = f; s->idx = i; s->started = now();
                try { fams[f].run(c, i); }
                catch (Failure& ff) {
                    snprintf(s->failmsg, sizeof s->failmsg, "%s", ff.msg.c_str());
                    s->failed = 1;
                    s->started = 0;
                    // the object under test may be in an undefined state: restart this worker
                    goto out;
                }
                s->cases.fetch_add(1, std::memory_order_relaxed);
                sh->done[f].fetch_add(1, std::memory_order_relaxed);
            }
            if (now() > deadline) { sh->stop = 2; goto out; }
        }
    }
    s->finished = 1;
out:
    s->started = 0;
    {
        std::string p = fmt("%s/states.%d.%d", o.scratch.c_str(), w, (int)getpid());
        FILE* fp = fopen(p.c_str(), "wb");
        if (fp) { for (uint64_t h : c.states) fwrite(&h, 8, 1, fp); fclose(fp); }
    }
    _exit(0);
}

inline std::string tail(const std::string& path, size_t max = 3000) {
    FILE* fp = fopen(path.c_str(), "rb"); if (!fp) return "";
    fseek(fp, 0, SEEK_END); long n = ftell(fp);
    long b = n > 200000 ? n - 200000 : 0; fseek(fp, b, SEEK_SET);
    std::string s((size_t)(n - b), 0); size_t r = fread(&s[0], 1, s.size(), fp); s.resize(r); fclose(fp);
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p == std::string::npos) p = s.find("Assertion");
    if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, max);
    return s.size() > max ? s.substr(s.size() - max) : s;
}

// replays one case in a fresh child; returns kind ("" if it passes) and message
inline std::string replay_child(std::vector<Family>& fams, size_t f, uint64_t i, const Options& o, std::string& msg) {
    std::string errp = o.scratch + "/replay.err";
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
        int nl = open("/dev/null", O_WRONLY); dup2(nl, 1);
        _exit(run_one(fams, f, i, o.thorough) ? 77 : 0);
    }
    double t0 = now(); int st; double lim = fams[f].case_timeout * 2;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > lim) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = fmt("no result after %.0f s", lim); return "hang"; }
        usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    msg = tail(errp);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return "mismatch";
    return WIFSIGNALED(st) ? fmt("crash(signal %d)", WTERMSIG(st)) : fmt("crash(exit %d)", WEXITSTATUS(st));
}

inline int explore(std::vector<Family> fams, const Options& o) {
    if (fams.size() > (size_t)MAXFAM) { fprintf(stderr, "too many families\n"); return 2; }
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof *sh);
    double t0 = now(), deadline = t0 + o.budget;
    std::set<std::pair<std::string, uint64_t>> known;
    { size_t p = 0; while (p < o.known.size()) { size_t q = o.known.find(',', p); if (q == std::string::npos) q = o.known.size();
        std::string e = o.known.substr(p, q - p); size_t c = e.rfind(':');
        if (c != std::string::npos) known.insert({e.substr(0, c), strtoull(e.c_str() + c + 1, 0, 10)}); p = q + 1; } }
    std::vector<pid_t> pid((size_t)o.workers, 0);
    std::vector<Viol> cand; std::vector<std::string> knownhit;
    std::vector<Viol> viol; int unconfirmed = 0;
    auto spawn = [&](int w) {
        sh->slot[w].failed = 0; sh->slot[w].started = 0; sh->slot[w].finished = 0;
        pid_t p = fork();
        if (p == 0) {
            std::string e = fmt("%s/worker.%d.err", o.scratch.c_str(), w);
            int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd);
            int nl = open("/dev/null", O_WRONLY); dup2(nl, 1); close(nl);
            worker_loop(fams, sh, w, o, deadline);
        }
        pid[(size_t)w] = p;
    };
    for (int w = 0; w < o.workers; w++) spawn(w);
    int live = o.workers;
    auto handle = [&](size_t f, uint64_t i, const std::string& kind, const std::string& m) {
        if (known.count({fams[f].name, i})) { knownhit.push_back(fams[f].name + ":" + std::to_string(i)); return; }
        std::string msg2; std::string k2;
        for (int t = 0; t < 3 && k2.empty(); t++) k2 = replay_child(fams, f, i, o, msg2);
        Viol v{f, i, k2.empty() ? kind : k2, k2.empty() ? m : msg2, !k2.empty()};
        if (k2.empty() && kind != "mismatch") { unconfirmed++; fprintf(stderr, "unconfirmed %s at %s:%llu: %s\n", kind.c_str(), fams[f].name.c_str(), (unsigned long long)i, m.c_str()); return; }
        viol.push_back(v);
        if (viol.size() >= 3 || v.kind == "hang") sh->stop = 1;
    };
    while (live > 0) {
        bool any = false;
        for (int w = 0; w < o.workers; w++) {
            if (!pid[(size_t)w]) continue;
            int st; pid_t r = waitpid(pid[(size_t)w], &st, WNOHANG);
            Slot& s = sh->slot[w];
            if (r == 0) {
                double b = s.started.load();
                if (b > 0 && now() - b > fams[s.fam].case_timeout) {
                    size_t f = s.fam; uint64_t i = s.idx;
                    kill(pid[(size_t)w], SIGKILL); waitpid(pid[(size_t)w], &st, 0);
                    handle(f, i, "hang", fmt("case ran longer than %.0f s", fams[f].case_timeout));
                    sh->done[f]++; s.resume = 1;
                    if (!sh->stop) spawn(w); else { pid[(size_t)w] = 0; live--; }
                }
                continue;
            }
            any = true;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                if (s.failed) {
                    size_t f = s.fam; uint64_t i = s.idx; std::string m = s.failmsg;
                    handle(f, i, "mismatch", m); sh->done[f]++; s.resume = 1;
                    if (!sh->stop) { spawn(w); continue; }
                }
                pid[(size_t)w] = 0; live--;
            } else {
                size_t f = s.fam; uint64_t i = s.idx;
                std::string m = tail(fmt("%s/worker.%d.err", o.scratch.c_str(), w));
                handle(f, i, WIFSIGNALED(st) ? fmt("crash(signal %d)", WTERMSIG(st)) : fmt("crash(exit %d)", WEXITSTATUS(st)), m);
                sh->done[f]++; s.resume = 1;
                if (!sh->stop) spawn(w); else { pid[(size_t)w] = 0; live--; }
            }
        }
        if (!any) usleep(3000);
        if (now() > deadline + 45 && sh->stop != 2) sh->stop = 2;
        if (now() > deadline + 75) { for (int w = 0; w < o.workers; w++) if (pid[(size_t)w]) { kill(pid[(size_t)w], SIGKILL); waitpid(pid[(size_t)w], nullptr, 0); pid[(size_t)w] = 0; live--; } }
    }
    // merge state hashes
    std::unordered_set<uint64_t> states;
    { std::string cmd = fmt("ls %s/states.* 2>/dev/null", o.scratch.c_str()); FILE* pp = popen(cmd.c_str(), "r"); char line[512];
      while (pp && fgets(line, sizeof line, pp)) { line[strcspn(line, "\n")] = 0; FILE* fp = fopen(line, "rb"); uint64_t h;
        if (fp) { while (fread(&h, 8, 1, fp) == 1) states.insert(h); fclose(fp); } unlink(line); } if (pp) pclose(pp); }
    uint64_t tr = 0, tc = 0, cs = 0;
    for (int w = 0; w < 64; w++) { tr += sh->slot[w].transitions; tc += sh->slot[w].traces; cs += sh->slot[w].cases; }
    bool complete = sh->stop != 2;
    std::string js = "{";
    js += fmt("\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"unconfirmed\":%d,\"wall_s\":%.3f,", (unsigned long long)cs, (unsigned long long)states.size(), (unsigned long long)tr, (unsigned long long)tc, unconfirmed, now() - t0);
    js += "\"families\":[";
    for (size_t f = 0; f < fams.size(); f++) {
        if (sh->done[f] < fams[f].count) complete = false;
        js += fmt("%s{\"name\":\"%s\",\"cases\":%llu,\"explored\":%llu}", f ? "," : "", jesc(fams[f].name).c_str(), (unsigned long long)fams[f].count, (unsigned long long)sh->done[f].load());
    }
    js += fmt("],\"complete\":%s,\"samples\":[", complete ? "true" : "false");
    bool first = true;
    for (size_t f = 0; f < fams.size(); f++) {
        if (!fams[f].count) continue;
        uint64_t i = fams[f].count / 2;
        js += fmt("%s\"%s\"", first ? "" : ",", jesc(fams[f].name + "#" + std::to_string(i) + ": " + fams[f].desc(i)).substr(0, 700).c_str()); first = false;
    }
    js += "],\"known_hit\":[";
    for (size_t k = 0; k < knownhit.size(); k++) js += fmt("%s\"%s\"", k ? "," : "", jesc(knownhit[k]).c_str());
    js += "],\"violations\":[";
    for (size_t k = 0; k < viol.size(); k++) {
        Viol& v = viol[k];
        js += fmt("%s{\"family\":\"%s\",\"index\":%llu,\"kind\":\"%s\",\"confirmed\":%s,", k ? "," : "", jesc(fams[v.fam].name).c_str(), (unsigned long long)v.idx, jesc(v.kind).c_str(), v.confirmed ? "true" : "false");
        js += "\"case\":\"" + jesc(fams[v.fam].desc(v.idx)) + "\",\"message\":\"" + jesc(v.msg) + "\"}";
    }
    js += "]}\n";
    if (!o.out.empty()) { FILE* fp = fopen(o.out.c_str(), "w"); fputs(js.c_str(), fp); fclose(fp); }
    else fputs(js.c_str(), stdout);
    return viol.empty() ? 0 : 1;
}

// usage: explorer [--thorough] [--out f] [--scratch d] [--budget s] [--workers n] [--known a:b,c:d] [--replay fam:idx] [--list]
inline int main_(int argc, char** argv, std::function<std::vector<Family>(bool)> mk) {
    Options o; std::string rep; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") o.thorough = true;
        else if (a == "--out") o.out = argv[++i];
        else if (a == "--scratch") o.scratch = argv[++i];
        else if (a == "--budget") o.budget = atof(argv[++i]);
        else if (a == "--workers") o.workers = atoi(argv[++i]);
        else if (a == "--known") o.known = argv[++i];
        else if (a == "--replay") rep = argv[++i];
        else if (a == "--list") list = true;
    }
    std::vector<Family> fams = mk(o.thorough);
    if (list) { for (auto& f : fams) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.count); return 0; }
    if (!rep.empty()) {
        size_t c = rep.rfind(':'); std::string n = rep.substr(0, c); uint64_t i = strtoull(rep.c_str() + c + 1, 0, 10);
        for (size_t f = 0; f < fams.size(); f++) if (fams[f].name == n) {
            printf("case %s\n", fams[f].desc(i).c_str()); fflush(stdout);
            int r = run_one(fams, f, i, o.thorough); printf(r ? "VIOLATES\n" : "holds\n"); return r; }
        fprintf(stderr, "no such family\n"); return 2;
    }
    return explore(std::move(fams), o);
}

} // namespace ex
