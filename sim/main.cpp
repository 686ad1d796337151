// Runner: forks one process per run (fresh process-wide state, crashes contained), searches, minimises, replays.
#include "hot.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim { extern int clock_virtual; void sched_begin(); }
#ifdef SIM_ASAN
extern "C" const char* __asan_get_report_description();
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
extern "C" void __sanitizer_set_death_callback(void (*)());
static void on_asan_report(const char*) {
    if (!sim::sh || sim::sh->status != sim::RUNNING) return;
    snprintf(sim::sh->cls, sizeof sim::sh->cls, "memory:%s", __asan_get_report_description());
    snprintf(sim::sh->msg, sizeof sim::sh->msg, "address sanitizer: %s", __asan_get_report_description());
    sim::sh->status = sim::VIOLATION;
}
#endif
using namespace sim;
static Shared* S;
static int cpu_limit = 20;

static const Scenario* find(const std::string& p) {
    for (auto* s = scenarios; s->prop; ++s) if (p == s->prop) return s;
    fprintf(stderr, "no scenario %s\n", p.c_str()); exit(2);
}
static uint64_t mixseed(uint64_t seed, const std::string& prop, uint64_t idx) {
    uint64_t h = 1469598103934665603ull ^ seed * 0x9e3779b97f4a7c15ull;
    for (char c : prop) { h ^= (unsigned char)c; h *= 1099511628211ull; }
    return h ^ (idx + 1) * 0xd1342543de82ef95ull;
}
static std::string child_err;

static void run_one(const Scenario* sc, uint64_t seed, const std::vector<uint32_t>* tape) {
    S->status = RUNNING;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        struct itimerval it{}; it.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
        alarm(cpu_limit * 15);   // a run that waits for ever uses no CPU
        const int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
        if (!getenv("SIM_VERBOSE")) dup2(dn, 2);
        static const uint32_t none = 0;
        begin_run(S, seed, !tape ? nullptr : tape->empty() ? &none : tape->data(), tape ? (uint32_t)tape->size() : 0);
        clock_virtual = 1;
#ifdef SIM_SCHED
        sched_begin();
#endif
        wild = 0;
#ifdef SIM_ASAN
        alloc_reuse(chance(1, 2));
#endif
        try { sc->fn(); }
        catch (const std::exception& e) { violate("exception", "unexpected exception: %s", e.what()); }
        catch (...) { violate("exception", "unexpected exception"); }
        if (S->status == RUNNING) S->status = OK;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == RUNNING || (WIFSIGNALED(st) && S->status == OK)) {
        S->status = VIOLATION;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) {
            strcpy(S->cls, "hang"); snprintf(S->msg, sizeof S->msg, "the run did not finish within %d s of CPU time", cpu_limit);
        } else if (WIFSIGNALED(st)) {
            snprintf(S->cls, sizeof S->cls, "crash:signal-%d", WTERMSIG(st));
            snprintf(S->msg, sizeof S->msg, "the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        } else {
            snprintf(S->cls, sizeof S->cls, "crash:exit-%d", WEXITSTATUS(st));
            snprintf(S->msg, sizeof S->msg, "the process ended with status %d", WEXITSTATUS(st));
        }
    }
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string esc(const char* s, size_t n) {
    std::string o;
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static std::string esc(const std::string& s) { return esc(s.data(), s.size()); }

static void result_json(FILE* f, const std::string& prop, uint64_t seed, uint64_t idx) {
    fprintf(f, "{\"prop\":\"%s\",\"seed\":%llu,\"idx\":%llu,\"status\":%d,\"class\":\"%s\",\"message\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"tape\":[",
            prop.c_str(), (unsigned long long)seed, (unsigned long long)idx, S->status, esc(S->cls).c_str(), esc(S->msg).c_str(),
            (unsigned long long)S->hash, (unsigned long long)S->steps);
    for (uint32_t i = 0; i < S->ntape; ++i) fprintf(f, "%s%u", i ? "," : "", S->tape[i]);
    fprintf(f, "],\"log\":\"%s\"}\n", esc(S->log, S->loglen).c_str());
}
static std::vector<uint32_t> read_tape(const char* path, std::string& prop, std::string& cls) {
    std::ifstream in(path); std::string w; std::vector<uint32_t> t;
    std::getline(in, prop); std::getline(in, cls);
    uint32_t v; while (in >> v) t.push_back(v);
    return t;
}

int main(int argc, char** argv) {
    // Fixed addresses, where the sandbox allows it.
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        const int p = personality(0xffffffff);
        if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef SIM_ASAN
    __asan_set_error_report_callback(on_asan_report);
#endif
    const std::string out = a.count("--out") ? a["--out"] : "/dev/stdout";
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    if (a.count("--cpu")) cpu_limit = atoi(a["--cpu"].c_str());

    if (a.count("--replay")) {
        std::string prop, cls;
        auto tape = read_tape(a["--replay"].c_str(), prop, cls);
        run_one(find(prop), 0, &tape);
        result_json(f, prop, 0, 0);
        fclose(f); return 0;
    }
    if (a.count("--shrink")) {
        std::string prop, cls;
        auto best = read_tape(a["--shrink"].c_str(), prop, cls);
        const Scenario* sc = find(prop);
        const double end = now() + (a.count("--secs") ? atof(a["--secs"].c_str()) : 60);
        if (cls == "hang") cpu_limit = 5;
        long tries = 0;
        auto bad = [&](const std::vector<uint32_t>& t) { ++tries; run_one(sc, 0, &t); return S->status == VIOLATION && cls == S->cls; };
        if (!bad(best)) { fprintf(stderr, "shrink: does not reproduce\n"); result_json(f, prop, 0, 0); fclose(f); return 3; }
        best.assign(S->tape, S->tape + S->ntape);
        auto take = [&](const std::vector<uint32_t>& t) {
            if (now() > end || tries > 6000) return false;
            if (!bad(t)) return false;
            std::vector<uint32_t> got(S->tape, S->tape + S->ntape);
            while (!got.empty() && got.back() == 0) got.pop_back();
            best = got.size() <= t.size() ? got : t;
            return true;
        };
        bool progress = true;
        while (progress && now() < end && tries < 6000) {
            progress = false;
            for (size_t w = std::max<size_t>(1, best.size() / 2); w >= 1; w /= 2) {     // drop spans
                for (size_t i = 0; i + w <= best.size();) {
                    auto t = best; t.erase(t.begin() + i, t.begin() + i + w);
                    const size_t before = best.size();
                    if (take(t) && best.size() < before) progress = true; else i += w;
                    if (now() > end || tries > 6000) break;
                }
                if (w == 1) break;
            }
            for (size_t w = std::max<size_t>(1, best.size() / 2); w >= 1; w /= 2) {     // zero spans
                for (size_t i = 0; i + w <= best.size(); i += w) {
                    bool any = false; auto t = best;
                    for (size_t k = i; k < i + w; ++k) { any |= t[k] != 0; t[k] = 0; }
                    if (any && take(t)) progress = true;
                    if (now() > end || tries > 6000) break;
                }
                if (w == 1) break;
            }
            for (size_t i = 0; i < best.size(); ++i) {                                  // lower values
                while (i < best.size() && best[i] > 1) {
                    auto t = best; t[i] /= 2;
                    const auto old = best;
                    if (!take(t) || best == old) break;
                    progress = true;
                }
                if (i < best.size() && best[i] > 0) { auto t = best; t[i] -= 1; const auto old = best; if (take(t) && best != old) progress = true; }
                if (now() > end || tries > 6000) break;
            }
        }
        run_one(sc, 0, &best);
        result_json(f, prop, 0, (uint64_t)tries);
        fclose(f); return 0;
    }

    const std::string prop = a["--prop"];
    const Scenario* sc = find(prop);
    const uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
    const uint64_t start = strtoull(a["--start"].c_str(), nullptr, 10), stride = std::max(1ull, strtoull(a["--stride"].c_str(), nullptr, 10));
    const uint64_t count = strtoull(a["--count"].c_str(), nullptr, 10);
    const double end = now() + atof(a["--secs"].c_str());
    const bool dump = a.count("--dump");
    std::set<std::string> known;     // classes listed as known findings: counted, not reported
    { std::stringstream ks(a.count("--known") ? a["--known"] : ""); std::string k; while (std::getline(ks, k, ',')) known.insert(k); }
    std::unordered_set<uint64_t> hashes;
    std::map<std::pair<char, std::string>, std::pair<uint64_t, uint64_t>> cnt; // total, runs
    uint64_t runs = 0, discarded = 0, steps = 0, switches = 0, nontriv = 0, choices = 0;
    std::vector<std::pair<uint64_t, std::string>> samples;
    FILE* d = dump ? fopen(a["--dump"].c_str(), "w") : nullptr;
    int rc = 0;
    for (uint64_t i = start; i < count; i += stride) {
        if (now() > end) break;
        run_one(sc, mixseed(seed, prop, i), nullptr);
        if (d) fprintf(d, "%llu %d %016llx %u\n", (unsigned long long)i, S->status, (unsigned long long)S->hash, S->ntape);
        if (S->status == DISCARD) { ++discarded; continue; }
        ++runs; steps += S->steps; switches += S->switches; choices += S->ntape;
        for (uint32_t k = 0; k < S->ncnt; ++k) { auto& c = cnt[{S->cnt[k].kind, S->cnt[k].name}]; c.first += S->cnt[k].n; c.second++; }
        if (S->nontrivial && hashes.insert(S->hash).second) {
            ++nontriv;
            if (samples.size() < 2 && S->loglen < 3000) samples.push_back({i, std::string(S->log, S->loglen)});
        }
        if (S->status == VIOLATION && known.count(S->cls)) { auto& c = cnt[{'k', S->cls}]; c.first++; c.second++; continue; }
        if (S->status == VIOLATION) { fprintf(f, "VIOLATION "); result_json(f, prop, seed, i); rc = 1; break; }
    }
    fprintf(f, "SUMMARY {\"runs\":%llu,\"discarded\":%llu,\"steps\":%llu,\"switches\":%llu,\"choices\":%llu,\"distinct\":%llu,\"counters\":[",
            (unsigned long long)runs, (unsigned long long)discarded, (unsigned long long)steps, (unsigned long long)switches,
            (unsigned long long)choices, (unsigned long long)nontriv);
    bool first = true;
    for (auto& [k, v] : cnt) {
        fprintf(f, "%s[\"%c\",\"%s\",%llu,%llu]", first ? "" : ",", k.first, esc(k.second).c_str(), (unsigned long long)v.first, (unsigned long long)v.second);
        first = false;
    }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i)
        fprintf(f, "%s{\"idx\":%llu,\"log\":\"%s\"}", i ? "," : "", (unsigned long long)samples[i].first, esc(samples[i].second).c_str());
    fprintf(f, "],\"hashes\":[");
    { bool ft = true; for (auto h : hashes) { fprintf(f, "%s\"%llx\"", ft ? "" : ",", (unsigned long long)h); ft = false; } }
    fprintf(f, "]}\n");
    fclose(f);
    if (d) fclose(d);
    return rc;
}
