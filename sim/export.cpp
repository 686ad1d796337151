// C15: the sequence export program on a disk that fails and with input that ends. The program is compiled from the
// repository with its main renamed; its standard streams are the simulator's, its files lie in a scratch folder, and
// the calls through which its file stream reaches the disk are interposed below.
#define main export_main
#include "examples/generate_sobol.cpp"
#undef main
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
    enum Kind { NONE, OPEN_FAILS, WRITE_FAILS, DISK_FULL, SHORT_WRITE, INTERRUPTED, CLOSE_FAILS, MKDIR_FAILS, N_KIND };
    static const char* kind_name(int k) { static const char* n[] = {"none", "open-fails", "write-fails", "disk-full", "short-write", "write-interrupted", "close-fails", "mkdir-fails"}; return n[k]; }
    static int fkind = NONE; static long fat = 0, nwrite = 0; static size_t part = 0; static bool fired = false, on = false;
    static int target = -1;              // the descriptor of the exported file
    static bool ours(const char* p) { return p && strstr(p, ".csv"); }

    // 0: do it; <0: fail with errno; >0: write only that many bytes
    static long decide(int fd, size_t n) {
        if (!on || fd != target) return 0;
        ++nwrite; step();
        if (fkind == WRITE_FAILS && nwrite == fat) { fired = true; fault(kind_name(fkind)); errno = EIO; return -1; }
        if (fkind == INTERRUPTED && nwrite == fat) { fired = true; fault(kind_name(fkind)); errno = EINTR; return -1; }
        if (fkind == DISK_FULL && nwrite >= fat) {
            if (nwrite == fat && part && part < n) { fired = true; fault(kind_name(fkind)); return (long)part; }
            if (!fired) fault(kind_name(fkind));
            fired = true; errno = ENOSPC; return -1;
        }
        if (fkind == SHORT_WRITE && nwrite >= fat && part && part < n) { fired = true; fault(kind_name(fkind)); return (long)part; }
        return 0;
    }
    template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

    // standard streams
    struct In : std::streambuf { In(const std::string& s) : s_(s) { setg(&s_[0], &s_[0], &s_[0] + s_.size()); } std::string s_; };
    static const char* hang_class = "hang";
    static std::filesystem::path root;
    static void wipe() { std::error_code ec; std::filesystem::remove_all(root, ec); }
    struct Out : std::streambuf {
        std::string s; long calls = 0;
        void count() { step(); if (++calls > 20000) { on = false; wipe(); violate(hang_class, "the program keeps asking for ever"); } }
        int overflow(int c) override { count(); if (c != EOF) s += (char)c; return c; }
        std::streamsize xsputn(const char* p, std::streamsize n) override { count(); if (s.size() < 100000) s.append(p, n); return n; }
    };
    struct Result { bool ended = false; int status = -1; std::string text, file; bool exists = false; };
    static Result R;
    static std::string slurp(const std::filesystem::path& p, bool& ok) { std::ifstream in(p, std::ios::binary); ok = in.good(); std::stringstream b; b << in.rdbuf(); return b.str(); }

    static void run_program(const std::string& input) {
        In in(input); Out out, err;
        auto *a = std::cin.rdbuf(&in), *b = std::cout.rdbuf(&out), *c = std::cerr.rdbuf(&err);
        std::cin.clear(); std::cout.clear(); std::cerr.clear();
        nwrite = 0; fired = false; target = -1;
        R = Result();
        on = true;
        try { R.status = export_main(); R.ended = true; } catch (const std::exception&) { R.status = 134; }
        on = false;
        std::cin.rdbuf(a); std::cout.rdbuf(b); std::cerr.rdbuf(c);
        R.text = out.s;
        // the file it names: the last quoted text, else the only csv file there is
        std::filesystem::path p;
        if (auto e = R.text.rfind('"'); e != std::string::npos && e > 0) if (auto s = R.text.rfind('"', e - 1); s != std::string::npos) p = R.text.substr(s + 1, e - s - 1);
        if (p.empty() || !std::filesystem::exists(p))
            for (auto& f : std::filesystem::recursive_directory_iterator(root)) if (f.path().extension() == ".csv") p = f.path();
        if (!p.empty()) R.file = slurp(p, R.exists);
    }
    static bool complete(const std::string& f, unsigned N, unsigned s, std::string& why) {
        std::istringstream in(f); std::string l; unsigned long rows = 0; bool header = false;
        std::vector<char> seen((size_t)N * s, 0);
        while (std::getline(in, l)) {
            if (l.empty()) continue;
            std::vector<std::string> v; std::stringstream ls(l); std::string x; while (std::getline(ls, x, ',')) v.push_back(x);
            if (!header && (l[0] < '0' || l[0] > '9')) { header = true; continue; }
            if (v.size() < 5) { why = "row '" + l + "' is cut short"; return false; }
            const long i = atol(v[0].c_str()), d = atol(v[1].c_str());
            if (i < 1 || d < 1 || i > (long)N || d > (long)s || seen[(i - 1) * s + d - 1]++) { why = "row '" + l + "' does not belong there"; return false; }
            for (int k = 2; k < 5; ++k) { char* e; const double z = strtod(v[k].c_str(), &e); if (e == v[k].c_str() || !(z >= 0 && z <= 1)) { why = "row '" + l + "' has a bad value"; return false; } }
            ++rows;
        }
        if (rows != (unsigned long)N * s) { why = std::to_string(rows) + " of " + std::to_string((unsigned long)N * s) + " rows"; return false; }
        return true;
    }
    void c15() {
        component("generate_sobol");
        char t[] = "x-XXXXXX";
        if (!mkdtemp(t)) violate("harness:scratch", "no scratch folder");
        root = std::filesystem::absolute(t);
        std::filesystem::create_directories(root / "a" / "b"); std::filesystem::create_directories(root / "examples");
        if (chdir((root / "a" / "b").c_str())) violate("harness:scratch", "chdir");
        static const unsigned Ns[] = {3, 1, 10, 60, 250, 400}, ss[] = {2, 1, 3, 5, 8};
        const unsigned N = Ns[choose(6)], s = ss[choose(5)];
        const int bad = chance(1, 4) ? 1 + choose(6) : 0;
        const std::string good = std::to_string(N) + (choose(2) ? " " : "\n") + std::to_string(s) + "\n";
        if (bad) {
            static const char* junk[] = {"", "7\n", "x\n", "5 y 3\n", "99999999999999999999 2\n", "-- 4\n"};
            const bool later = chance(1, 3);
            const std::string input = std::string(later ? "0 0 " : "") + junk[bad - 1];
            hang_class = bad <= 2 ? "hang:input-ended" : "hang:input-not-a-number";
            log("input '%s'", input.c_str());
            fault(bad <= 2 ? "input-ended" : "input-not-a-number"); nontrivial();
            run_program(input);
            const bool claims = R.ended && R.status == 0;
            wipe();
            if (claims) violate("false-success:bad-input", "success is reported although no sizes were read");
            return;
        }
        hang_class = "hang";
        fkind = NONE;
        const std::string input = std::string(chance(1, 4) ? "0 4 3 0 " : "") + good;
        run_program(input);
        const Result ref = R; const long writes = nwrite; std::string why;
        if (!ref.ended || ref.status) { wipe(); violate("no-export", "without any failure the program ends with %d", ref.status); }
        if (!ref.exists || !complete(ref.file, N, s, why)) { wipe(); violate("incomplete", "without any failure the export of %u x %u is incomplete: %s", N, s, why.c_str()); }
        log("%u x %u: %zu bytes in %ld writes", N, s, ref.file.size(), writes);
        const int rounds = 1 + choose(3);
        for (int i = 0; i < rounds; ++i) {
            if (chance(1, 2)) std::filesystem::remove_all(root / "examples" / "output");
            fkind = choose(N_KIND); fat = 1 + choose(writes > 0 ? writes : 1); part = choose(3) ? 1 + choose(8000) : 0;
            log("fault %s at write %ld of %ld, %zu bytes", kind_name(fkind), fat, writes, part);
            run_program(input);
            log("status %d, %zu bytes", R.ended ? R.status : -1, R.file.size());
            const bool claims = R.ended && R.status == 0 && R.text.find(".csv") != std::string::npos;
            const bool whole = R.exists && R.file == ref.file;
            if (fired) nontrivial();
            if (claims && !whole) {
                const char* cls = !fired ? "incomplete" : fkind == CLOSE_FAILS ? "false-success:close-error" : fkind == OPEN_FAILS ? "false-success:open-error" :
                                  fkind == SHORT_WRITE || fkind == INTERRUPTED ? "false-success:short-write" : fkind == MKDIR_FAILS ? "false-success:mkdir-error" : "false-success:write-error";
                const size_t have = R.file.size();
                wipe();
                violate(cls, "success is reported, but the file holds %zu of %zu bytes", have, ref.file.size());
            }
            if (!fired && !claims) { wipe(); violate("no-export", "without any failure the program ends with %d", R.status); }
        }
        wipe();
    }
    Scenario scenarios[] = {{"C15", c15}, {nullptr, nullptr}};
}
using namespace sim;
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
    static auto real = sim::next<ssize_t (*)(int, const void*, size_t)>("write");
    const long d = decide(fd, n);
    return d < 0 ? -1 : real(fd, p, d > 0 ? (size_t)d : n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto real = sim::next<ssize_t (*)(int, const struct iovec*, int)>("writev");
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    const long d = decide(fd, n);
    if (d < 0) return -1;
    if (d == 0) return real(fd, v, c);
    std::string b; for (int i = 0; i < c; ++i) b.append((const char*)v[i].iov_base, v[i].iov_len);
    static auto w = sim::next<ssize_t (*)(int, const void*, size_t)>("write");
    return w(fd, b.data(), (size_t)d);
}
static FILE* opened(FILE* f, const char* p) { if (f && on && ours(p)) target = fileno(f); return f; }
static bool refuse(const char* p) { if (on && ours(p) && fkind == OPEN_FAILS) { fired = true; fault("open-fails"); errno = EACCES; return true; } return false; }
FILE* fopen(const char* p, const char* m) { static auto real = sim::next<FILE* (*)(const char*, const char*)>("fopen"); return refuse(p) ? nullptr : opened(real(p, m), p); }
FILE* fopen64(const char* p, const char* m) { static auto real = sim::next<FILE* (*)(const char*, const char*)>("fopen64"); return refuse(p) ? nullptr : opened(real(p, m), p); }
int fclose(FILE* f) {
    static auto real = sim::next<int (*)(FILE*)>("fclose");
    const bool mine = on && f && fileno(f) == target;
    const int r = real(f);
    if (mine) { target = -1; if (fkind == CLOSE_FAILS) {   // what was still on its way is lost
        fired = true; fault("close-fails"); errno = EIO;
        for (auto& x : std::filesystem::recursive_directory_iterator(sim::root)) if (x.path().extension() == ".csv") { std::error_code ec; auto n = std::filesystem::file_size(x.path(), ec); if (!ec && n > sim::part) std::filesystem::resize_file(x.path(), sim::part, ec); }
        return EOF; } }
    return r;
}
int mkdir(const char* p, mode_t m) noexcept {
    static auto real = sim::next<int (*)(const char*, mode_t)>("mkdir");
    if (on && fkind == MKDIR_FAILS) { fired = true; fault("mkdir-fails"); errno = ENOSPC; return -1; }
    return real(p, m);
}
}
