#include "hx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <ftw.h>
#include <time.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <boost/log/core.hpp>
namespace hx {
bool thorough = false; int shard = 0, nshards = 1; std::string only; double budget = 0;
static long counter = 0; static std::string cur = "start"; static std::map<std::string, long> counts; static std::map<std::string, std::set<size_t>> dist; static int samples = 0; static std::map<std::string, int> violKeys;
static std::string scratchDir; static double t0; static pid_t owner;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void crash(int sig) {
    static const char* nm = "crash"; (void)nm;
    const char* s = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic trap" : sig == SIGTERM ? "no end in sight" : "signal";
    char buf[4096]; int n = snprintf(buf, sizeof buf, "\nVIOL crash|%s in case %s\n", s, cur.c_str());
    fflush(stdout); if (write(1, buf, n) < 0) {}
    _exit(1);
}
static void term() {
    std::string w = "unknown";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { w = x.what(); } catch (...) {} }
    for (auto& c : w) if (c == '\n') c = ' ';
    printf("\nVIOL crash|uncaught exception: %s in case %s\n", w.substr(0, 500).c_str(), cur.c_str()); fflush(stdout); _exit(1);
}
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void cleanup() { if (owner == getpid() && !scratchDir.empty() && scratchDir.find("/hx_scratch_") != std::string::npos) nftw(scratchDir.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }
void init(int argc, char** argv) {
    t0 = now();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--thorough") thorough = true; else if (a == "--shard") { auto s = next(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); }
        else if (a == "--only") only = next(); else if (a == "--budget") budget = atof(next().c_str());
    }
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    signal(SIGTERM, crash);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
    std::set_terminate(term);
    atexit(cleanup);
    quietLog();
}
void quietLog() { boost::log::core::get()->set_logging_enabled(false); }
bool beginHere(const std::string& name) { if (!only.empty() && only != name) return false; cur = name; if (getenv("HX_CASES")) fprintf(stderr, "CASE %.1f %s\n", seconds(), name.c_str()); return true; }
bool begin(const std::string& name) { long c = counter++; if (only.empty() && (c % nshards) != shard) return false; return beginHere(name); }
const std::string& current() { return cur; }
double seconds() { return now() - t0; }
bool timeUp() { if (budget > 0 && seconds() > budget) { counts["cap_time"] = 1; return true; } return false; }
void viol(const std::string& key, const std::string& d) {
    int n = ++violKeys[key]; counts["violations"]++;
    if (n <= 3) { std::string x = d; for (auto& c : x) if (c == '\n') c = ' '; printf("VIOL %s|case %s: %s\n", key.c_str(), cur.c_str(), x.substr(0, 1500).c_str()); fflush(stdout); }
}
void count(const std::string& n, long k) { counts[n] += k; }
void sample(const std::string& t, int max) { if (samples++ < max) { std::string x = t; for (auto& c : x) if (c == '\n') c = ' '; printf("SAMPLE %s\n", x.c_str()); } }
void distinct(const std::string& n, size_t h) { dist[n].insert(h); }
int finish() {
    for (auto& c : counts) printf("STAT %s %ld\n", c.first.c_str(), c.second);
    for (auto& d : dist) { printf("STAT distinct_%s %zu\n", d.first.c_str(), d.second.size()); }
    printf("DONE\n"); fflush(stdout);
    cleanup(); scratchDir.clear();
    fflush(stdout); _exit(0);
}
std::string scratch() {
    if (scratchDir.empty()) { char t[] = "/tmp/hx_scratch_XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(3); } scratchDir = t; owner = getpid(); }
    return scratchDir;
}
}
