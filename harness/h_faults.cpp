// C18: one output operation after the other fails (library calls of the writers, system calls of the libraries, calls of the
// parallel library on one or all processes); a run either reports an error or its files are complete.
#include "rig.hpp"
#include "cfgs.hpp"
#include "readback.hpp"
#include "mcx.hpp"
#include "alsfvm/io/HDF5Writer.hpp"
#include "alsfvm/io/NetCDFWriter.hpp"
#include "alsfvm/io/NetCDFMPIWriter.hpp"
#include "alsfvm/init/PythonInitialData.hpp"
#include "alsuq/config/Setup.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <cstdarg>
#include <csignal>
#include <sys/stat.h>
#include <sys/wait.h>
#include <mpi.h>
using namespace alsfvm; using rig::I3; using rig::Vol; typedef std::vector<double> Vec;
int alsvinncli_main(int, char**); int alsuqcli_main(int, char**);
namespace fi {
enum Level { Off, Api, Sys }; enum Kind { EIo, ENoSpace, ENoSpaceForGood, Short, EIntr };
static Level level = Off; static Kind kind = EIo; static long at = 0, n = 0; static int depth = 0; static bool hitNow = false; static std::set<int> fds; static std::string what;
struct In { In() { ++depth; } ~In() { --depth; } };
static bool api(const char* name) { if (level != Api) return false; if (++n != at) return false; what = name; return true; }
// 0: go on; otherwise the kind of failure + 1
static int sys(const char* name, bool writes) { if (level != Sys) return 0; if ((kind == Short || kind == ENoSpace || kind == ENoSpaceForGood || kind == EIntr) && !writes) return 0; ++n; if (n == at || (kind == ENoSpaceForGood && at && n > at)) { what = name; hitNow = true; return int(kind) + 1; } return 0; }
static int fail(int k) { errno = k - 1 == EIo ? EIO : k - 1 == EIntr ? EINTR : ENOSPC; return -1; }
}
extern "C" {
#define API(ret, bad, name, params, args) ret name params { static auto real = (ret (*) params)dlsym(RTLD_NEXT, #name); if (fi::depth || fi::level != fi::Api) { fi::In in; return real args; } fi::In in; if (fi::api(#name)) return bad; return real args; }
#define CLOSE(ret, bad, name, params, args) ret name params { static auto real = (ret (*) params)dlsym(RTLD_NEXT, #name); if (fi::depth || fi::level != fi::Api) { fi::In in; return real args; } fi::In in; auto r = real args; return fi::api(#name) ? bad : r; }
API(int, NC_EPERM, nc_create, (const char* p, int m, int* id), (p, m, id))
API(int, NC_EHDFERR, nc_def_dim, (int f, const char* s, size_t l, int* id), (f, s, l, id))
API(int, NC_EHDFERR, nc_def_var, (int f, const char* s, nc_type t, int nd, const int* d, int* v), (f, s, t, nd, d, v))
API(int, NC_EHDFERR, nc_put_att_text, (int f, int v, const char* s, size_t l, const char* t), (f, v, s, l, t))
API(int, NC_EHDFERR, nc_put_var_double, (int f, int v, const double* d), (f, v, d))
API(int, NC_EHDFERR, nc_put_vara_double, (int f, int v, const size_t* a, const size_t* b, const double* d), (f, v, a, b, d))
API(int, NC_EHDFERR, nc_enddef, (int f), (f))
API(int, NC_EHDFERR, nc_sync, (int f), (f))
CLOSE(int, NC_EHDFERR, nc_close, (int f), (f))
API(hid_t, -1, H5Fcreate, (const char* s, unsigned u, hid_t a, hid_t b), (s, u, a, b))
API(hid_t, -1, H5Gcreate2, (hid_t f, const char* s, hid_t a, hid_t b, hid_t c), (f, s, a, b, c))
API(hid_t, -1, H5Screate, (H5S_class_t t), (t))
API(hid_t, -1, H5Screate_simple, (int r, const hsize_t* a, const hsize_t* b), (r, a, b))
API(hid_t, -1, H5Dcreate2, (hid_t f, const char* s, hid_t a, hid_t b, hid_t c, hid_t d, hid_t e), (f, s, a, b, c, d, e))
API(hid_t, -1, H5Dget_space, (hid_t d), (d))
API(herr_t, -1, H5Sselect_hyperslab, (hid_t s, H5S_seloper_t o, const hsize_t* a, const hsize_t* b, const hsize_t* c, const hsize_t* d), (s, o, a, b, c, d))
API(herr_t, -1, H5Dwrite, (hid_t d, hid_t a, hid_t b, hid_t c, hid_t e, const void* p), (d, a, b, c, e, p))
API(hid_t, -1, H5Tcopy, (hid_t t), (t))
API(herr_t, -1, H5Tset_size, (hid_t t, size_t s), (t, s))
API(hid_t, -1, H5Acreate2, (hid_t f, const char* s, hid_t a, hid_t b, hid_t c, hid_t d), (f, s, a, b, c, d))
API(herr_t, -1, H5Awrite, (hid_t a, hid_t t, const void* p), (a, t, p))
CLOSE(herr_t, -1, H5Fclose, (hid_t h), (h))
CLOSE(herr_t, -1, H5Gclose, (hid_t h), (h))
CLOSE(herr_t, -1, H5Sclose, (hid_t h), (h))
CLOSE(herr_t, -1, H5Dclose, (hid_t h), (h))
CLOSE(herr_t, -1, H5Tclose, (hid_t h), (h))
CLOSE(herr_t, -1, H5Aclose, (hid_t h), (h))
static int opened(const char* name, int fd, const char* p, int flags) { (void)name; std::string s(p); if (fd >= 0) { if ((flags & (O_WRONLY | O_RDWR)) && s.size() > 3 && (s.substr(s.size() - 3) == ".nc" || s.substr(s.size() - 3) == ".h5")) fi::fds.insert(fd); else fi::fds.erase(fd); } return fd; }
static bool out(const char* p, int flags) { std::string s(p); return (flags & (O_WRONLY | O_RDWR)) && s.size() > 3 && (s.substr(s.size() - 3) == ".nc" || s.substr(s.size() - 3) == ".h5"); }
#define OPEN(name) int name(const char* p, int flags, ...) { static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name); va_list a; va_start(a, flags); int m = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (fi::level == fi::Sys && out(p, flags)) if (int k = fi::sys(#name, false)) return fi::fail(k); return opened(#name, real(p, flags, m), p, flags); }
OPEN(open) OPEN(open64)
ssize_t write(int fd, const void* b, size_t l) { static auto real = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("write", true)) { if (k - 1 == fi::Short && l > 1) return real(fd, b, l / 2); if (k - 1 != fi::Short) return fi::fail(k); } return real(fd, b, l); }
ssize_t pwrite(int fd, const void* b, size_t l, off_t o) { static auto real = (ssize_t (*)(int, const void*, size_t, off_t))dlsym(RTLD_NEXT, "pwrite"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("pwrite", true)) { if (k - 1 == fi::Short && l > 1) return real(fd, b, l / 2, o); if (k - 1 != fi::Short) return fi::fail(k); } return real(fd, b, l, o); }
ssize_t pwrite64(int fd, const void* b, size_t l, off64_t o) { static auto real = (ssize_t (*)(int, const void*, size_t, off64_t))dlsym(RTLD_NEXT, "pwrite64"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("pwrite64", true)) { if (k - 1 == fi::Short && l > 1) return real(fd, b, l / 2, o); if (k - 1 != fi::Short) return fi::fail(k); } return real(fd, b, l, o); }
int ftruncate(int fd, off_t l) { static auto real = (int (*)(int, off_t))dlsym(RTLD_NEXT, "ftruncate"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("ftruncate", false)) return fi::fail(k); return real(fd, l); }
int ftruncate64(int fd, off64_t l) { static auto real = (int (*)(int, off64_t))dlsym(RTLD_NEXT, "ftruncate64"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("ftruncate64", false)) return fi::fail(k); return real(fd, l); }
int fsync(int fd) { static auto real = (int (*)(int))dlsym(RTLD_NEXT, "fsync"); if (fi::level == fi::Sys && fi::fds.count(fd)) if (int k = fi::sys("fsync", false)) return fi::fail(k); return real(fd); }
int close(int fd) { static auto real = (int (*)(int))dlsym(RTLD_NEXT, "close"); const bool mine = fi::fds.erase(fd); int r = real(fd); if (fi::level == fi::Sys && mine) if (int k = fi::sys("close", false)) return fi::fail(k); return r; }
}
// ---- initial data of the command line programs (the interpreter is not under study)
namespace alsfvm { namespace init {
PythonInitialData::PythonInitialData(const std::string& p, const Parameters& q) : parameters(q), programString(p) {}
void PythonInitialData::setParameters(const Parameters& p) { parameters = p; }
boost::property_tree::ptree PythonInitialData::getDescription() const { return boost::property_tree::ptree(); }
void PythonInitialData::setInitialData(volume::Volume& v, volume::Volume& w, equation::CellComputer& cc, grid::Grid& g) { double a = 1; for (auto& n : parameters.getParameterNames()) a += parameters.getParameter(n)[0]; simx::CellData([&](int var, int i, int j, int k) { return a * (1 + 0.3 * std::sin(i + 2 * j + 3 * k + var)); }).setInitialData(v, w, cc, g); }
}}
static std::shared_ptr<memory::MemoryFactory> mf() { static auto dev = std::make_shared<DeviceConfiguration>("cpu"); static auto m = std::make_shared<memory::MemoryFactory>(dev); return m; }
static double cell(int snap, int var, int i, int j, int k) { return snap * 1000 + var * 100 + i * 10.5 + j + k / 8.; }
typedef std::map<std::string, rb::Img> Files;
static Files readAll(const std::string& dir) { Files f; for (auto& n : rb::list(dir)) if (n.size() > 3 && n.substr(n.size() - 3) == ".nc") f[n] = rb::readNc(dir + "/" + n); else if (n.size() > 3 && n.substr(n.size() - 3) == ".h5") f[n] = rb::readH5(dir + "/" + n); return f; }
static Files readFpn() { Files f; for (auto& x : fpn::files()) f[x.first] = rb::readFpn(x.first); return f; }
static std::string same(const rb::Img& a, const rb::Img& b) {
    if (!a.err.empty()) return a.err; if (a.n != b.n) return "another grid"; if (a.hasTime != b.hasTime || (a.hasTime && a.time != b.time)) return "another time"; if (a.v.size() != b.v.size()) return "a variable is missing";
    for (auto& x : b.v) { auto i = a.v.find(x.first); if (i == a.v.end()) return x.first + " is missing"; if (i->second.size() != x.second.size() || memcmp(i->second.data(), x.second.data(), 8 * x.second.size())) return x.first + " differs"; }
    for (auto& x : b.atts) { auto i = a.atts.find(x.first); if (i == a.atts.end()) return "attribute " + x.first + " is missing"; if (x.first.compare(0, 15, "alsvinn_report.") && i->second != x.second) return "attribute " + x.first + " differs"; } return "";
}
static std::string complete(const Files& got, const Files& want) { for (auto& x : want) { auto i = got.find(x.first); if (i == got.end()) return x.first + " is missing"; auto s = same(i->second, x.second); if (!s.empty()) return x.first + ": " + s; } return ""; }
// a crash inside the file library after one of its system calls failed is not this program's (and not silent either)
static int sayFd = -1;
static void crashed(int) { if (fi::depth) { fi::level = fi::Off; const char t[] = "error the library crashed\ncalls 0 crash\n"; if (::write(sayFd, t, sizeof t - 1)) {} _exit(0); } signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); }
// runs f in a process of its own with a fault; every line it reports.  "terminated ..." if it does not come to an end by itself
static std::vector<std::string> apart(const std::function<void(const std::function<void(const std::string&)>&)>& f) {
    int p[2]; if (pipe(p)) exit(2); fflush(stdout); fflush(stderr); const pid_t c = fork();
    if (c == 0) { ::close(p[0]); int q = open("/dev/null", O_WRONLY); dup2(q, 1); dup2(q, 2); for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM}) signal(s, SIG_DFL); sayFd = p[1]; signal(SIGSEGV, crashed); std::set_terminate([] { std::abort(); }); alarm(60); auto say = [&](const std::string& s) { const auto l = fi::level; fi::level = fi::Off; std::string t = s; for (auto& x : t) if (x == '\n') x = ' '; t += '\n'; if (::write(p[1], t.data(), t.size())) {} fi::level = l; }; f(say); _exit(0); }
    ::close(p[1]); std::string all; char b[4096]; for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) all.append(b, k); ::close(p[0]); int st = 0; waitpid(c, &st, 0);
    std::vector<std::string> r; std::istringstream s(all); for (std::string l; std::getline(s, l);) r.push_back(l); if (WIFSIGNALED(st)) r.push_back(hx::cat("terminated by signal ", WTERMSIG(st))); else if (WEXITSTATUS(st)) r.push_back(hx::cat("terminated with status ", WEXITSTATUS(st))); return r;
}
static const std::string none = "";
static void arm(fi::Level l, fi::Kind k, long n) { fi::kind = k; fi::at = n; fi::n = 0; fi::level = l; }
struct Mode { fi::Level l; fi::Kind k; const char* name; };
static const Mode modes[] = {{fi::Api, fi::EIo, "call"}, {fi::Sys, fi::EIo, "eio"}, {fi::Sys, fi::ENoSpace, "nospace"}, {fi::Sys, fi::ENoSpaceForGood, "full"}, {fi::Sys, fi::Short, "short"}, {fi::Sys, fi::EIntr, "intr"}};
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; const std::string dir = hx::scratch() + "/o"; mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return 2; auto wipe = [&] { for (auto& f : rb::list(dir)) { unlink((dir + "/" + f).c_str()); rmdir((dir + "/" + f).c_str()); } fpn::reset(); };
    // ---- writers alone: a fault in the n-th operation; what was reported as written must be there
    for (std::string w : {"netcdf", "hdf5"}) for (auto& n : std::vector<I3>{{{3, 2, 2}}, {{5, 1, 1}}, {{40, 30, 1}}}) for (auto& m : modes) {
        if (!T && n[0] == 5 && m.l == fi::Sys) continue; if (!T && n[0] == 40 && (m.k == fi::EIntr || m.k == fi::ENoSpace)) continue; const int nv = n[0] == 40 ? 3 : 2, snaps = T ? 4 : 3;
        auto names = [&] { std::vector<std::string> a = {"u", "v", "w"}; a.resize(nv); return a; };
        auto scenario = [&](const std::function<void(const std::string&)>& say, long at) {
            std::shared_ptr<io::Writer> wr; if (w == "netcdf") wr.reset(new io::NetCDFWriter("a")); else wr.reset(new io::HDF5Writer("a")); boost::property_tree::ptree t; t.put("fvm.name", "x"); t.put("fvm.cfl", 0.5); wr->addAttributes("conf", t);
            grid::Grid G(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(n[0], n[1], n[2]), boundary::allPeriodic(), ivec3(0, 0, 0), ivec3(n[0], n[1], n[2])); volume::Volume v(names(), mf(), n[0], n[1], n[2], 1); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); arm(m.l, m.k, at);
            for (int s = 0; s < snaps; ++s) { Vol x(std::shared_ptr<volume::Volume>(&v, [](volume::Volume*) {})); x.eachAll([&](int i, int j, int k) { for (int a = 0; a < nv; ++a) x.at(a, i, j, k) = cell(s, a, i, j, k); }); simulator::TimestepInformation ti; ti.incrementTime(0.1 + s); try { wr->write(v, G, ti); say(hx::cat("ok ", s)); } catch (std::runtime_error& e) { say(hx::cat("error ", s, " ", e.what())); } catch (std::exception& e) { say(hx::cat("other error ", s)); } catch (...) { say(hx::cat("other error ", s)); } }
            const long calls = fi::n; arm(fi::Off, fi::EIo, 0); say(hx::cat("calls ", calls, " ", fi::what)); };
        long total = -1; auto callsOf = [](const std::vector<std::string>& r) { for (auto& l : r) if (l.compare(0, 6, "calls ") == 0) return atol(l.c_str() + 6); return -1L; };
        auto dry = [&] { wipe(); auto r = apart([&](const std::function<void(const std::string&)>& say) { scenario(say, 0); }); total = callsOf(r); for (int s = 0; s < snaps; ++s) if (int(r.size()) <= s || r[s] != hx::cat("ok ", s)) total = -1; }; Files want;
        for (long at = 0; total < 0 || at <= total; ++at) {
            if (at > (m.l == fi::Sys && m.k == fi::ENoSpaceForGood ? total : total) && total >= 0) break; if (at == 0) { dry(); if (total < 0) { if (hx::begin(hx::cat("writer-", w, "-", n[0], "x", n[1], "x", n[2], "-", m.name))) hx::viol("faults:harness", "the writer fails without any fault"); break; } want = readAll(dir); continue; }
            if (!hx::begin(hx::cat("writer-", w, "-", n[0], "x", n[1], "x", n[2], "-", m.name, at))) continue; wipe(); auto r = apart([&](const std::function<void(const std::string&)>& say) { scenario(say, at); }); hx::count("evaluations"); hx::count("transitions", total); std::string bad, op; if (!r.empty() && r.back().compare(0, 5, "calls") == 0) op = r.back();
            std::vector<int> ok; bool error = false; for (auto& l : r) { if (l.compare(0, 3, "ok ") == 0) ok.push_back(atoi(l.c_str() + 3)); else if (l.compare(0, 5, "error") == 0) error = true; else if (l.compare(0, 5, "calls")) bad = l; }
            if (callsOf(r) < 0 && bad.empty()) bad = "no result"; auto got = readAll(dir); hx::count("states", long(got.size()));
            if (bad.empty()) for (int s : ok) { bool found = false; std::string why; auto& e = want[hx::cat("a_", s, w == "hdf5" ? ".h5" : ".nc")]; for (auto& g : got) { auto d = same(g.second, e); if (d.empty()) found = true; else if (g.first == hx::cat("a_", s, w == "hdf5" ? ".h5" : ".nc")) why = d; } if (!found) { bad = hx::cat("snapshot ", s, " was reported as written, but no file has it: ", why); break; } }
            if (bad.empty() && !error) bad = complete(got, want); if (!bad.empty()) hx::viol(hx::cat("faults:writer-", w, "-", m.name), hx::cat(bad, " (failed operation: ", op, ")")); else if (error) { hx::count("nontrivial"); hx::sample(hx::current() + ": " + op + ": " + (r.size() > 1 ? r[r.size() - 2].substr(0, 160) : none)); } else hx::count("harmless"); }
    }
    // ---- names that cannot be created
    for (std::string w : {"netcdf", "hdf5"}) for (int k = 0; k < 3; ++k) { if (!hx::begin(hx::cat("name-", w, k))) continue; wipe(); std::string base = k == 0 ? "missing/a" : k == 1 ? "dir" : std::string(300, 'x'); if (k == 1) mkdir(w == "hdf5" ? "dir_0.h5" : "dir_0.nc", 0755);
        auto r = apart([&](const std::function<void(const std::string&)>& say) { std::shared_ptr<io::Writer> wr; if (w == "netcdf") wr.reset(new io::NetCDFWriter(base)); else wr.reset(new io::HDF5Writer(base)); grid::Grid G(rvec3(0, 0, 0), rvec3(1, 1, 1), ivec3(2, 2, 1), boundary::allPeriodic(), ivec3(0, 0, 0), ivec3(2, 2, 1)); volume::Volume v({"u"}, mf(), 2, 2, 1, 1); simulator::TimestepInformation ti; H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); try { wr->write(v, G, ti); say("ok"); } catch (std::runtime_error& e) { say("error"); } }); hx::count("evaluations"); if (r != std::vector<std::string>{"error"}) hx::viol("faults:name-" + w, r.empty() ? "no result" : r.back()); }
    // ---- whole runs through the configuration file
    struct R { const char* name; std::string writer, functionals; };
    for (std::string w : {"netcdf", "hdf5"}) { auto wn = [&](const std::string& base, const std::string& extra) { return "<writer><type>" + w + "</type><basename>" + base + "</basename>" + extra + "</writer>"; };
        for (auto& q : std::vector<R>{{"plain", wn("out", "<numberOfSaves>2</numberOfSaves>"), ""}, {"every", wn("out", ""), ""}, {"window", wn("out", "<time>0.05</time><timeRadius>0.02</timeRadius><numberOfSnapshots>1</numberOfSnapshots>"), ""}, {"coarse", wn("out", "<numberOfSaves>1</numberOfSaves><numberOfCoarseSaves>1</numberOfCoarseSaves><numberOfSkips>0</numberOfSkips>"), ""},
                {"functional", "", "<functionals><functional><name>identity</name><numberOfSaves>2</numberOfSaves>" + wn("f0", "") + "</functional><functional><name>moment</name><degree>2</degree><time>0.05</time><timeRadius>0.03</timeRadius>" + wn("f1", "") + "</functional></functionals>"}, {"both", wn("out", "<numberOfSaves>1</numberOfSaves>"), "<functionals><functional><name>identity</name><numberOfSaves>1</numberOfSaves>" + wn("f0", "") + "</functional></functionals>"}}) for (auto& m : modes) {
            if (!T && m.l == fi::Sys && m.k != fi::EIo && m.k != fi::ENoSpaceForGood) continue; auto c = cfgs::mk(1, "burgers", "rusanov", "none"); c.n = {{12, 1, 1}}; c.upper = {{0.4, 1, 1}}; c.endTime = 0.1; if (!strcmp(q.name, "coarse")) { c.endTime = 0.2; } if (!strcmp(q.name, "every")) c.endTime = 0.03; c.writer = q.writer; c.functionals = q.functionals; auto init = cfgs::data(c); const std::string file = simx::writeFile("c.xml", c.xml());
            auto scenario = [&](const std::function<void(const std::string&)>& say, long at) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); try { auto s = simx::make(file); alsfvm::shared_ptr<init::InitialData> id(new simx::CellData(init)); arm(m.l, m.k, at); s.sim->setInitialValue(id); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); say("ok"); } catch (std::runtime_error& e) { say(std::string("error ") + e.what()); } catch (...) { say("other error"); } const long calls = fi::n; arm(fi::Off, fi::EIo, 0); say(hx::cat("calls ", calls, " ", fi::what)); };
            long total = 0; Files want; for (long at = 0; at <= total; ++at) { const std::string cn = hx::cat("run-", w, "-", q.name, "-", m.name, at); if (at && !hx::begin(cn)) continue; wipe(); auto r = apart([&](const std::function<void(const std::string&)>& say) { scenario(say, at); }); std::string bad; if (r.size() == 2 && r[1].compare(0, 5, "calls") == 0) { if (at == 0) total = atol(r[1].c_str() + 6); } else bad = r.empty() ? "no result" : r.back();
                if (at == 0) { if (bad.empty() && r[0] != "ok") bad = r[0]; want = readAll(dir); if (bad.empty() && want.empty()) bad = "no files"; if (!bad.empty() || total == 0) { if (hx::begin(cn)) hx::viol("faults:harness", "without any fault: " + bad); break; } continue; } hx::count("evaluations"); hx::count("transitions", total);
                if (bad.empty() && r[0] == "ok") { auto got = readAll(dir); hx::count("states", long(got.size())); bad = complete(got, want); if (!bad.empty()) bad = "the run succeeds, but " + bad; else hx::count("harmless"); } else if (bad.empty() && r[0].compare(0, 5, "error")) bad = r[0]; else if (bad.empty()) hx::count("nontrivial");
                if (!bad.empty()) hx::viol(hx::cat("faults:run-", w, "-", m.name), hx::cat(bad, " (", r.empty() ? none : r.back(), ")")); } } }
    // ---- several processes: a call fails on one of them or on all
    struct P { const char* name; int px, py, S, N; bool functional; }; for (auto& q : std::vector<P>{{"one", 1, 1, 0, 0, true}, {"two", 2, 1, 0, 0, false}, {"four", 2, 2, 0, 0, false}, {"samples", 1, 1, 2, 2, false}, {"ensemble", 2, 1, 1, 2, true}, {"ensemble4", 1, 2, 2, 2, false}}) {
        const int ranks = q.px * q.py * std::max(1, q.S); auto c = cfgs::mk(1, "burgers", "rusanov", "none"); c.n = {{8, q.py > 1 ? 4 : 1, 1}}; c.endTime = 0.02; c.writer = "<writer><type>netcdf</type><basename>out</basename><numberOfSaves>1</numberOfSaves></writer>"; if (q.functional && !q.N) c.functionals = "<functionals><functional><name>identity</name><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>f0</basename></writer></functional></functionals>";
        std::string x = c.xml(); if (q.N) { std::string u = hx::cat("<uq><samples>", q.N, "</samples><generator>auto</generator><parameters><parameter><name>a</name><length>1</length><type>uniform</type><lower>0</lower><upper>1</upper></parameter></parameters><stats><stat><name>meanvar</name><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>mv</basename></writer></stat>", q.functional ? "<stat><name>functional</name><functionalName>identity</functionalName><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>fid</basename></writer></stat>" : "", "</stats></uq>"); auto at = x.find("</config>"); x = x.substr(0, at) + u + x.substr(at); }
        const std::string file = simx::writeFile("p.xml", x); auto init = cfgs::data(c); std::vector<std::string> res;
        auto body = [&](int r) { std::unique_ptr<mc::Quiet> qq(new mc::Quiet); try { if (!q.N) { auto s = simx::makeMpi(file, MPI_COMM_WORLD, q.px, q.py, 1); alsfvm::shared_ptr<init::InitialData> id(new simx::CellData(init)); qq.reset(); s.sim->setInitialValue(id); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); } else { alsuq::config::Setup su; auto w = std::make_shared<alsuq::mpi::Configuration>(MPI_COMM_WORLD, "cpu"); auto run = su.makeRunner(file, w, std::max(1, q.S), ivec3(q.px, q.py, 1)); qq.reset(); run->run(); } res[r] = "ok"; } catch (std::runtime_error& e) { res[r] = std::string("error ") + e.what(); throw; } catch (std::exception& e) { res[r] = std::string("other error ") + e.what(); throw; } };
        auto go = [&](int rank, long n) { wipe(); fpn::failRank(rank, n); res.assign(ranks, "unfinished"); mc::Policy pol; return mc::run(ranks, pol, {}, body); };
        auto x0 = go(-1, 0); if (!x0.clean()) { if (hx::begin(hx::cat("parallel-", q.name))) hx::viol("faults:harness", "without any fault: " + x0.what()); continue; } auto want = readFpn(); const long total = fpn::calls();
        for (int rank = ranks > 1 ? -1 : 0; rank < ranks; ++rank) for (long n = 1; n <= total; ++n) { if (!T && ranks == 4 && rank >= 0 && rank != 2) continue; if (!hx::begin(hx::cat("parallel-", q.name, "-rank", rank, "-call", n))) continue; auto e = go(rank, n); hx::count("evaluations"); hx::count("transitions", e.steps); std::string bad; bool all = true, error = false; for (auto& s : res) { all = all && s == "ok"; error = error || s.compare(0, 5, "error") == 0; if (s.compare(0, 5, "other") == 0) bad = s; }
            if (fpn::calls() < n) { if (!e.clean()) hx::viol("faults:parallel", e.what()); continue; } auto got = readFpn(); hx::count("states", long(got.size())); if (bad.empty() && all) { bad = complete(got, want); if (!bad.empty()) bad = "the run succeeds, but " + bad; else hx::count("harmless"); } else if (bad.empty() && !error) bad = "no process reports an error: " + e.what(); else hx::count("nontrivial"); const bool was = n <= fpn::calls(); if (!bad.empty() && was) hx::viol(hx::cat("faults:parallel-", q.name), bad); } }
    // ---- the command line programs: the exit status
    struct L { const char* name; bool uq; }; for (auto& q : std::vector<L>{{"alsvinncli", false}, {"alsuqcli", true}}) {
        auto c = cfgs::mk(1, "burgers", "rusanov", "none"); c.n = {{6, 1, 1}}; c.endTime = 0.02; c.writer = "<writer><type>netcdf</type><basename>out</basename><numberOfSaves>1</numberOfSaves></writer>"; std::string x = c.xml(); if (q.uq) { auto at = x.find("</config>"); x = x.substr(0, at) + "<uq><samples>2</samples><generator>auto</generator><parameters><parameter><name>a</name><length>1</length><type>uniform</type><lower>0</lower><upper>1</upper></parameter></parameters><stats><stat><name>meanvar</name><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>mv</basename></writer></stat></stats></uq>" + x.substr(at); }
        const std::string file = simx::writeFile("l.xml", x); long total = 0; for (long n = 0; n <= total; ++n) { if (n && !hx::begin(hx::cat(q.name, "-call", n))) continue; wipe(); auto r = apart([&](const std::function<void(const std::string&)>& say) { std::vector<std::string> a = {q.name, file}; std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); fpn::failRank(-1, n); int k = q.uq ? alsuqcli_main(2, v.data()) : alsvinncli_main(2, v.data()); say(hx::cat("status ", k)); say(hx::cat("calls ", fpn::calls())); }); std::string bad; if (r.size() != 2) bad = r.empty() ? "no result" : r.back(); else if (n == 0) total = atol(r[1].c_str() + 6); if (bad.empty()) { if (n == 0 ? r[0] != "status 0" : r[0] == "status 0") bad = r[0]; } hx::count("evaluations"); if (!bad.empty() && (n || hx::begin(hx::cat(q.name, "-call0")))) hx::viol(hx::cat("faults:", q.name), bad); if (n == 0 && !bad.empty()) break; } }
    return hx::finish();
}
