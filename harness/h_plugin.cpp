// C29: the protocol between alsvinn and the code a user plugs in: shared libraries and Python classes that write, shared libraries
// that generate samples.  Every call a plug-in sees is compared with the documented one.
#include "mcx.hpp"
#include "cfgs.hpp"
#include "rig.hpp"
#include "alsfvm/io/WriterFactory.hpp"
#include "alsfvm/io/MpiWriterFactory.hpp"
#include "alsuq/io/MPIWriterFactory.hpp"
#include "alsuq/distribution/DistributionFactory.hpp"
#include "alsuq/generator/GeneratorFactory.hpp"
#include "alsuq/config/Setup.hpp"
#include "alsutils/mpi/Configuration.hpp"
#include "alsfvm/python/PythonInterpreter.hpp"
#include <boost/python.hpp>
#include <mpi.h>
#include <cstring>
#include <cstdio>
using namespace simx;
typedef std::vector<double> Vec;
typedef std::map<std::string, std::string> Keys;

// ---- what the plug-ins saw
struct Ev { int set = 0, rank = 0; std::string fn, key, value; void* data = nullptr; void* par = nullptr; void* comm = nullptr; double time = 0; long a = 0, b = 0, c = 0, d = 0; std::array<int, 6> n{{0, 0, 0, 0, 0, 0}}; std::array<double, 6> box{{0, 0, 0, 0, 0, 0}}; Vec v; };
static std::vector<Ev> ev; static long handles = 0; static std::vector<std::string> py; static bool watchBarrier = false; static int creating = 0;
static std::string genFault;
static void* handle() { handles += 16; return (void*)(0x10000 + handles); }
static Ev& add(int set, const char* fn, void* data, void* par) { ev.emplace_back(); auto& e = ev.back(); e.set = set; e.fn = fn; e.data = data; e.par = par; e.rank = mc::rank(); hx::count("transitions"); return e; }
static double gen(int size, int dim, int comp, int sample) { return 0.25 + 0.0078125 * sample + 0.125 * comp + 0.001953125 * dim + size / 65536.0; }
extern "C" {
void* pl_make(int s) { void* h = handle(); add(s, "make", nullptr, h); return h; }
void pl_tell(int s, void* p, const char* k, const char* v) { auto& e = add(s, "tell", nullptr, p); e.key = k; e.value = v; }
void* pl_create(int s, const char* name, const char* version, void* p) { void* h = handle(); auto& e = add(s, "create", h, p); e.key = name; e.value = version; return h; }
void pl_drop(int s, void* d) { add(s, "drop", d, nullptr); }
void pl_unmake(int s, void* p) { add(s, "unmake", nullptr, p); }
bool pl_host(int s, void* d, void* p) { add(s, "host", d, p); return true; }
void pl_comm(int s, void* d, void* p, void* c) { add(s, "comm", d, p).comm = c; }
void pl_new(int s, void* d, void* p, double t, int n) { auto& e = add(s, "new", d, p); e.time = t; e.a = n; }
void pl_end(int s, void* d, void* p, double t, int n) { auto& e = add(s, "end", d, p); e.time = t; e.a = n; }
void pl_write(int s, void* d, void* p, double t, const char* name, const double* v, int nx, int ny, int nz, int gx, int gy, int gz, double ax, double ay, double az, double bx, double by, double bz, int gpu) {
    auto& e = add(s, "write", d, p); e.time = t; e.key = name; e.n = {{nx, ny, nz, gx, gy, gz}}; e.box = {{ax, ay, az, bx, by, bz}}; e.a = gpu;
    const long total = long(nx + 2 * gx) * (ny + 2 * gy) * (nz + 2 * gz); if (v && total > 0 && total < 100000) e.v.assign(v, v + total); }
void* pl_dcreate(int s, int size, int dim, void* p) { if (mc::managed()) mc::point(); void* h = handle(); auto& e = add(s, "create", h, p); e.a = size; e.b = dim; if (mc::managed()) mc::point(); --creating; return h; }
double pl_gen(int s, void* d, int size, int dim, int comp, int sample, void* p) { if (creating > 0) genFault = hx::cat("process ", mc::rank(), " generates a sample while ", creating, " processes have not run create"); auto& e = add(s, "gen", d, p); e.a = size; e.b = dim; e.c = comp; e.d = sample; return gen(size, dim, comp, sample); }
int __real_MPI_Barrier(MPI_Comm c);
int __wrap_MPI_Barrier(MPI_Comm c) { if (watchBarrier) py.push_back("BARRIER"); return __real_MPI_Barrier(c); }
}
static std::string library() {
    static std::string so; if (!so.empty()) return so;
    std::ofstream f(hx::scratch() + "/plug.cpp");
    f << "typedef void* P; typedef const char* S; extern \"C\" {\nP pl_make(int); void pl_tell(int, P, S, S); P pl_create(int, S, S, P); void pl_drop(int, P); void pl_unmake(int, P); bool pl_host(int, P, P); void pl_comm(int, P, P, P); void pl_new(int, P, P, double, int); void pl_end(int, P, P, double, int);\n"
         "void pl_write(int, P, P, double, S, const double*, int, int, int, int, int, int, double, double, double, double, double, double, int); P pl_dcreate(int, int, int, P); double pl_gen(int, P, int, int, int, int, P);\n"
         "#define SET(N, Q) P Q##m() { return pl_make(N); } void Q##t(P p, S k, S v) { pl_tell(N, p, k, v); } P Q##c(S n, S v, P p) { return pl_create(N, n, v, p); } void Q##d(P d) { pl_drop(N, d); } void Q##u(P p) { pl_unmake(N, p); } bool Q##h(P d, P p) { return pl_host(N, d, p); } void Q##k(P d, P p, P c) { pl_comm(N, d, p, c); } void Q##n(P d, P p, double t, int s) { pl_new(N, d, p, t, s); } void Q##e(P d, P p, double t, int s) { pl_end(N, d, p, t, s); } \\\n"
         "void Q##w(P d, P p, double t, S n, const double* v, int a, int b, int c, int x, int y, int z, double g, double h, double i, double j, double k, double l, int m) { pl_write(N, d, p, t, n, v, a, b, c, x, y, z, g, h, i, j, k, l, m); } P Q##s(int z, int n, P p) { return pl_dcreate(N, z, n, p); } double Q##g(P d, int z, int n, int c, int s, P p) { return pl_gen(N, d, z, n, c, s, p); }\nSET(0, one_) SET(1, two_)\n}\n";
    f.close(); const std::string out = hx::scratch() + "/libplug.so";
    if (system(("g++ -shared -fPIC -o '" + out + "' '" + hx::scratch() + "/plug.cpp'").c_str())) { std::fprintf(stderr, "cannot build the plug-in\n"); std::exit(2); }
    return so = out;
}

// ---- writers from shared libraries
enum { NoMake = 1, NoCreate = 2, NoNew = 4, NoEnd = 8, NoComm = 16, NoHost = 32, NoDrop = 64, Subsets = 128 };
static std::string none(int salt) { const char* n[3] = {"NONE", "none", "None"}; return n[salt % 3]; }
static Keys dllKeys(int set, int subset, int salt = 0) {
    const std::string q = set ? "two_" : "one_"; auto pick = [&](int bit, const char* f) { return subset & bit ? none(salt++) : q + f; };
    Keys k{{"type", "dll"}, {"basename", hx::cat("base", set)}, {"library", library()}, {"make_parameters_function", pick(NoMake, "m")}, {"set_parameter_function", q + "t"}, {"delete_parameters_function", q + "u"}, {"create_function", pick(NoCreate, "c")}, {"delete_function", pick(NoDrop, "d")}, {"write_function", q + "w"}, {"new_timestep_function", pick(NoNew, "n")}, {"end_timestep_function", pick(NoEnd, "e")}, {"set_mpi_comm_function", pick(NoComm, "k")}, {"needs_data_on_host_function", pick(NoHost, "h")}, {"optionA", hx::cat("value ", set, "/", subset)}, {"x", "0.1 2 -3e4"}, {"empty", ""}};
    return k;
}
struct W { double time; int step; std::vector<std::string> names; std::vector<Vec> full; std::array<int, 6> n; std::array<double, 6> box; Vec inner(size_t a) const; std::array<int, 3> gs, gp; };
Vec W::inner(size_t a) const { Vec r; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) r.push_back(full[a][(i + n[3]) + size_t(n[0] + 2 * n[3]) * ((j + n[4]) + size_t(n[1] + 2 * n[4]) * (k + n[5]))]); return r; }
static W takeW(const alsfvm::volume::Volume& v, const alsfvm::grid::Grid& g, const alsfvm::simulator::TimestepInformation& t) {
    W w; w.time = t.getCurrentTime(); w.step = int(t.getNumberOfStepsPerformed()); w.n = {{int(v.getNumberOfXCells()), int(v.getNumberOfYCells()), int(v.getNumberOfZCells()), int(v.getNumberOfXGhostCells()), int(v.getNumberOfYGhostCells()), int(v.getNumberOfZGhostCells())}};
    w.box = {{g.getOrigin().x, g.getOrigin().y, g.getOrigin().z, g.getTop().x, g.getTop().y, g.getTop().z}}; w.gs = {{int(g.getGlobalSize().x), int(g.getGlobalSize().y), int(g.getGlobalSize().z)}}; w.gp = {{int(g.getGlobalPosition().x), int(g.getGlobalPosition().y), int(g.getGlobalPosition().z)}};
    for (size_t a = 0; a < v.getNumberOfVariables(); ++a) { auto m = v.getScalarMemoryArea(a); w.names.push_back(v.getName(a)); const size_t s = size_t(w.n[0] + 2 * w.n[3]) * (w.n[1] + 2 * w.n[4]) * (w.n[2] + 2 * w.n[5]); w.full.push_back(Vec(m->getPointer(), m->getPointer() + s)); }
    return w;
}
// the calls of one writer from its construction to its end
static std::string checkCalls(const std::vector<Ev>& all, int set, int rank, int subset, const Keys& keys, const std::vector<W>& ws, int stage /*0 constructed, 1 writing, 2 finalized and destroyed*/, void* comm, bool mpi) {
    std::vector<const Ev*> e; for (auto& x : all) if (x.set == set && x.rank == rank) e.push_back(&x);
    size_t i = 0; void* par = nullptr; void* data = nullptr; auto at = [&](const char* fn) { return i < e.size() && e[i]->fn == fn; }; auto saw = [&] { return i < e.size() ? e[i]->fn : std::string("nothing"); };
    if (!(subset & NoMake)) { if (!at("make")) return "make_parameters is not the first call but " + saw(); par = e[i++]->par; Keys got; for (; at("tell"); ++i) { if (e[i]->par != par) return "set_parameter gets another parameter struct"; got[e[i]->key] = e[i]->value; } for (auto& k : keys) { auto f = got.find(k.first); if (f == got.end()) return "set_parameter was not called for " + k.first; if (f->second != k.second) return "set_parameter got " + k.first + " = '" + f->second + "' instead of '" + k.second + "'"; } }
    if (!(subset & NoCreate)) { if (!at("create")) return "create is not called before " + saw(); if (e[i]->par != par) return "create gets another parameter struct"; if (e[i]->key != "alsvinn") return "create gets the simulator name " + e[i]->key; if (e[i]->value.empty()) return "create gets no version"; data = e[i++]->data; }
    int comms = 0, hosts = 0; auto asides = [&]() -> std::string { for (; at("comm") || at("host"); ++i) { if (e[i]->data != data || e[i]->par != par) return e[i]->fn + " gets another data or parameter struct"; if (e[i]->fn == "comm") { ++comms; if (subset & NoComm) return "set_mpi_comm is called, but not configured"; if (mpi && comm && e[i]->comm != comm) return "set_mpi_comm gets another communicator"; if (mpi && !e[i]->comm) return "set_mpi_comm gets no communicator"; } else { ++hosts; if (subset & NoHost) return "needs_data_on_host is called, but not configured"; } } return ""; };
    auto bad = asides(); if (!bad.empty()) return bad;
    if (mpi && !(subset & NoComm) && comms != 1) return hx::cat("set_mpi_comm was called ", comms, " times before the first time step"); if (comms > 1) return "set_mpi_comm was called again";
    for (size_t q = 0; q < ws.size(); ++q) { auto& w = ws[q]; const std::string at1 = hx::cat("snapshot ", q + 1, ": ");
        auto step = [&](const char* fn, bool off) -> std::string { if (off) return ""; if (!at(fn)) return at1 + fn + "_timestep is missing, " + saw() + " is called"; if (e[i]->data != data || e[i]->par != par) return at1 + fn + "_timestep gets another data or parameter struct"; if (e[i]->time != w.time || e[i]->a != w.step) return at1 + hx::cat(fn, "_timestep gets time ", e[i]->time, " and number ", e[i]->a, " instead of ", w.time, " and ", w.step); ++i; return ""; };
        if (!(bad = asides()).empty() || !(bad = step("new", subset & NoNew)).empty() || !(bad = asides()).empty()) return bad;
        for (size_t a = 0; a < w.names.size(); ++a) { if (!(bad = asides()).empty()) return bad; if (!at("write")) return at1 + "variable " + w.names[a] + " is not written, " + saw() + " is called"; auto& x = *e[i++]; const auto v = at1 + "variable " + w.names[a] + ": ";
            if (x.data != data || x.par != par) return v + "write gets another data or parameter struct"; if (x.key != w.names[a]) return v + "write gets the name " + x.key; if (x.time != w.time) return v + hx::cat("write gets time ", x.time, " instead of ", w.time);
            if (x.n != w.n) return v + hx::cat("write gets the sizes ", x.n[0], " ", x.n[1], " ", x.n[2], " and ghost cells ", x.n[3], " ", x.n[4], " ", x.n[5]); if (x.box != w.box) return v + hx::cat("write gets the corners (", x.box[0], ", ", x.box[1], ", ", x.box[2], ") and (", x.box[3], ", ", x.box[4], ", ", x.box[5], ")"); if (x.v != w.full[a]) return v + "write gets other data"; if (x.a != -1) return v + hx::cat("write gets device ", x.a); }
        if (!(bad = asides()).empty() || !(bad = step("end", subset & NoEnd)).empty() || !(bad = asides()).empty()) return bad; }
    int drops = 0, unmakes = 0; for (; i < e.size(); ++i) { auto& x = *e[i]; if (x.fn == "drop") { ++drops; if (x.data != data) return "delete gets another data struct"; } else if (x.fn == "unmake") { ++unmakes; if (x.par != par) return "delete_parameters gets another parameter struct"; } else return "an unexpected call of " + x.fn; }
    const bool over = stage == 2; if (drops != (over && !(subset & NoCreate) && !(subset & NoDrop))) return hx::cat("delete was called ", drops, " times", over ? " at the end" : " before the end"); if (unmakes != (over && !(subset & NoMake))) return hx::cat("delete_parameters was called ", unmakes, " times", over ? " at the end" : " before the end");
    hx::count("states"); return "";
}
struct Maker { std::string name; std::shared_ptr<alsfvm::io::WriterFactory> f; Keys more; void* comm = nullptr; bool mpi = false; };
static std::vector<Maker> makers() {
    std::vector<Maker> m(1); m[0].name = "serial"; m[0].f = std::make_shared<alsfvm::io::WriterFactory>();
    { Maker q; q.name = "mpi"; auto conf = std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD); q.f = std::make_shared<alsfvm::io::MpiWriterFactory>(conf); q.more = {{"mpi_rank", "0"}, {"mpi_size", "1"}}; q.comm = (void*)conf->getCommunicator(); q.mpi = true; m.push_back(q); }
    { Maker q; q.name = "uq"; q.f = std::make_shared<alsuq::io::MPIWriterFactory>(std::vector<std::string>{"sample_0", "sample_1", "sample_2"}, 1, true, MPI_COMM_WORLD, MPI_INFO_NULL); q.more = {{"mpi_rank", "0"}, {"mpi_size", "1"}, {"group_names", "sample_0 sample_1 sample_2"}, {"group_index", "1"}}; q.mpi = true; m.push_back(q); }
    return m;
}
static Keys with(Keys a, const Keys& b) { for (auto& x : b) a[x.first] = x.second; return a; }
struct Src { std::shared_ptr<rig::Parts> p; rig::Vol v; std::shared_ptr<alsfvm::grid::Grid> g; };
static std::vector<Src> sources() {
    std::vector<Src> s; struct C { std::string eq; rig::I3 n; int g; }; for (auto& c : std::vector<C>{{"burgers", {{4, 1, 1}}, 1}, {"euler1", {{3, 1, 1}}, 2}, {"euler2", {{3, 2, 1}}, 1}, {"euler3", {{2, 3, 4}}, 3}, {"burgers", {{3, 5, 2}}, 2}}) { Src q; q.p = std::make_shared<rig::Parts>(c.eq, c.n, 1.4, std::array<double, 3>{{2, 0.5, 3}}, alsfvm::boundary::allPeriodic(), std::array<double, 3>{{-0.5, 0.25, 1}}); q.v = q.p->vol(c.g); { auto& g = *q.p->grid; const auto n = g.getDimensions(); const int m = int(s.size()); q.g = m == 0 ? q.p->grid : std::make_shared<alsfvm::grid::Grid>(g.getOrigin(), g.getTop(), n, g.getBoundaryConditions(), alsutils::ivec3(n.x * m, n.y > 1 ? n.y * (m - 1) : 0, n.z > 1 ? 2 * n.z : 0), alsutils::ivec3(n.x * (m + 2), n.y > 1 ? n.y * m : 1, n.z > 1 ? 3 * n.z : 1)); } int serial = 1; for (int a = 0; a < q.v.vars(); ++a) q.v.eachAll([&](int i, int j, int k) { q.v.at(a, i, j, k) = serial++ * 0.37; }); s.push_back(q); }
    return s;
}
static std::string failing(const std::function<void()>& f, const std::string& what) { try { f(); } catch (std::exception& e) { return std::string(e.what()).empty() ? what + ": refused without a message" : ""; } catch (...) { return what + ": something other than an exception of the standard library"; } return what + " is accepted"; }

// ---- writers in Python
static const char* pyClass = R"PY(
def text_of(v):
    return ' '.join('%.17g' % float(q) for q in v)
class NAME(object):
    def __init__(self, parameters):
        self.n = 0
        self.fail = parameters.get('fail', '')
        plug_record('NAME init ' + ';'.join(k + '=' + parameters[k] for k in sorted(parameters) if k != 'pythonCode'))
        if self.fail == 'init': raise ValueError('FAILURE init')
    def write(self, conserved, grid, time, timesteps):
        self.n += 1
        plug_record('NAME write %.17g %d' % (time, timesteps) + ' | ' + ' | '.join(k + ': ' + text_of(conserved[k]) for k in sorted(conserved.keys())) + ' | ' + text_of(grid['origin']) + ' | ' + text_of(grid['top']) + ' | ' + text_of(grid['global_size']) + ' | ' + text_of(grid['local_size']) + ' | ' + text_of(grid['global_position']))
        if self.fail == 'write%d' % self.n: raise ValueError('FAILURE write')
    def afterMPISync(self):
        plug_record('NAME after')
        if self.fail == 'after%d' % self.n: raise ValueError('FAILURE after')
    def finalize(self):
        plug_record('NAME finalize')
        if self.fail == 'finalize': raise ValueError('FAILURE finalize')
)PY";
static std::string replaced(std::string s, const std::string& a, const std::string& b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
static void record(const std::string& s) { py.push_back(s); hx::count("transitions"); }
static std::string num(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
template<class V> static std::string nums(const V& v, size_t from, size_t to) { std::string s; for (size_t i = from; i < to; ++i) s += (i > from ? " " : "") + num(v[i]); return s; }
static std::string initLine(const std::string& name, const Keys& k) { std::string s; for (auto& x : k) if (x.first != "pythonCode") s += (s.empty() ? "" : ";") + x.first + "=" + x.second; return name + " init " + s; }
static std::string writeLine(const std::string& name, const W& w) {
    std::map<std::string, Vec> v; for (size_t a = 0; a < w.names.size(); ++a) v[w.names[a]] = w.inner(a); std::string s = name + " write " + num(w.time) + hx::cat(" ", w.step); for (auto& x : v) s += " | " + x.first + ": " + nums(x.second, 0, x.second.size());
    return s + " | " + nums(w.box, 0, 3) + " | " + nums(w.box, 3, 6) + " | " + nums(w.gs, 0, 3) + " | " + nums(w.n, 0, 3) + " | " + nums(w.gp, 0, 3);
}
static std::string comparePy(const std::vector<std::string>& want) { for (size_t i = 0; i < std::max(want.size(), py.size()); ++i) if (i >= want.size() || i >= py.size() || want[i] != py[i]) return hx::cat("call ", i + 1, " is '", i < py.size() ? py[i].substr(0, 300) : "none", "' instead of '", i < want.size() ? want[i].substr(0, 300) : "none", "'"); hx::count("states"); return ""; }
static Keys pyKeys(const std::string& name, const std::string& fail = "") { Keys k{{"type", "python"}, {"basename", "base"}, {"pythonClass", name}, {"pythonCode", replaced(pyClass, "NAME", name)}, {"option", "a b"}, {"number", "0.125"}}; if (!fail.empty()) k["fail"] = fail; return k; }

// ---- whole runs: what any writer of the configuration is given
struct Full : alsfvm::io::Writer { std::vector<W> w; int finals = 0; void write(const alsfvm::volume::Volume& v, const alsfvm::grid::Grid& g, const alsfvm::simulator::TimestepInformation& t) override { w.push_back(takeW(v, g, t)); } void finalize(const alsfvm::grid::Grid&, const alsfvm::simulator::TimestepInformation&) override { ++finals; } };
struct FullFactory : alsfvm::io::WriterFactory { std::map<std::string, std::shared_ptr<Full>> made; alsfvm::shared_ptr<alsfvm::io::Writer> createWriter(const std::string&, const std::string& base, const alsfvm::io::Parameters&) override { auto f = std::make_shared<Full>(); made[base] = f; return f; } };
static std::string node(const Keys& k, const std::string& extra = "") { std::string s = "<writer>"; for (auto& x : k) s += "<" + x.first + ">" + replaced(replaced(x.second, "&", "&amp;"), "<", "&lt;") + "</" + x.first + ">"; return s + extra + "</writer>"; }

int main(int argc, char** argv) {
    hx::init(argc, argv); hx::quietLog(); const bool T = hx::thorough; library();
    alsfvm::python::PythonInterpreter::getInstance(); { namespace bp = boost::python; bp::import("__main__").attr("plug_record") = bp::make_function(&record); }
    auto mk = makers(); auto src = sources(); const std::vector<std::pair<double, int>> times{{0, 0}, {0.1, 3}, {1.0 / 3, 4}, {2.75, 1000000}, {1e-9, 7}};
    auto info = [&](int q) { return alsfvm::simulator::TimestepInformation(times[q % 5].first, times[q % 5].second); };
    auto writeTo = [&](alsfvm::io::Writer& w, int s, int q, std::vector<W>& ws) { auto t = info(q); ws.push_back(takeW(*src[s].v.v, *src[s].g, t)); w.write(*src[s].v.v, *src[s].g, t); };
    // every subset of the optional functions, every number of snapshots, every kind of process set-up, every source
    for (size_t m = 0; m < mk.size(); ++m) for (int subset = 0; subset < Subsets; ++subset) for (int count = 0; count <= (T ? 5 : 3); ++count) for (size_t s = 0; s < src.size(); ++s) {
        if (count == 0 && s) continue; if (!hx::begin(hx::cat("dll-", mk[m].name, "-without", subset, "-snapshots", count, "-source", s))) continue; if (hx::timeUp()) break;
        ev.clear(); std::string bad; const int set = subset % 2; Keys k = dllKeys(set, subset, count);
        try { std::vector<W> ws; auto w = mk[m].f->createWriter("dll", k["basename"], alsfvm::io::Parameters(k)); auto keys = with(k, mk[m].more); bad = checkCalls(ev, set, 0, subset, keys, ws, 0, mk[m].comm, mk[m].mpi);
            for (int q = 0; q < count && bad.empty(); ++q) { writeTo(*w, int(s), q + int(s), ws); bad = checkCalls(ev, set, 0, subset, keys, ws, 1, mk[m].comm, mk[m].mpi); } if (bad.empty()) { w->finalize(*src[s].g, info(count)); w.reset(); bad = checkCalls(ev, set, 0, subset, keys, ws, 2, mk[m].comm, mk[m].mpi); } }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
        if (!bad.empty()) hx::viol("dll-writer", bad); hx::count("executions"); hx::sample(hx::current());
    }
    // every sequence of operations on two writers at once
    { const int L = T ? 6 : 4; for (size_t m = 0; m < mk.size(); ++m) for (int len = 1; len <= L; ++len) for (long word = 0; word < long(std::pow(6, len)); ++word) {
        if (!hx::begin(hx::cat("dll-two-", mk[m].name, "-", len, "-", word))) continue; if (hx::timeUp()) break;
        ev.clear(); std::string bad; const int sub[2] = {int(word % 7 == 3 ? NoCreate : 0), int(word % 5 == 2 ? NoMake : word % 3 == 1 ? NoNew : 0)}; std::shared_ptr<alsfvm::io::Writer> w[2]; std::vector<W> ws[2]; Keys k[2]; int stage[2] = {-1, -1};
        try { long x = word; for (int t = 0; t < len && bad.empty(); ++t) { const int op = int(x % 6); x /= 6; const int o = op % 2; if (stage[o] < 0) { if (op < 4) continue; k[o] = dllKeys(o, sub[o], t); w[o] = mk[m].f->createWriter("dll", k[o]["basename"], alsfvm::io::Parameters(k[o])); stage[o] = 0; } else if (stage[o] < 2 && op < 4) { writeTo(*w[o], op < 2 ? 0 : 3, t, ws[o]); stage[o] = 1; } else if (stage[o] < 2) { w[o]->finalize(*src[0].g, info(t)); w[o].reset(); stage[o] = 2; }
            for (int z = 0; z < 2 && bad.empty(); ++z) if (stage[z] >= 0) { bad = checkCalls(ev, z, 0, sub[z], with(k[z], mk[m].more), ws[z], stage[z], mk[m].comm, mk[m].mpi); if (!bad.empty()) bad = hx::cat("writer ", z, " after operation ", t + 1, ": ", bad); } } }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
        if (!bad.empty()) hx::viol("dll-two-writers", bad); hx::count("executions");
    } }
    // a library or a function that does not exist
    { for (auto& key : dllKeys(0, 0)) for (size_t m = 0; m < mk.size(); ++m) { if (key.first.find("function") == std::string::npos && key.first != "library") continue; for (int how = 0; how < 2; ++how) { if (how == 1 && (key.first == "delete_function" || key.first == "needs_data_on_host_function")) continue;
        if (!hx::begin(hx::cat("dll-missing-", key.first, "-", mk[m].name, how))) continue; auto k = dllKeys(0, 0); if (how) k.erase(key.first); else k[key.first] = key.first == "library" ? hx::scratch() + "/libnothing.so" : "no_such_function"; if (m == 0 && !how && key.first == "set_mpi_comm_function") continue;
        ev.clear(); std::string bad = failing([&] { mk[m].f->createWriter("dll", "b", alsfvm::io::Parameters(k)); }, how ? "a missing " + key.first : "an unknown " + key.first); if (!bad.empty()) hx::viol("dll-missing", bad); hx::count("executions"); hx::count("states"); } } }
    // ---- Python classes
    for (size_t m = 0; m < mk.size(); ++m) for (int count = 0; count <= (T ? 5 : 3); ++count) for (size_t s = 0; s < src.size(); ++s) {
        if (!hx::begin(hx::cat("python-", mk[m].name, "-snapshots", count, "-source", s))) continue;
        py.clear(); std::string bad; Keys k = pyKeys("Plug"); std::vector<std::string> want; watchBarrier = true;
        try { std::vector<W> ws; auto w = mk[m].f->createWriter("python", "base", alsfvm::io::Parameters(k)); want.push_back(initLine("Plug", with(k, mk[m].more))); bad = comparePy(want); for (int q = 0; q < count && bad.empty(); ++q) { src[s].v.at(0, 0, 0, 0) += q; writeTo(*w, int(s), q, ws); want.push_back(writeLine("Plug", ws.back())); if (mk[m].mpi) want.push_back("BARRIER"); want.push_back("Plug after"); bad = comparePy(want); } if (bad.empty()) { w->finalize(*src[s].g, info(1)); want.push_back("Plug finalize"); w.reset(); bad = comparePy(want); } }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
        watchBarrier = false; if (!bad.empty()) hx::viol("python-writer", bad); hx::count("executions"); hx::sample(hx::current());
    }
    { const int L = T ? 6 : 4; for (size_t m = 0; m < mk.size(); ++m) for (int len = 1; len <= L; ++len) for (long word = 0; word < long(std::pow(4, len)); ++word) {
        if (!hx::begin(hx::cat("python-two-", mk[m].name, "-", len, "-", word))) continue; if (hx::timeUp()) break; py.clear(); watchBarrier = true; std::string bad; std::vector<std::string> want; std::shared_ptr<alsfvm::io::Writer> w[2]; const char* names[2] = {"Plug", word % 3 ? "Other" : "Plug"}; bool over[2] = {false, false};
        try { for (int o = 0; o < 2; ++o) { auto k = pyKeys(names[o]); w[o] = mk[m].f->createWriter("python", "base", alsfvm::io::Parameters(k)); want.push_back(initLine(names[o], with(k, mk[m].more))); } long x = word; for (int t = 0; t < len && bad.empty(); ++t) { const int op = int(x % 4), o = op % 2; x /= 4; if (over[o]) continue; if (op < 2) { std::vector<W> ws; writeTo(*w[o], o ? 2 : 0, t, ws); want.push_back(writeLine(names[o], ws[0])); if (mk[m].mpi) want.push_back("BARRIER"); want.push_back(std::string(names[o]) + " after"); } else { w[o]->finalize(*src[0].g, info(t)); want.push_back(std::string(names[o]) + " finalize"); over[o] = true; } bad = comparePy(want); } }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
        watchBarrier = false; if (!bad.empty()) hx::viol("python-two-writers", bad); hx::count("executions");
    } }
    // Python code that fails, at every call
    { std::vector<std::string> fails{"init", "write1", "write2", "after1", "after2", "finalize"}; for (size_t m = 0; m < mk.size(); ++m) for (auto& f : fails) for (int again = 0; again < 2; ++again) {
        if (!hx::begin(hx::cat("python-fails-", mk[m].name, "-", f, "-", again))) continue; py.clear(); std::string bad, message; int reached = 0; auto life = [&](const std::string& fail) { auto w = mk[m].f->createWriter("python", "base", alsfvm::io::Parameters(pyKeys("Plug", fail))); std::vector<W> ws; for (reached = 1; reached <= 2; ++reached) writeTo(*w, 0, reached, ws); w->finalize(*src[0].g, info(2)); };
        try { life(f); bad = "the error is not reported"; } catch (std::exception& e) { message = e.what(); if (message.find("FAILURE") == std::string::npos) bad = "the report does not contain the error: " + message; } catch (...) { bad = "something other than an exception of the standard library"; }
        if (bad.empty() && again) try { life(""); } catch (std::exception& e) { bad = std::string("a writer without errors fails afterwards: ") + e.what(); } catch (...) { bad = "a writer without errors fails afterwards"; }
        if (!bad.empty()) hx::viol("python-fails", "error in " + f + ": " + bad); hx::count("executions"); hx::count("states");
    }
    struct Wr { std::string what; std::function<void(Keys&)> f; }; std::vector<Wr> wr{{"a syntax error", [](Keys& k) { k["pythonCode"] = "class Plug(:\n"; }}, {"an unknown class", [](Keys& k) { k["pythonClass"] = "NoSuchClass"; }}, {"code that raises", [](Keys& k) { k["pythonCode"] = "raise ValueError('x')\n"; }}, {"no class", [](Keys& k) { k.erase("pythonClass"); }}, {"no code", [](Keys& k) { k.erase("pythonCode"); }}, {"a class without write", [](Keys& k) { k["pythonCode"] = "class Plug(object):\n  def __init__(self, p):\n    pass\n  def finalize(self):\n    pass\n"; }}, {"a constructor without arguments", [](Keys& k) { k["pythonCode"] = "class Plug(object):\n  def __init__(self):\n    pass\n"; }}};
    for (size_t m = 0; m < mk.size(); ++m) for (auto& x : wr) { if (!hx::begin("python-wrong-" + mk[m].name + "-" + x.what)) continue; auto k = pyKeys("Plug"); x.f(k); auto bad = failing([&] { auto w = mk[m].f->createWriter("python", "base", alsfvm::io::Parameters(k)); std::vector<W> ws; writeTo(*w, 0, 0, ws); }, x.what); if (!bad.empty()) hx::viol("python-wrong", bad); hx::count("executions"); hx::count("states"); }
    }
    // ---- whole runs: the plug-ins are told exactly what every other writer is told
    { struct R { std::string eq; rig::I3 n; std::array<int, 3> procs; std::string extra; int subset; }; std::vector<R> rs{{"burgers", {{8, 1, 1}}, {{1, 1, 1}}, "<numberOfSaves>3</numberOfSaves>", 0}, {"burgers", {{8, 1, 1}}, {{1, 1, 1}}, "", NoNew}, {"euler2", {{4, 6, 1}}, {{1, 1, 1}}, "<numberOfSaves>2</numberOfSaves><writeInitialTimestep>true</writeInitialTimestep>", NoComm}, {"burgers", {{8, 1, 1}}, {{2, 1, 1}}, "<numberOfSaves>2</numberOfSaves>", 0}, {"euler2", {{4, 6, 1}}, {{2, 1, 1}}, "<numberOfSaves>2</numberOfSaves>", NoHost}, {"euler2", {{4, 6, 1}}, {{1, 3, 1}}, "<numberOfSaves>2</numberOfSaves>", NoMake}, {"euler3", {{4, 4, 4}}, {{2, 2, 1}}, "<numberOfSaves>1</numberOfSaves>", NoEnd}, {"euler1", {{9, 1, 1}}, {{3, 1, 1}}, "<time>0.03</time><timeRadius>0.02</timeRadius>", 0}};
      int id = 0; for (auto& r : rs) for (int fn = 0; fn < 2; ++fn) for (int pol = 0; pol < (T ? 4 : 2); ++pol) {
        if (!hx::begin(hx::cat("run-dll-", id++, "-", r.eq, "-", r.procs[0], r.procs[1], r.procs[2], "-functionals", fn, "-policy", pol))) continue; const int ranks = r.procs[0] * r.procs[1] * r.procs[2]; if (ranks == 1 && pol > 1) continue; const int dim = r.n[2] > 1 ? 3 : r.n[1] > 1 ? 2 : 1;
        Cfg c = cfgs::mk(dim, r.eq, r.eq == "burgers" ? "rusanov" : "hll", "none"); c.n = r.n; for (int d = dim; d < 3; ++d) c.lower[d] = c.upper[d] = 0; c.lower[0] = -0.25; c.endTime = 0.06; Keys k0 = dllKeys(0, r.subset, id), k1 = dllKeys(1, 0, id); c.writer = node(k0, r.extra); if (fn) c.functionals = "<functionals><functional><name>moment</name><p>2</p><degree_k>1</degree_k><degree_n>1</degree_n><degree_m>1</degree_m><minValue>-100</minValue><maxValue>100</maxValue><variables>" + std::string(r.eq == "burgers" ? "u" : "rho E") + "</variables>" + node(k1) + "<numberOfSaves>2</numberOfSaves></functional></functionals>";
        c.functionals = replaced(c.functionals, "<name>moment</name>", dim == 2 ? "<name>legendre</name>" : ranks == 1 && pol ? "<name>structure_cube</name><numberOfH>2</numberOfH>" : "<name>identity</name>");
        const std::string file = writeFile("run.xml", c.xml()); auto init = [&](int v, int i, int j, int k) { const double x = 1 + 0.1 * ((i * 7 + j * 3 + k * 5) % 4); return v == 0 ? x : v == c.nvar() - 1 ? 3 + 0.2 * x : 0.1 * x; };
        std::vector<std::shared_ptr<FullFactory>> ff(ranks); std::string bad; ev.clear();
        for (int pass = 0; pass < 2 && bad.empty(); ++pass) { mc::Policy p = mc::Policy::all(true)[pol % mc::Policy::all(true).size()];
            auto e = mc::run(ranks, p, {}, [&](int me) { std::shared_ptr<alsfvm::io::WriterFactory> f; if (!pass) f = ff[me] = std::make_shared<FullFactory>(); else if (ranks > 1 || pol) f = std::make_shared<alsfvm::io::MpiWriterFactory>(std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD)); else f = std::make_shared<alsfvm::io::WriterFactory>(); auto s = ranks > 1 || pol ? makeMpi(file, MPI_COMM_WORLD, r.procs[0], r.procs[1], r.procs[2], f) : makeWith(file, f); std::shared_ptr<alsfvm::init::InitialData> data = std::make_shared<CellData>(init); s.sim->setInitialValue(data); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); });
            if (!e.clean()) bad = e.what(); }
        for (int me = 0; me < ranks && bad.empty(); ++me) for (int set = 0; set <= fn && bad.empty(); ++set) { auto keys = set ? k1 : k0; if (ranks > 1 || pol) { keys["mpi_rank"] = hx::cat(me); keys["mpi_size"] = hx::cat(ranks); } auto rec = ff[me]->made[hx::cat("base", set)]; if (!rec) { bad = "no recorder"; break; } if (rec->w.empty()) bad = "nothing is written"; if (bad.empty()) bad = checkCalls(ev, set, me, set ? 0 : r.subset, keys, rec->w, 2, nullptr, ranks > 1 || pol); if (!bad.empty()) bad = hx::cat("process ", me, set ? ", functional: " : ", solution: ", bad); }
        if (!bad.empty()) hx::viol("run-dll", bad); hx::count("executions"); hx::sample(hx::current());
      }
      for (int k = 0; k < 6; ++k) { if (!hx::begin(hx::cat("run-python-", k))) continue; const int dim = 1 + k % 3; Cfg c = cfgs::mk(dim, cfgs::spatialDims(dim), "hll", "none"); c.n = {{6, dim > 1 ? 4 : 1, dim > 2 ? 4 : 1}}; for (int d = dim; d < 3; ++d) c.upper[d] = 0; c.endTime = 0.05; writeFile("plug.py", replaced(pyClass, "NAME", "Plug")); Keys keys = pyKeys("Plug"); keys["pythonCode"] = "load:plug.py"; c.writer = node(keys, k < 3 ? "<numberOfSaves>2</numberOfSaves>" : "");
        std::string x = c.xml(); writeFile("init0.py", "rho = 1 + 0.25*abs(x)\nux = 0.1\np = 2 + 0.1*sin(x)\n" + std::string(dim > 1 ? "uy = 0.2\n" : "") + (dim > 2 ? "uz = 0.3\n" : "")); x = replaced(x, "init.py", "init0.py"); const auto file = writeFile("py.xml", x); auto ff = std::make_shared<FullFactory>(); std::string bad; py.clear(); watchBarrier = true; auto life = [&](Sim s) { s.sim->setInitialValue(s.init); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); };
        try { life(makeWith(file, ff)); std::vector<std::string> want; Keys shown = keys; if (k < 3) shown["numberOfSaves"] = "2"; want.push_back(initLine("Plug", shown)); for (auto& w : ff->made["base"]->w) { want.push_back(writeLine("Plug", w)); want.push_back("Plug after"); } want.push_back("Plug finalize"); py.clear(); life(make(file)); bad = comparePy(want); } catch (std::exception& e) { bad = e.what(); }
        watchBarrier = false; if (!bad.empty()) hx::viol("run-python", bad); hx::count("executions"); }
    }
    // ---- distributions from shared libraries
    auto distKeys = [&](int set, int subset, int salt) { const std::string q = set ? "two_" : "one_"; return Keys{{"type", "dll"}, {"name", "A"}, {"length", "3"}, {"library", library()}, {"make_parameters_function", subset & 1 ? none(salt) : q + "m"}, {"set_parameter_function", q + "t"}, {"delete_parameters_function", q + "u"}, {"create_function", subset & 2 ? none(salt + 1) : q + "s"}, {"delete_function", subset & 4 ? none(salt + 2) : q + "d"}, {"generator_function", q + "g"}, {"optionA", "some value"}, {"scale", "1e-3"}}; };
    struct Call { int comp, sample; };
    auto checkDist = [&](int set, int rank, int ranks, int subset, const Keys& keys, int size, int dim, const std::vector<Call>& calls, bool over) -> std::string {
        std::vector<const Ev*> e; for (auto& x : ev) if (x.set == set && x.rank == rank) e.push_back(&x); size_t i = 0; void* par = nullptr; void* data = nullptr; auto at = [&](const char* fn) { return i < e.size() && e[i]->fn == fn; };
        if (!(subset & 1)) { if (!at("make")) return "make_parameters is not the first call"; par = e[i++]->par; Keys got; for (; at("tell"); ++i) { if (e[i]->par != par) return "set_parameter gets another parameter struct"; got[e[i]->key] = e[i]->value; } Keys want = with(keys, {{"mpi_node", hx::cat(rank)}, {"mpi_size", hx::cat(ranks)}}); for (auto& k : want) if (!got.count(k.first) || got[k.first] != k.second) return "set_parameter got " + k.first + " = '" + (got.count(k.first) ? got[k.first] : "nothing") + "' instead of '" + k.second + "'"; }
        if (!(subset & 2)) { if (!at("create")) return "create is not called"; if (e[i]->par != par) return "create gets another parameter struct"; if (e[i]->a != size || e[i]->b != dim) return hx::cat("create gets size ", e[i]->a, " and dimension ", e[i]->b, " instead of ", size, " and ", dim); data = e[i++]->data; }
        for (auto& c : calls) { if (!at("gen")) return "the generator is not called"; auto& x = *e[i++]; if (x.data != data || x.par != par) return "the generator gets another data or parameter struct"; if (x.a != size || x.b != dim || x.c != c.comp || x.d != c.sample) return hx::cat("the generator gets size ", x.a, " dimension ", x.b, " component ", x.c, " sample ", x.d, " instead of ", size, " ", dim, " ", c.comp, " ", c.sample); }
        if (over && !(subset & 2) && !(subset & 4)) { if (!at("drop")) return "the data is not deleted first"; if (e[i++]->data != data) return "delete gets another data struct"; } if (over && !(subset & 1)) { if (!at("unmake")) return "the parameters are not deleted"; if (e[i++]->par != par) return "delete_parameters gets another parameter struct"; } if (i < e.size()) return "an unexpected call of " + e[i]->fn; hx::count("states"); return ""; };
    auto makeDist = [&](const Keys& k, int dim, int size) { return alsuq::distribution::DistributionFactory().createDistribution("dll", dim, size, alsuq::distribution::Parameters(k)); };
    alsuq::generator::GeneratorFactory gf; auto gene = gf.makeGenerator("stlmersenne", 3, 10, 0, 3);
    for (int subset = 0; subset < 8; ++subset) for (int size : {1, 2, 7, 1000}) for (int dim : {1, 3, 40}) for (int len = 0; len <= (T ? 4 : 3); ++len) for (long word = 0; word < long(std::pow(4, len)); ++word) {
        if (!hx::begin(hx::cat("distribution-without", subset, "-", size, "-", dim, "-", len, "-", word))) continue; if (hx::timeUp()) break;
        ev.clear(); creating = 0; std::string bad; auto k = distKeys(subset % 2, subset, int(word)); std::vector<Call> calls;
        try { auto d = makeDist(k, dim, size); bad = checkDist(subset % 2, 0, 1, subset, k, size, dim, calls, false); long x = word; for (int t = 0; t < len && bad.empty(); ++t, x /= 4) { Call c{x % 2 ? dim - 1 : 0, x / 2 % 2 ? size - 1 : 0}; calls.push_back(c); const double v = d->generate(*gene, c.comp, c.sample); if (v != gen(size, dim, c.comp, c.sample)) bad = hx::cat("the value of the library is replaced by ", v); if (bad.empty()) bad = checkDist(subset % 2, 0, 1, subset, k, size, dim, calls, false); } d.reset(); if (bad.empty()) bad = checkDist(subset % 2, 0, 1, subset, k, size, dim, calls, true); }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); } if (!bad.empty()) hx::viol("distribution", bad); hx::count("executions");
    }
    for (auto& key : distKeys(0, 0, 0)) for (int how = 0; how < 2; ++how) { if (key.first.find("function") == std::string::npos && key.first != "library") continue; if (!hx::begin(hx::cat("distribution-missing-", key.first, how))) continue; auto k = distKeys(0, 0, 0); if (how) k.erase(key.first); else k[key.first] = key.first == "library" ? hx::scratch() + "/libnothing.so" : "no_such_function"; auto bad = failing([&] { makeDist(k, 1, 1); }, "a missing " + key.first); if (!bad.empty()) hx::viol("distribution-missing", bad); hx::count("executions"); hx::count("states"); }
    // no process generates before every process has created, whatever the schedule
    for (int ranks = 1; ranks <= (T ? 4 : 3); ++ranks) for (int subset : {0, 1}) for (size_t pol = 0; pol < mc::Policy::all(T).size(); ++pol) {
        if (!hx::beginHere(hx::cat("distribution-processes-", ranks, "-", subset, "-", pol))) continue; if (!T && pol > 1 && ranks > 2) continue; auto k = distKeys(0, subset, 1); const int n = ranks;
        mcx::exploreCase(n, {mc::Policy::all(T)[pol]}, T ? 2 : 1, T ? 20000 : 3000, [&] { ev.clear(); creating = n; genFault.clear(); }, [&](int) { auto d = makeDist(k, 2, 5); std::shared_ptr<alsuq::generator::Generator> g = alsuq::generator::GeneratorFactory().makeGenerator("stlmersenne", 2, 5, 0, 2); for (int s = 0; s < 2; ++s) for (int c = 0; c < 2; ++c) d->generate(*g, c, s); },
            [&](const mc::Exec&) -> std::string { if (!genFault.empty()) return genFault; for (int r = 0; r < n; ++r) { auto b = checkDist(0, r, n, subset, k, 5, 2, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}, true); if (!b.empty()) return hx::cat("process ", r, ": ", b); } return ""; }, "distribution-processes", false, true);
    }
    creating = 0;
    // whole ensembles: the samples start with the values of the library
    for (int N = 1; N <= (T ? 4 : 3); ++N) for (int start : {0, 2}) for (int both = 0; both < 2; ++both) {
        if (!hx::begin(hx::cat("ensemble-", N, "-", start, "-", both))) continue; Cfg c = cfgs::mk(1, "burgers", "rusanov"); c.n = {{4, 1, 1}}; c.upper[1] = c.upper[2] = 0; c.endTime = 0.01; auto kw = dllKeys(1, 0, 1); kw["basename"] = "sol"; c.writer = node(kw, "<numberOfSaves>1</numberOfSaves><writeInitialTimestep>true</writeInitialTimestep>"); writeFile("ens.py", "u = A[0] + 2*A[2] + 0.01*i" + std::string(both ? " + 0.5*B" : "") + "\n"); std::string x = replaced(c.xml(), "<python>init.py</python>", "<python>ens.py</python><parameters><parameter><name>A</name><length>3</length><values><value>0</value></values></parameter>" + std::string(both ? "<parameter><name>B</name><length>1</length><value>0</value></parameter>" : "") + "</parameters>");
        auto k = distKeys(0, 0, 1); auto par = [&](Keys k) { std::string s = "<parameter>"; for (auto& q : k) s += "<" + q.first + ">" + q.second + "</" + q.first + ">"; return s + "</parameter>"; }; std::string uq = hx::cat("<uq><samples>", N, "</samples>", start ? hx::cat("<sampleStart>", start, "</sampleStart>") : std::string(), "<generator>auto</generator><parameters>") + par(k); Keys k2 = distKeys(0, 0, 0); k2["name"] = "B"; k2["length"] = "1"; if (both) uq += par(k2); uq += "</parameters><stats></stats></uq>";
        x = replaced(x, "</config>", uq + "</config>"); const auto file = writeFile("ens.xml", x); std::string bad; ev.clear();
        try { { auto conf = std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD); auto runner = alsuq::config::Setup().makeRunner(file, conf, 1, alsutils::ivec3(1, 1, 1)); runner->run(); }
            std::vector<Vec> got; std::vector<const Ev*> w; for (auto& e : ev) if (e.set == 1 && e.fn == "write") w.push_back(&e); if (int(w.size()) != 2 * N) bad = hx::cat(w.size(), " variables were written instead of ", 2 * N);
            std::map<std::string, int> n; for (auto& e : ev) n[hx::cat(e.set, e.fn)]++; auto want = [&](const char* f, int q) { if (bad.empty() && n[f] != q) bad = hx::cat(f + 1, " was called ", n[f], " times instead of ", q); }; want("0create", 1 + both); want("0make", 1 + both); want("0drop", 1 + both); want("0unmake", 1 + both); want("1create", N); want("1make", N); want("1drop", N); want("1unmake", N); want("1new", 2 * N);
            for (int s = 0; s < N && bad.empty(); ++s) { auto& e = *w[2 * s]; for (int i = 0; i < 4 && bad.empty(); ++i) { const int q = start + s; const double u = gen(N, 3, 0, q) + 2 * gen(N, 3, 2, q) + 0.01 * i + (both ? 0.5 * gen(N, 1, 0, q) : 0); if (std::fabs(e.v.at(i + e.n[3]) - u) > 1e-12) bad = hx::cat("sample ", q, " starts with ", e.v.at(i + e.n[3]), " instead of ", u, " in cell ", i); } } if (bad.empty()) hx::count("states"); }
        catch (std::exception& e) { bad = std::string("refused: ") + e.what(); } if (!bad.empty()) hx::viol("ensemble", bad); hx::count("executions");
    }
    return hx::finish();
}
