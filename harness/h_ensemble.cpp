// C19 (-DMODE=19), C20 (20), C21 (21): whole ensemble runs through the configuration file, on every process layout and schedule.
#include "rig.hpp"
#include "mcx.hpp"
#include "fakepnetcdf.hpp"
#include "alsuq/config/Setup.hpp"
#include "alsfvm/init/PythonInitialData.hpp"
#include "alsfvm/integrator/TimestepAdjuster.hpp"
#include <boost/property_tree/ptree.hpp>
#include <mpi.h>
#include <random>
#ifndef MODE
#define MODE 21
#endif
using namespace rig;
// ---- initial data: computed here from the parameters the sample was given (the interpreter is not under study)
struct Seen { int rank; std::vector<std::pair<std::string, Vec>> pars; I3 pos, n, global; };
static std::vector<Seen> seen;
static simx::Cfg* theCfg; static void (*onInitial)() = nullptr;
static double initial(const simx::Cfg& c, const Vec& a, double b, int var, int i, int j, int k) {
    auto s = [&](int q) { return std::sin(2 * M_PI * (i + 0.3 * q) / c.n[0] + a[1]) + (c.n[1] > 1 ? 0.7 * std::cos(2 * M_PI * (j + 0.2 * q) / c.n[1] + b) : 0) + (c.n[2] > 1 ? 0.5 * std::sin(2 * M_PI * (k + 0.1 * q) / c.n[2]) : 0); };
    if (!c.euler()) return a[0] * (0.6 + 0.2 * s(1)) + 0.3 * b; std::vector<double> w(c.nvar()); w[0] = 1 + 0.2 * a[0] * s(1); for (size_t d = 1; d + 1 < w.size(); ++d) w[d] = b * 0.5 + 0.2 * s(int(d) + 1); w.back() = 1 + a[0] + 0.1 * s(5); return simx::eulerConserved(w, c.gamma)[var];
}
namespace alsfvm { namespace init {
PythonInitialData::PythonInitialData(const std::string& p, const Parameters& q) : parameters(q), programString(p) {}
void PythonInitialData::setParameters(const Parameters& p) { parameters = p; }
boost::property_tree::ptree PythonInitialData::getDescription() const { return boost::property_tree::ptree(); }
void PythonInitialData::setInitialData(volume::Volume& v, volume::Volume& w, equation::CellComputer& cc, grid::Grid& g) {
    Seen s; s.rank = mc::rank(); for (auto& n : parameters.getParameterNames()) { auto& x = parameters.getParameter(n); s.pars.push_back({n, Vec(x.begin(), x.end())}); }
    for (int d = 0; d < 3; ++d) { s.pos[d] = g.getGlobalPosition()[d]; s.n[d] = g.getDimensions()[d]; s.global[d] = g.getGlobalSize()[d]; } seen.push_back(s);
    Vec a = s.pars.size() > 0 ? s.pars[0].second : Vec{0, 0}; double b = s.pars.size() > 1 && s.pars[1].second.size() ? s.pars[1].second[0] : 0; a.resize(2); auto& c = *theCfg;
    simx::CellData([&](int var, int i, int j, int k) { return initial(c, a, b, var, i, j, k); }).setInitialData(v, w, cc, g); if (onInitial) onInitial();
}
}}
// ---- the parameters each sample must get: the generator's sequence in the order of the samples and of the parameter names
struct Gen { std::string type = "uniform"; double lower = 0.5, upper = 1.5; };
struct Ens { simx::Cfg c; int N = 4, start = 0; Gen a, b{"uniform", -1, 1}; bool swapped = false; int saves = 2, saves2 = 3; bool stats2 = true; std::string generator = "auto"; bool writer = true; double window = -1, radius = 0.02; bool initialToo = false; };
static void wanted(const Ens& e, int sample, Vec& a, double& b) {
    std::mt19937_64 g; std::uniform_real_distribution<double> u(0, 1); Vec x;   // every parameter has its part of the one sequence
    auto val = [&](const Gen& q, double r) { return q.type == "uniform1d" ? q.lower + (q.upper - q.lower) / e.N * (sample + 0.5) : q.lower + (q.upper - q.lower) * r; };
    for (int s = 0; s <= sample; ++s) x = {u(g), u(g), u(g)};
    a = {val(e.a, x[0]), val(e.a, x[1])}; b = val(e.b, x[2]);
}
static std::string xml(const Ens& e) {
    simx::Cfg c = e.c; if (e.writer) c.writer = hx::cat("<writer><type>netcdf</type><basename>sol</basename><numberOfSaves>", e.saves, "</numberOfSaves></writer>");
    auto par = [&](const char* n, int len, const Gen& g) { return hx::cat("<parameter><name>", n, "</name><length>", len, "</length><type>", g.type, "</type>", g.type == "uniform" ? hx::cat("<lower>", g.lower, "</lower><upper>", g.upper, "</upper>") : hx::cat("<a>", g.lower, "</a><b>", g.upper, "</b>"), "</parameter>"); };
    auto st = [&](const std::string& n, const std::string& extra, const std::string& base, int saves, bool init = false) { return hx::cat("<stat><name>", n, "</name>", extra, saves ? hx::cat("<numberOfSaves>", saves, "</numberOfSaves>") : std::string(), init ? "<writeInitialTimestep>1</writeInitialTimestep>" : "", "<writer><type>netcdf</type><basename>", base, "</basename></writer></stat>"); };
    std::string A = par("a", 2, e.a), B = par("b", 1, e.b), u = hx::cat("<uq><samples>", e.N, "</samples>", e.start ? hx::cat("<sampleStart>", e.start, "</sampleStart>") : std::string(), "<generator>", e.generator, "</generator><parameters>", e.swapped ? B + A : A + B, "</parameters><stats>");
    u += st(" meanvar ", "", "mv", e.saves, e.initialToo); if (e.stats2) { u += st("onepointmoment", "<p>3</p>", "opm", e.saves2); u += st("functional", "<functionalName>identity</functionalName>", "fid", e.saves); u += st("functional", "<functionalName>moment</functionalName><degree>2</degree>", "fmo", e.saves2, true); u += st("meanvar", "", "mvb", 1); }
    if (e.window >= 0) u += st("functional_time_integrated", hx::cat("<functionalName>identity</functionalName><time>", e.window, "</time><timeRadius>", e.radius, "</timeRadius>"), "fti", 0);
    u += "</stats></uq>"; std::string x = c.xml(); auto at = x.find("</config>"); return x.substr(0, at) + u + x.substr(at);
}
// ---- each sample alone on one process
struct SaveAt : io::Writer, integrator::TimestepAdjuster { Vec times; size_t next = 0; simx::Snapshots snaps;
    real adjustTimestep(real dt, const simulator::TimestepInformation& t) const override { return next < times.size() ? std::min<double>(dt, times[next] - t.getCurrentTime()) : dt; }
    void write(const volume::Volume& v, const grid::Grid& g, const simulator::TimestepInformation& t) override { if (next < times.size() && t.getCurrentTime() >= times[next]) { snaps.push_back(simx::take(v, g, t.getCurrentTime(), 0)); ++next; } } };
struct Alone { std::map<int, simx::Snapshots> at; simx::Snapshots each; };   // by number of saves (initial state first)
static Alone alone(const Ens& e, int sample) {
    Vec a; double b; wanted(e, sample, a, b); Alone r; auto& c = e.c; auto sm = simx::makeMpi(simx::writeFile("ref.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1, std::make_shared<simx::RecorderFactory>()); auto each = std::make_shared<simx::Recorder>(); sm.sim->addWriter(each);
    std::vector<int> S{e.saves}; if (e.stats2) { S.push_back(e.saves2); S.push_back(1); } std::map<int, std::shared_ptr<SaveAt>> w;
    for (int s : S) if (!w.count(s)) { auto q = std::make_shared<SaveAt>(); for (int k = 0; k <= s; ++k) q->times.push_back(k == s ? c.endTime : c.endTime * k / s); w[s] = q; sm.sim->addWriter(q); std::shared_ptr<integrator::TimestepAdjuster> t = q; sm.sim->addTimestepAdjuster(t); }
    alsfvm::shared_ptr<init::InitialData> d(new simx::CellData([&](int var, int i, int j, int k) { return initial(c, a, b, var, i, j, k); })); sm.sim->setInitialValue(d); sm.sim->callWriters(); while (!sm.sim->atEnd()) sm.sim->performStep();
    for (auto& x : w) r.at[x.first] = x.second->snaps; r.each = each->snaps; return r;
}
static const fpn::File* file(const std::string& name) { for (auto& f : fpn::files()) { auto s = f.first.rfind('/'); if ((s == std::string::npos ? f.first : f.first.substr(s + 1)) == name) return &f.second; } return nullptr; }
// every cell of a variable of a file, x fastest, whatever the order its axes are stored in
static std::string contents(const fpn::File& f, const std::string& var, I3 n, Vec& out) {
    auto* v = f.var(var); if (!v) return "no variable " + var; if (v->dims.size() != 3) return var + " is not three-dimensional"; long long st[3] = {0, 0, 0}, mul = 1;
    for (int q = 2; q >= 0; --q) { auto& d = f.dims[v->dims[q]]; int ax = d.first == "x" ? 0 : d.first == "y" ? 1 : d.first == "z" ? 2 : -1; if (ax < 0 || st[ax]) return var + " has wrong axes"; if (d.second != n[ax]) return hx::cat(var, " has length ", d.second, " along ", d.first, " instead of ", n[ax]); st[ax] = mul; mul *= d.second; }
    out.clear(); for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) { size_t at = i * st[0] + j * st[1] + k * st[2]; if (v->written[at] != 1) return hx::cat(var, ": cell ", i, ",", j, ",", k, " was written ", v->written[at], " times"); out.push_back(v->data[at]); } return "";
}
static std::string same(const Vec& got, const Vec& want, const std::string& what, double tol = 1e-9) { if (got.size() != want.size()) return what + ": wrong size"; double sc = 1; for (double x : want) sc = std::max(sc, std::fabs(x)); for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= tol * sc)) return hx::cat(what, ": cell ", i, " is ", got[i], " instead of ", want[i]); return ""; }
static std::string checkFile(const std::string& name, double time, I3 n, const std::vector<std::string>& vars, const std::vector<Vec>& want) {
    auto* f = file(name); if (!f) return "file " + name + " was not written"; if (f->closes != 1 && false) return name + " not closed"; if (f->open) return name + " was not closed"; auto* t = f->var("time"); if (!t || t->data.size() != 1 || !(std::fabs(t->data[0] - time) <= 1e-12)) return hx::cat(name, ": time is ", t && t->data.size() ? t->data[0] : NAN, " instead of ", time);
    for (size_t a = 0; a < vars.size(); ++a) { Vec got; auto bad = contents(*f, vars[a], n, got); if (bad.empty()) bad = same(got, want[a], vars[a]); if (!bad.empty()) return name + ": " + bad; } return "";
}
struct Layout { int ms; I3 sp; int ranks() const { return ms * sp[0] * sp[1] * sp[2]; } };
static std::string show(const Layout& l) { return hx::cat(l.ms, "x(", l.sp[0], ",", l.sp[1], ",", l.sp[2], ")"); }
static std::string verify(const Ens& e, const Layout& l, const std::map<int, Alone>& ref) {
    const int G = l.sp[0] * l.sp[1] * l.sp[2]; std::map<int, std::vector<int>> by;   // rank -> samples
    for (auto& s : seen) { int found = -1; for (int k = e.start; k < e.start + e.N; ++k) { Vec a; double b; wanted(e, k, a, b); if (s.pars.size() == 2 && s.pars[0].first == "a" && s.pars[1].first == "b" && s.pars[0].second == a && s.pars[1].second == Vec{b}) found = k; }
        if (found < 0) return hx::cat("process ", s.rank, " ran a sample with parameters that belong to no sample: a = ", s.pars.size() > 0 && s.pars[0].second.size() > 1 ? hx::cat(s.pars[0].second[0], " ", s.pars[0].second[1]) : "?", " b = ", s.pars.size() > 1 && s.pars[1].second.size() ? s.pars[1].second[0] : NAN); by[s.rank].push_back(found); }
    std::map<int, int> times; for (int r = 0; r < l.ranks(); ++r) { if (by[r] != by[r / G * G]) return hx::cat("processes ", r, " and ", r / G * G, " of one group do not run the same samples"); if (r % G == 0) for (int k : by[r]) times[k]++; }
#if MODE == 19 || MODE == 20
    for (int k = e.start; k < e.start + e.N; ++k) if (times[k] != 1) return hx::cat("sample ", k, " was computed ", times[k], " times");
#endif
    const I3 n{{e.c.n[0], e.c.n[1], e.c.n[2]}};
#if MODE == 20
    if (e.writer) for (int t = 0; t < e.saves; ++t) { auto* f = file(hx::cat("sol_", t, ".nc")); if (!f) return hx::cat("output ", t, " of the samples was not written"); size_t vars = 0;
        for (auto& r : ref) { auto& s = r.second.at.at(e.saves).at(t + 1); for (size_t a = 0; a < s.names.size(); ++a) { Vec got; std::string nm = hx::cat("sample_", r.first, "_", s.names[a]); auto bad = contents(*f, nm, n, got); if (bad.empty()) bad = same(got, s.v[a], nm); if (!bad.empty()) return hx::cat("output ", t, ": ", bad); ++vars; } }
        if (f->vars.size() != vars + 1) return hx::cat("output ", t, " has ", f->vars.size(), " variables instead of ", vars + 1); }
#elif MODE == 21
    auto stat = [&](int saves, int t, int what) { std::vector<Vec> r; for (auto& x : ref) { auto& s = x.second.at.at(saves).at(t); if (r.empty()) r.assign(s.v.size(), Vec(s.v[0].size(), 0)); for (size_t a = 0; a < s.v.size(); ++a) for (size_t c = 0; c < s.v[a].size(); ++c) r[a][c] += std::pow(s.v[a][c], what) / e.N; } return r; };
    auto var = [&](int saves, int t) { auto m = stat(saves, t, 1), r = m; for (size_t a = 0; a < r.size(); ++a) for (size_t c = 0; c < r[a].size(); ++c) { long double q = 0; for (auto& x : ref) { double d = x.second.at.at(saves).at(t).v[a][c] - m[a][c]; q += d * d; } r[a][c] = double(q / e.N); } return r; };
    auto names = ref.begin()->second.each[0].names; std::string bad; const double E = e.c.endTime; size_t files = e.writer ? e.saves : 0;
    for (int t = e.initialToo ? 0 : 1, k = 0; t <= e.saves && bad.empty(); ++t, ++k) { bad = checkFile(hx::cat("mv_mean_", k, ".nc"), E * t / e.saves, n, names, stat(e.saves, t, 1)); if (bad.empty()) bad = checkFile(hx::cat("mv_variance_", k, ".nc"), E * t / e.saves, n, names, var(e.saves, t)); files += 2; }
    if (e.stats2) { for (int t = 1; t <= e.saves2 && bad.empty(); ++t) { bad = checkFile(hx::cat("opm_m3_", t - 1, ".nc"), E * t / e.saves2, n, names, stat(e.saves2, t, 3)); ++files; }
        for (int t = 1; t <= e.saves && bad.empty(); ++t) { bad = checkFile(hx::cat("fid_mean_identity_", t - 1, ".nc"), E * t / e.saves, n, names, stat(e.saves, t, 1)); ++files; }
        for (int t = 0; t <= e.saves2 && bad.empty(); ++t) { bad = checkFile(hx::cat("fmo_mean_moment_", t, ".nc"), E * t / e.saves2, n, names, stat(e.saves2, t, 2)); ++files; }
        if (bad.empty()) { bad = checkFile("mvb_mean_0.nc", E, n, names, stat(1, 1, 1)); if (bad.empty()) bad = checkFile("mvb_variance_0.nc", E, n, names, var(1, 1)); files += 2; } }
    if (e.window >= 0 && bad.empty()) { std::vector<Vec> w(names.size(), Vec(ref.begin()->second.each[0].v[0].size(), 0)); for (auto& x : ref) for (size_t s = 1; s < x.second.each.size(); ++s) { auto& q = x.second.each[s]; double dt = std::min(q.time, e.window + e.radius) - std::max(x.second.each[s - 1].time, e.window - e.radius); if (dt > 0) for (size_t a = 0; a < w.size(); ++a) for (size_t c = 0; c < w[a].size(); ++c) w[a][c] += dt * q.v[a][c] / e.N; } bad = checkFile("fti_mean_identity_0.nc", e.window, n, names, w); ++files; }
    if (bad.empty() && fpn::files().size() != files) bad = hx::cat(fpn::files().size(), " files written instead of ", files); return bad;
#endif
    (void)ref; return "";
}
static void reset() { seen.clear(); fpn::reset(); }
static void ensemble(const std::string& f, const Layout& l) { auto conf = std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD); auto runner = alsuq::config::Setup().makeRunner(f, conf, l.ms, ivec3(l.sp[0], l.sp[1], l.sp[2])); runner->run(); }
static void accepted(const std::string& label, Ens e, const Layout& l, const std::vector<mc::Policy>& pol, int dev, long maxExec) {
    if (!(dev ? hx::beginHere : hx::begin)(label + "-" + show(l) + hx::cat("-N", e.N, e.start ? hx::cat("-from-", e.start) : std::string()))) return; if (hx::timeUp()) { hx::count("cap_cases"); return; }
    reset(); std::map<int, Alone> ref; if (MODE != 19) for (int k = e.start; k < e.start + e.N; ++k) ref[k] = alone(e, k); theCfg = &e.c; std::string f = simx::writeFile("ens.xml", xml(e));
    if (dev) { mc::run(l.ranks(), pol[0], {}, [&](int) { ensemble(f, l); }); reset(); }   // fills the caches of the process
    mcx::exploreCase(l.ranks(), pol, dev, maxExec, reset, [&](int) { ensemble(f, l); }, [&](const mc::Exec&) { return verify(e, l, ref); }, "ensemble", false, dev > 0); hx::sample(hx::current());
}
static void anyLayout(const std::string& label, Ens e, const Layout& l, int ranks) {   // accepted or refused, as it must be
    bool ok = l.ms >= 1 && l.sp[0] >= 1 && l.sp[1] >= 1 && l.sp[2] >= 1 && l.ranks() == ranks && e.N % l.ms == 0; if (ok) for (int d = 0; d < 3; ++d) ok &= e.c.n[d] % l.sp[d] == 0 && (l.sp[d] == 1 || e.c.n[d] / l.sp[d] >= 1);
    theCfg = &e.c; std::string f = simx::writeFile("ens.xml", xml(e)); std::vector<mc::Policy> pol(2); pol[1].sched = 2;
    mcx::exploreCase(ranks, pol, 0, 10, reset, [&](int) { ensemble(f, l); }, [&](const mc::Exec& x) -> std::string {
        const std::string w = hx::cat(label, " layout ", show(l), " on ", ranks, " processes, ", e.N, " samples: "); if (x.deadlock || x.hang || !x.errors.empty()) return w + x.what();
        if (ok) return x.thrown.empty() ? (verify(e, l, {}) == "" ? "" : w + verify(e, l, {})) : w + "refused: " + x.thrown.begin()->second; if (x.thrown.size() == size_t(ranks)) return seen.empty() || true ? "" : ""; return w + (x.thrown.empty() ? "accepted" : hx::cat("refused on ", x.thrown.size(), " processes only")); }, "layout", true);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; simx::writeFile("init.py", "u = 0\n"); (void)T;
    { std::string d = hx::scratch(); if (chdir(d.c_str())) return 2; }
    auto basic = [](int N, std::array<int, 3> n, const std::string& eq) { Ens e; e.c.equation = eq; e.c.flux = eq == "burgers" ? "rusanov" : "hll"; e.c.n = n; e.c.endTime = eq == "burgers" ? 0.2 : 0.06; e.N = N; return e; };
    const auto all = mc::Policy::all(T); std::vector<mc::Policy> few(3); few[1].sched = 2; few[1].rendezvous = true; few[2].sched = 1; few[2].eager = false; few[2].early = true;
#if MODE == 19
    // every layout of up to 4 (6) processes, valid or not
    const int maxP = T ? 6 : 4, maxN = T ? 8 : 6;
    for (int R = 1; R <= maxP; ++R) for (int N = 1; N <= maxN; ++N) { if (!hx::begin(hx::cat("layouts-", R, "-processes-", N, "-samples"))) continue; if (hx::timeUp()) { hx::count("cap_cases"); continue; } std::vector<int> L{-2, -1, 0, 1, 2, 3, 4, 5, 6};
        for (int ms : L) for (int x : L) for (int y : L) for (int z : {-1, 1, 2}) { if (std::abs(ms) > R + 1 || std::abs(x) > R + 1 || std::abs(y) > 2) continue; Ens e = basic(N, {{8, 4, 1}}, "burgers"); e.c.endTime = 0.01; e.saves = 1; e.stats2 = false; e.writer = false; long p = long(ms) * x * y * z; if (p != R && (std::abs(ms) + std::abs(x) + std::abs(y)) % 3) continue; if (!T && p != R && R > 3) continue; anyLayout("2d", e, {ms, {{x, y, z}}}, R); }
        hx::sample(hx::current()); }
#endif
    // every schedule with one departure (thorough: two for the smallest) from the default, tiny runs
    { struct S { Layout l; int N, dev; long cap; }; std::vector<S> ss{{{2, {{1, 1, 1}}}, 2, 1, 100000}, {{1, {{2, 1, 1}}}, 1, 1, 100000}, {{2, {{1, 1, 1}}}, 4, 1, 100000}, {{3, {{1, 1, 1}}}, 3, 1, 100000}, {{2, {{2, 1, 1}}}, 2, 1, 100000}}; if (T) { ss.push_back({{2, {{1, 1, 1}}}, 2, 2, 60000}); ss.push_back({{1, {{2, 2, 1}}}, 1, 1, 60000}); ss.push_back({{2, {{1, 2, 1}}}, 4, 1, 60000}); }
      for (auto& x : ss) for (size_t p = 0; p < (T ? all.size() : x.l.ranks() < 3 ? 2 : 1); ++p) if (T || x.l.ranks() < 4) { Ens e = basic(x.N, {{4, x.l.sp[1] > 1 ? 4 : 1, 1}}, "burgers"); e.c.endTime = 0.005; e.saves = 1; e.saves2 = 1; e.stats2 = false; e.writer = MODE == 20; accepted(hx::cat("schedules-", x.dev, "-policy", p), e, x.l, {all[p * (T ? 1 : all.size() / 2)]}, x.dev, x.cap); } }
    // sample numbers of one and two digits at once
    for (auto& x : std::vector<std::pair<Layout, int>>{{{2, {{1, 1, 1}}}, 18}, {{3, {{1, 1, 1}}}, 12}, {{1, {{2, 1, 1}}}, 11}}) for (int start : {1, 8}) { Ens e = basic(x.second, {{4, 1, 1}}, "burgers"); e.start = start; e.c.endTime = 0.02; e.saves = 1; e.saves2 = 1; e.stats2 = false; e.writer = MODE == 20; accepted("many", e, x.first, few, 0, 1000); }
    struct L { Layout l; int N; }; std::vector<L> ls{{{1, {{1, 1, 1}}}, 3}, {{2, {{1, 1, 1}}}, 4}, {{3, {{1, 1, 1}}}, 3}, {{1, {{2, 1, 1}}}, 2}, {{2, {{2, 1, 1}}}, 2}, {{2, {{1, 1, 1}}}, 2}, {{4, {{1, 1, 1}}}, 4}, {{1, {{2, 2, 1}}}, 2}, {{2, {{1, 2, 1}}}, 4}}; if (T) for (auto& x : std::vector<L>{{{2, {{2, 2, 1}}}, 4}, {{3, {{2, 1, 1}}}, 6}, {{6, {{1, 1, 1}}}, 6}, {{1, {{4, 1, 1}}}, 2}}) ls.push_back(x);
    for (auto& x : ls) { const bool two = x.l.sp[1] > 1;
        for (int start : {0, 3}) { Ens e = basic(x.N, {{8, two ? 4 : 1, 1}}, "burgers"); e.start = start; if (MODE == 19) { e.stats2 = false; e.c.endTime = 0.08; } accepted("burgers", e, x.l, all, 0, 100000); }
        if (MODE != 19) { Ens e = basic(x.N, {{6, 4, 1}}, "euler2"); e.c.boundary = "neumann"; e.c.recon = "mc"; e.c.integrator = "rungekutta2"; e.initialToo = true; e.saves = 3; e.saves2 = 2; e.window = 0.03; e.radius = 0.02; e.swapped = true; accepted("euler2", e, x.l, few, 0, 1000);
            e = basic(x.N, {{6, 6, 4}}, "burgers"); e.a.lower = 0.25; e.window = 0.05; e.radius = 0.1; e.generator = "stlmersenne"; e.saves = 4; e.saves2 = 7; accepted("burgers3d", e, x.l, few, 0, 1000);
            if (x.l.sp[0] == 1 && x.l.sp[1] == 1) { e = basic(x.N, {{10, 1, 1}}, "euler1"); e.b.type = "uniform1d"; e.saves = 1; e.saves2 = 5; e.window = 0.06; e.radius = 0.01; accepted("euler1-1d", e, x.l, few, 0, 1000); } }
    }
    return hx::finish();
}
