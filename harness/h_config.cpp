// C24: every option of a configuration takes effect as documented, in every combination; every mistake is refused before the first step.
#include "rig.hpp"
#include "cfgs.hpp"
#include "reconref.hpp"
#include "mcx.hpp"
#include "alsfvm/init/PythonInitialData.hpp"
#include "alsfvm/integrator/TimestepAdjuster.hpp"
#include "alsuq/config/Setup.hpp"
#include "alsuq/run/Runner.hpp"
#include <mpi.h>
#include <unistd.h>
typedef std::map<std::string, Vec> Pars;
static std::string gotProgram; static Pars gotPars; static int made = 0;
namespace alsfvm { namespace init {
PythonInitialData::PythonInitialData(const std::string& p, const Parameters& q) : parameters(q), programString(p) { gotProgram = p; gotPars.clear(); for (auto& n : q.getParameterNames()) { auto& x = q.getParameter(n); gotPars[n] = Vec(x.begin(), x.end()); } ++made; }
void PythonInitialData::setParameters(const Parameters& p) { parameters = p; }
boost::property_tree::ptree PythonInitialData::getDescription() const { return boost::property_tree::ptree(); }
void PythonInitialData::setInitialData(volume::Volume& v, volume::Volume& w, equation::CellComputer& cc, grid::Grid& g) { const int nv = int(v.getNumberOfVariables()); simx::CellData([&](int var, int i, int j, int k) { double t = 0.1 * std::sin(i + 2 * j + 3 * k); return nv == 1 ? 0.5 + t : simx::eulerConserved(Vec(nv, 1 + t), 1.4)[var]; }).setInitialData(v, w, cc, g); }
}}
// ---------------------------------------------------------------- the scheme, assembled by the harness
struct Scheme {
    simx::Cfg c; int dim, nv; size_t N; std::vector<Vec> u; std::string base; double time = 0; long ties = 0; std::map<int, std::pair<std::shared_ptr<Parts>, std::shared_ptr<numflux::NumericalFlux>>> strip; Vol si[3], so[3]; std::shared_ptr<Parts> P; std::shared_ptr<diffusion::DiffusionOperator> diff; Vol dv, dout;
    explicit Scheme(const simx::Cfg& c) : c(c), dim(c.dim()), nv(c.nvar()), N(size_t(c.n[0]) * c.n[1] * c.n[2]) {
        base = c.flux; if (base == "tecno4" || base == "tecno6") base = "tecno1"; if (base == "godunov4" || base == "godunov6") base = "godunov";
        for (int d = 0; d < dim; ++d) { I3 n{{2, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; n[d] = 4; auto p = std::make_shared<Parts>(c.equation, n, c.gamma, std::array<double, 3>{{double(n[0]), double(n[1]), double(n[2])}}); auto f = p->flux(base, "none"); si[d] = p->vol(int(f->getNumberOfGhostCells())); so[d] = p->vol(int(f->getNumberOfGhostCells())); strip[d] = {p, f}; }
        if (c.diffusion != "none") { P = std::make_shared<Parts>(c.equation, I3{{c.n[0], c.n[1], c.n[2]}}, c.gamma, std::array<double, 3>{{c.upper[0] - c.lower[0], c.upper[1] - c.lower[1], c.upper[2] - c.lower[2]}}, boundary::allPeriodic(), c.lower); diff = P->diffusion(c.diffusion, c.diffRecon); dv = P->vol(int(std::max(diff->getNumberOfGhostCells(), P->flux(c.flux, c.recon)->getNumberOfGhostCells()))); dout = P->vol(dv.g[0]); }
    }
    double dx(int d) const { return (c.upper[d] - c.lower[d]) / c.n[d]; }
    int at(int i, int d) const { const int n = c.n[d]; if (c.boundary == "periodic") return wrap(i, n); while (i < 0 || i >= n) i = i < 0 ? -1 - i : 2 * n - 1 - i; return i; }
    const Vec& cell(const std::vector<Vec>& w, I3 x) const { return w[at(x[0], 0) + size_t(c.n[0]) * (at(x[1], 1) + size_t(c.n[1]) * at(x[2], 2))]; }
    Vec two(const Vec& L, const Vec& R, int d) { Vol& v = si[d]; v.periodic([&](int a, int i, int j, int k) { I3 x{{i, j, k}}; return x[d] < 2 ? L[a] : R[a]; }); rvec3 ws(0, 0, 0); strip[d].second->computeFlux(*v.v, ws, true, *so[d].v); I3 x{{0, 0, 0}}; x[d] = 1; return pointFlux(c.equation, L, d, c.gamma) - so[d].state(x); }
    // flux across the face between x - e_d and x
    Vec face(const std::vector<Vec>& w, I3 x, int d) {
        auto edge = [&](int off, bool right) { const int r = c.recon == "none" ? 0 : orderOf(c.recon); std::vector<Vec> win; for (int q = -r; q <= r; ++q) { I3 y = x; y[d] += off + q; win.push_back(cell(w, y)); } auto e = expect(c.recon, win, r, c.gamma); Vec s; if (e[0].size() > 1) { ++ties; hx::count("ties"); }; for (auto& a : e) s.push_back(double(right ? a[0].r : a[0].l)); return s; };
        auto f = [&](int a, int b) { return two(edge(a, true), edge(b, false), d); };      // a < 0 <= b, counted from x
        if (c.flux.back() == '4') return 4.0 / 3 * f(-1, 0) - 1.0 / 6 * (f(-2, 0) + f(-1, 1)); if (c.flux.back() == '6') return 1.5 * f(-1, 0) - 0.3 * (f(-2, 0) + f(-1, 1)) + 1.0 / 30 * (f(-3, 0) + f(-2, 1) + f(-1, 2)); return f(-1, 0);
    }
    std::vector<Vec> rhs(const std::vector<Vec>& w) {
        std::vector<Vec> r(N, Vec(nv, 0)); for (int d = 0; d < dim; ++d) for (int k = 0; k < c.n[2] + (d == 2); ++k) for (int j = 0; j < c.n[1] + (d == 1); ++j) for (int i = 0; i < c.n[0] + (d == 0); ++i) { I3 x{{i, j, k}}; Vec F = face(w, x, d); auto id = [&](I3 y) { return y[0] + size_t(c.n[0]) * (y[1] + size_t(c.n[1]) * y[2]); }; if (x[d] < c.n[d]) { auto& t = r[id(x)]; t = t + (1 / dx(d)) * F; } if (x[d]) { I3 y = x; --y[d]; auto& t = r[id(y)]; t = t - (1 / dx(d)) * F; } }
        if (diff) { dv.eachAll([&](int i, int j, int k) { auto& s = cell(w, I3{{i, j, k}}); for (int a = 0; a < nv; ++a) dv.at(a, i, j, k) = s[a]; }); dout.fill(0); diff->applyDiffusion(*dout.v, *dv.v); size_t q = 0; dout.eachInner([&](int i, int j, int k) { for (int a = 0; a < nv; ++a) r[q][a] += dout.at(a, i, j, k) / dx(0);      /* the operator leaves the first cell length to the integrator */ ++q; }); }
        return r;
    }
    static std::vector<Vec> comb(double a, const std::vector<Vec>& x, double b, const std::vector<Vec>& y) { auto r = x; for (size_t q = 0; q < r.size(); ++q) r[q] = a * x[q] + b * y[q]; return r; }
    void step(double dt) {
        const std::string& I = c.integrator == "auto" ? (c.recon == "none" ? "forwardeuler" : "rungekutta2") : c.integrator; auto e = [&](const std::vector<Vec>& w) { return comb(1, w, dt, rhs(w)); };
        if (I == "forwardeuler") u = e(u); else if (I == "rungekutta2") u = comb(0.5, u, 0.5, e(e(u))); else if (I == "rungekutta3") { auto a = e(u), b = comb(0.75, u, 0.25, e(a)); u = comb(1 / 3.0, u, 2 / 3.0, e(b)); }
        else { auto k1 = rhs(u), k2 = rhs(comb(1, u, dt / 2, k1)), k3 = rhs(comb(1, u, dt / 2, k2)), k4 = rhs(comb(1, u, dt, k3)); u = comb(1, u, dt / 6, comb(1, comb(1, k1, 2, k2), 1, comb(2, k3, 1, k4))); }
    }
};
struct Keep : io::Writer { simx::Snapshots s; std::vector<std::array<double, 9>> grids; void write(const volume::Volume& v, const grid::Grid& g, const simulator::TimestepInformation& t) override { s.push_back(simx::take(v, g, t.getCurrentTime(), t.getNumberOfStepsPerformed())); std::array<double, 9> q; for (int d = 0; d < 3; ++d) { q[d] = g.getOrigin()[d]; q[3 + d] = g.getTop()[d]; q[6 + d] = g.getCellLengths()[d]; } grids.push_back(q); } };
enum Mode { PLAIN, MPI_ };
static simx::Sim build(const std::string& xml, Mode m, std::shared_ptr<io::WriterFactory> wf = nullptr) { auto f = simx::writeFile("cfg.xml", xml); return m == PLAIN ? (wf ? simx::makeWith(f, wf) : simx::make(f)) : simx::makeMpi(f, MPI_COMM_WORLD, 1, 1, 1, wf); }
static std::shared_ptr<Keep> run(const simx::Cfg& c, const std::string& xml, Mode m, const simx::Init& init, int steps) {
    auto k = std::make_shared<Keep>(); auto s = build(xml, m); s.sim->addWriter(k); alsfvm::shared_ptr<init::InitialData> d(new simx::CellData(init)); s.sim->setInitialValue(d); s.sim->callWriters(); for (int i = 0; i < steps && !s.sim->atEnd(); ++i) s.sim->performStep(); s.sim->finalize(); hx::count("evaluations"); (void)c; return k;
}
static std::string follows(const simx::Cfg& c, const std::string& xml, const Keep& k, int steps) {
    if (int(k.s.size()) != steps + 1) return hx::cat(k.s.size() - 1, " steps instead of ", steps); Scheme r(c); r.u.assign(r.N, Vec(r.nv)); auto load = [&](const simx::Snapshot& s) { for (size_t q = 0; q < r.N; ++q) for (int a = 0; a < r.nv; ++a) r.u[q][a] = s.v[a][q]; }; (void)xml;
    for (int t = 1; t <= steps; ++t) { load(k.s[t - 1]); const double dt = k.s[t].time - k.s[t - 1].time; if (!(dt > 0)) return "no time passed"; r.step(dt); double sc = 1; for (auto& x : r.u) sc = std::max(sc, maxAbs(x)); const double tol = 1e-10 * (c.recon == "wenof2" ? 100 : 1) * sc; for (size_t q = 0; q < r.N; ++q) for (int a = 0; a < r.nv; ++a) if (!(std::fabs(k.s[t].v[a][q] - r.u[q][a]) <= tol)) return r.ties ? std::string() : hx::cat("step ", t, ", variable ", a, ", cell ", q, ": ", k.s[t].v[a][q], " instead of ", r.u[q][a]); }
    for (auto& g : k.grids) for (int d = 0; d < 3; ++d) { const bool act = d < c.dim(); if (g[d] != (act ? c.lower[d] : 0) || g[3 + d] != (act ? c.upper[d] : 0)) return "the grid is not the one configured"; if (!(std::fabs(g[6 + d] - (act ? (c.upper[d] - c.lower[d]) / c.n[d] : 1)) < 1e-14)) return "cell lengths"; } for (int d = 0; d < 3; ++d) if (k.s[0].n[d] != c.n[d]) return "grid dimensions"; return "";
}
static void scheme(const simx::Cfg& c, const std::string& label, int steps = 1, std::string xml = "") {
    if (!hx::begin(label + "-" + c.str() + "-cfl-" + c.cfl)) return; if (hx::timeUp()) { hx::count("cap_cases"); return; } if (xml.empty()) xml = c.xml(); std::string bad; hx::count("nontrivial");
    try { auto init = cfgs::data(c); auto a = run(c, xml, PLAIN, init, steps), b = run(c, xml, MPI_, init, steps); bad = follows(c, xml, *a, steps); if (bad.empty()) for (int t = 0; t <= steps; ++t) if (simx::diff(a->s[t], b->s[t]) > 1e-14 || a->s[t].time != b->s[t].time) bad = "the run with message passing differs from the one without"; } catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
    if (!bad.empty()) hx::viol("config:scheme", bad); hx::sample(hx::current());
}
static std::vector<std::string> reconsOf(const std::string& eq) { std::vector<std::string> r{"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"}; if (eq.substr(0, 5) == "euler") r.push_back("wenof2"); return r; }
static std::vector<std::string> fluxes(const std::string& eq) { auto f = cfgs::fluxesOf(eq); if (eq == "burgers") for (auto x : {"godunov4", "godunov6"}) if (std::find(f.begin(), f.end(), x) == f.end()) f.push_back(x); return f; }
static simx::Cfg basic0(const std::string& eq, int dim) { simx::Cfg c = cfgs::mk(dim, eq, eq.substr(0, 5) == "euler" ? "hll" : "rusanov"); c.n = {{dim == 1 ? 11 : 7, dim > 1 ? 6 : 1, dim > 2 ? 5 : 1}}; c.lower = {{-0.5, 1, 0.25}}; c.upper = {{1.5, 1.75, 3}}; c.endTime = 1; c.gamma = 1.5; c.cfl = "0.3"; return c; }
// ---------------------------------------------------------------- mistakes
static std::string sub(std::string s, const std::string& a, const std::string& b) { auto p = s.find(a); if (p == std::string::npos) { printf("HARNESS-ERROR no %s\n", a.c_str()); exit(3); } return s.replace(p, a.size(), b); }
static std::string node(const std::string& xml, const std::string& name) { auto a = xml.find("<" + name + ">"), b = xml.find("</" + name + ">"); return xml.substr(a, b + name.size() + 3 - a); }
static bool refused(const std::string& xml, Mode m, std::string* why = nullptr) { try { auto s = build(xml, m); s.sim->setInitialValue(s.init); s.sim->callWriters(); } catch (std::exception& e) { if (why) *why = e.what(); return true; } return false; }
static bool uqRefused(const std::string& xml, std::string* why = nullptr) { try { auto f = simx::writeFile("uq.xml", xml); auto conf = std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD); auto r = alsuq::config::Setup().makeRunner(f, conf, 1, ivec3(1, 1, 1)); (void)r; } catch (std::exception& e) { if (why) *why = e.what(); return true; } return false; }
static void mistake(const std::string& what, const std::string& xml, bool accepted = false) {
    if (!hx::begin((accepted ? "valid-" : "mistake-") + what)) return; hx::count("evaluations", 2); hx::count("nontrivial"); for (Mode m : {PLAIN, MPI_}) { std::string why; bool r = refused(xml, m, &why); if (r == accepted) hx::viol(accepted ? "config:valid" : "config:mistake", what + (m == PLAIN ? "" : " (message passing)") + (r ? " is refused: " + why.substr(0, 200) : " is accepted")); } hx::sample(hx::current());
}
static void uqMistake(const std::string& what, const std::string& xml, bool accepted = false) { if (!hx::begin((accepted ? "uq-valid-" : "uq-mistake-") + what)) return; hx::count("evaluations"); hx::count("nontrivial"); std::string why; bool r = uqRefused(xml, &why); if (r == accepted) hx::viol(accepted ? "config:valid" : "config:mistake", "uq: " + what + (r ? " is refused: " + why.substr(0, 200) : " is accepted")); }
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; std::string here = hx::scratch(); if (chdir(here.c_str())) return 2;
    // every supported combination of equation, flux and reconstruction
    for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler1", "euler2", "euler3"}) { const int most = eq[0] == 'e' ? eq[5] - '0' : 3; for (auto& f : fluxes(eq)) for (auto& r : reconsOf(eq)) for (int dim = 1; dim <= most; ++dim) { if (r != "none" && f.back() >= '4' && f.back() <= '6') continue;      /* wide fluxes are for cell averages */ if (!T && dim == 3 && r != "none" && r != "mc") continue; if (!T && eq == "euler3" && dim < 3 && r != "none" && r != "eno3") continue; auto c = basic0(eq, dim); c.flux = f; c.recon = r; scheme(c, "triple"); } }
    // integrators, time steps, boundaries, geometries, diffusion
    for (std::string eq : {"burgers", "linear", "euler1", "euler2", "euler3"}) for (auto& r : reconsOf(eq)) for (std::string bc : {"periodic", "neumann"}) { auto c = basic0(eq, eq == "euler2" ? 2 : 1); if (eq == "euler3") { if (!T && r != "none" && r != "eno3" && r != "wenof2") continue; c = basic0(eq, 3); } c.recon = r; c.integrator = c.cfl = "auto"; c.boundary = bc; scheme(c, "auto", 2); }
    for (std::string eq : {"burgers", "euler1", "euler2"}) for (std::string r : {"none", "mc", "eno2"}) for (std::string in : {"auto", "forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) for (std::string bc : {"periodic", "neumann"}) for (int dim = 1; dim <= (eq == "euler1" ? 1 : 2); ++dim) { auto c = basic0(eq, dim); c.recon = r; c.integrator = in; c.boundary = bc; if (dim == 2) { c.lower = {{3, -1, 0}}; c.upper = {{4, 2, 0}}; } scheme(c, "integrator", 2); }
    for (std::string eq : {"burgers", "euler1", "euler2", "euler3"}) for (std::string d : {"tecnoroe", "tecnorusanov"}) for (std::string r : {"none", "eno2", "eno3", "eno4"}) for (std::string f : {"tecno1", "tecno4", "tecno6"}) for (int dim = 1; dim <= (eq[0] == 'e' ? eq[5] - '0' : 2); ++dim) { if (!T && (dim == 3 ? r != "eno2" || f == "tecno4" : f == "tecno6" && r != "eno3")) continue; auto c = basic0(eq, dim); c.flux = f; c.diffusion = d; c.diffRecon = r; c.cfl = "0.1"; scheme(c, "diffusion"); }
    // the fluxes, reconstructions, integrators and diffusions are different from each other
    if (hx::begin("names-are-different")) { auto sig = [&](simx::Cfg c) { auto k = run(c, c.xml(), PLAIN, cfgs::data(c), 2); Vec s; for (auto& v : k->s.back().v) s.insert(s.end(), v.begin(), v.end()); return s; }; auto differ = [&](const std::string& what, std::vector<std::pair<std::string, simx::Cfg>> cs) { std::vector<Vec> s; for (auto& c : cs) s.push_back(sig(c.second)); for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < i; ++j) { hx::count("nontrivial"); if (maxAbs(s[i] - s[j]) < 1e-9) hx::viol("config:same", what + " " + cs[i].first + " and " + cs[j].first + " give the same solution"); } };
        for (std::string eq : {"burgers", "euler1", "euler2", "euler3"}) { std::vector<std::pair<std::string, simx::Cfg>> a, b, d; auto c0 = basic0(eq, eq[0] == 'e' ? eq[5] - '0' : 1); if (c0.dim() == 1) c0.n = {{24, 1, 1}}; for (auto& r : reconsOf(eq)) { auto c = c0; c.recon = r; a.push_back({r, c}); } differ(eq + " reconstructions", a); for (std::string i : {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) { auto c = c0; c.recon = "mc"; c.integrator = i; c.cfl = "0.8"; b.push_back({i, c}); } differ(eq + " integrators", b);
            for (std::string q : eq == "burgers" ? std::vector<std::string>{"none", "tecnoroe"} : std::vector<std::string>{"none", "tecnoroe", "tecnorusanov"}) { auto c = c0; c.flux = "tecno1"; c.diffusion = q; c.diffRecon = "none"; d.push_back({q, c}); } differ(eq + " diffusions", d); } }
    // time step sizes: proportional to the configured number; automatic numbers as documented
    for (std::string eq : {"burgers", "euler1", "euler2"}) for (std::string r : {"none", "mc", "weno2", "eno3"}) for (std::string in : {"forwardeuler", "rungekutta3"}) { auto c = basic0(eq, eq == "euler2" ? 2 : 1); c.recon = r; c.integrator = in; if (!hx::begin("cfl-" + c.str())) continue; hx::count("nontrivial"); std::map<std::string, double> dt; for (std::string x : {"1", "0.25", "0.475", "0.9", "auto"}) { c.cfl = x; auto k = run(c, c.xml(), PLAIN, cfgs::data(c), 1); dt[x] = k->s[1].time; }
        for (auto& x : dt) { double want = x.first == "auto" ? (r == "none" ? 0.9 : 0.475) : atof(x.first.c_str()); if (!(std::fabs(x.second / dt["1"] - want) < 1e-12)) hx::viol("config:cfl", hx::cat("CFL number ", x.first, " gives a step of ", x.second / dt["1"], " times that of CFL number 1")); } }
    // the end time is reached exactly; name and gamma
    for (double end : {0.01, 0.37, 0.0}) for (std::string eq : {"burgers", "euler1"}) { auto c = basic0(eq, 1); c.endTime = end; if (!hx::begin(hx::cat("end-", eq, "-", end))) continue; hx::count("nontrivial"); for (Mode m : {PLAIN, MPI_}) { auto k = run(c, c.xml(), m, cfgs::data(c), 1000); if (k->s.back().time < end || k->s[std::max<int>(0, int(k->s.size()) - 2)].time >= end * (1 + 1e-15) + (end == 0)) hx::viol("config:end", hx::cat("end time ", end, ": the run ends at ", k->s.back().time)); if (end == 0 && k->s.size() != 1) hx::viol("config:end", "a run of no length makes steps"); } }
    for (std::string eq : {"euler1", "euler2", "euler3"}) { auto c = basic0(eq, eq[5] - '0'); c.gamma = 1.4; scheme(c, "default-gamma", 1, sub(c.xml(), node(c.xml(), "equationParameters"), "")); c.gamma = 1.67; scheme(c, "gamma"); }
    { auto c = basic0("burgers", 1); std::string x = c.xml(); scheme(c, "no-diffusion-named", 1, sub(x, "</grid>", "</grid><diffusion><name>none</name><reconstruction>none</reconstruction></diffusion>")); c.flux = "tecno1"; c.diffusion = "tecnoroe"; c.diffRecon = "eno2"; x = c.xml(); scheme(c, "spaces", 1, sub(sub(sub(x, ">tecnoroe<", "> tecnoroe\n<"), ">eno2<", ">\teno2 <"), ">none<", "> none <")); c = basic0("burgers", 2); x = c.xml(); scheme(c, "comments", 1, sub(x, "<endTime>", "<!-- a comment --><endTime>")); c.flux = "rusanov"; scheme(c, "case", 1, sub(c.xml(), ">rusanov<", ">Rusanov<")); }
    // what reaches the initial data
    for (int q = 0; q < 2; ++q) for (Mode m : {PLAIN, MPI_}) { if (!hx::begin(hx::cat("initial-data-", q, m == PLAIN ? "" : "-mpi"))) continue; hx::count("nontrivial"); simx::writeFile("other.py", "x = 3\n"); auto c = basic0(q ? "euler1" : "burgers", 1);
        auto x = sub(c.xml(), "<python>init.py</python>", "<python>other.py</python><parameters><parameter><name>a</name><length>1</length><value>2.5</value></parameter><parameter><name>b</name><length>3</length><values><value>1</value><value>-2</value><value>3.5</value></values></parameter><parameter><name>c</name><length>4</length><values><value>0.25</value></values></parameter></parameters>"); if (q) x = sub(x, "</gamma>", "</gamma><extra>7.5</extra>");
        try { build(x, m); Pars want{{"a", {2.5}}, {"b", {1, -2, 3.5}}, {"c", {0.25, 0.25, 0.25, 0.25}}}; if (q) { want["gamma"] = {1.5}; want["extra"] = {7.5}; } if (gotPars != want) { std::string s; for (auto& p : gotPars) s += " " + p.first + "=" + show(p.second); hx::viol("config:initial", "the initial data gets" + s); } if (gotProgram != "x = 3\n") hx::viol("config:initial", "the initial data gets the program " + gotProgram); } catch (std::exception& e) { hx::viol("config:initial", std::string("refused: ") + e.what()); } }
    if (hx::begin("load")) { hx::count("nontrivial"); simx::writeFile("flux.txt", "tecno1"); auto c = basic0("euler1", 1); c.flux = "tecno1"; try { auto k = run(c, sub(c.xml(), ">tecno1<", ">load:flux.txt<"), PLAIN, cfgs::data(c), 1); auto bad = follows(c, "", *k, 1); if (!bad.empty()) hx::viol("config:load", bad); } catch (std::exception& e) { hx::viol("config:load", e.what()); } }
    // writer options: how many times output is made and when
    struct W { std::string opts; Vec times; int coarse; }; const double E = 0.4; std::vector<W> ws{{"<numberOfSaves>1</numberOfSaves>", {E}, 0}, {"<numberOfSaves>4</numberOfSaves>", {0.1, 0.2, 0.3, 0.4}, 0}, {"<numberOfSaves>2</numberOfSaves><writeInitialTimestep>true</writeInitialTimestep>", {0, 0.2, 0.4}, 0}, {"<numberOfSaves>2</numberOfSaves><writeInitialTimestep>1</writeInitialTimestep>", {0, 0.2, 0.4}, 0}, {"<numberOfSaves>2</numberOfSaves><writeInitialTimestep>false</writeInitialTimestep>", {0.2, 0.4}, 0}, {"<writeInitialTimestep>0</writeInitialTimestep><numberOfSaves>2</numberOfSaves>", {0.2, 0.4}, 0}, {"", {}, -1}};
    for (auto& w : ws) for (int form = 0; form < 2; ++form) for (Mode m : {PLAIN, MPI_}) { if (form && w.opts.find("numberOfSaves") == std::string::npos) continue; if (!hx::begin(hx::cat("writer-", form ? "functional-" : "", w.opts, m == PLAIN ? "" : "-mpi"))) continue; hx::count("nontrivial"); auto c = basic0("burgers", 1); c.endTime = E; if (form) c.functionals = "<functionals><functional><name>identity</name>" + w.opts + "<writer><type>RECORD</type><basename>out</basename></writer></functional></functionals>"; else c.writer = "<writer><type>RECORD</type><basename>out</basename>" + w.opts + "</writer>";
        auto wf = std::make_shared<simx::RecorderFactory>(); try { auto s = build(c.xml(), m, wf); auto all = std::make_shared<Keep>(); s.sim->addWriter(all); s.sim->setInitialValue(s.init); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); auto r = wf->find("out"); Vec want = w.times; if (w.coarse < 0) for (auto& q : all->s) want.push_back(q.time); else if (form && w.opts.find("writeInitial") == std::string::npos) want.insert(want.begin(), 0);      // functionals report the initial state unless told otherwise
            if (form && w.opts.find("false") != std::string::npos) continue; if (form && w.opts.find(">0<") != std::string::npos) continue; bool ok = r && r->snaps.size() == want.size(); for (size_t i = 0; ok && i < want.size(); ++i) ok = std::fabs(r->snaps[i].time - want[i]) < 1e-12; if (!ok) { std::string s; if (r) for (auto& q : r->snaps) s += hx::cat(" ", q.time); hx::viol("config:writer", "output at" + s); } else if (r->finalized != 1) hx::viol("config:writer", hx::cat("the writer was finalised ", r->finalized, " times")); } catch (std::exception& e) { hx::viol("config:writer", std::string("refused: ") + e.what()); } }
    // ---- mistakes in otherwise valid files
    auto c1 = basic0("burgers", 1); c1.flux = "tecno1"; c1.diffusion = "tecnoroe"; c1.diffRecon = "eno2"; c1.writer = "<writer><type>hdf5</type><basename>out</basename><numberOfSaves>2</numberOfSaves></writer>"; c1.functionals = "<functionals><functional><name>moment</name><degree>2</degree><numberOfSaves>2</numberOfSaves><writer><type>netcdf</type><basename>f</basename></writer></functional></functionals>"; std::string ok = c1.xml(); auto c2 = basic0("euler2", 2); c2.recon = "mc"; c2.writer = sub(c1.writer, "hdf5", "netcdf"); std::string ok2 = c2.xml(); ok = sub(ok, "hdf5", "netcdf");
    mistake("burgers", ok, true); mistake("euler2", ok2, true);
    for (auto& x : {ok, ok2}) { const std::string w = x == ok ? "burgers-" : "euler2-"; auto m = [&](const std::string& what, const std::string& y) { mistake(w + what, y); };
        for (std::string q : {"name", "platform", "boundary", "flux", "endTime", "equation", "reconstruction", "cfl", "integrator", "initialData", "grid", "lowerCorner", "upperCorner", "dimension"}) m("without-" + q, sub(x, node(x, q), ""));
        for (std::string q : {"name", "platform", "boundary", "flux", "endTime", "equation", "reconstruction", "cfl", "integrator", "grid", "writer"}) { m("misspelt-" + q, sub(sub(x, "<" + q + ">", "<" + q + "s>"), "</" + q + ">", "</" + q + "s>")); auto n = node(x, q); m("twice-" + q, sub(x, n, n + n)); }
        for (std::string q : {"platform", "boundary", "flux", "equation", "reconstruction", "integrator"}) { auto n = node(x, q); const std::string v = n.substr(q.size() + 2, n.size() - 2 * q.size() - 5); for (std::string y : {std::string("nosuch"), std::string(""), v + "x", v.substr(1)}) m(q + "=" + y, sub(x, n, "<" + q + ">" + y + "</" + q + ">")); }
        for (std::string q : {"cfl", "endTime"}) for (std::string y : {"", "x", "0.5x", "nan", "-1", "inf", "1 2"}) m(q + "=" + y, sub(x, node(x, q), "<" + q + ">" + y + "</" + q + ">")); m("cfl=0", sub(x, node(x, "cfl"), "<cfl>0</cfl>"));
        const std::string D = node(x, "dimension"), L = node(x, "lowerCorner"), U = node(x, "upperCorner"); auto dims = [&](const std::string& v) { m("dimension=" + v, sub(x, D, "<dimension>" + v + "</dimension>")); }; for (std::string v : {"", "8", "8 1", "8 1 1 1", "0 1 1", "8 0 1", "8 1 0", "-8 1 1", "8 -1 1", "8.5 1 1", "a 1 1", "8 1 x", "100000000000 1 1"}) dims(v);
        for (std::string v : {"", "0", "0 0", "0 0 0 0", "x 0 0", "nan 0 0", "inf 0 0"}) { m("lowerCorner=" + v, sub(x, L, "<lowerCorner>" + v + "</lowerCorner>")); m("upperCorner=" + v, sub(x, U, "<upperCorner>" + v + "</upperCorner>")); } m("upper-below-lower", sub(x, L, "<lowerCorner>9 0 0</lowerCorner>")); m("no-extent", sub(x, L, sub(sub(U, "upper", "lower"), "upper", "lower")));
        m("platform=cuda", sub(x, ">cpu<", ">cuda<")); m("platform=gpu", sub(x, ">cpu<", ">gpu<"));
        for (std::string v : {"nosuch", "", "netcdfx"}) m("writer=" + v, sub(x, "<writer><type>netcdf", "<writer><type>" + v)); for (std::string v : {"0", "-1", "x", "1.5", ""}) { m("saves=" + v, sub(x, "<numberOfSaves>2<", "<numberOfSaves>" + v + "<")); m("initial=" + v, sub(x, "</numberOfSaves>", "</numberOfSaves><writeInitialTimestep>" + (v == "0" ? "maybe" : v == "-1" ? "2" : v) + "</writeInitialTimestep>")); } m("writer-without-type", sub(x, "<type>netcdf</type>", "")); m("writer-without-name", sub(x, "<basename>out</basename>", ""));
        auto opt = [&](const std::string& what, const std::string& o) { m(what, sub(x, "<numberOfSaves>2</numberOfSaves></writer>", o + "</writer>")); }; opt("window-without-radius", "<time>0.1</time>"); opt("window-without-time", "<timeRadius>0.1</timeRadius>"); for (std::string v : {"0", "-0.1", "nan", "x"}) opt("radius=" + v, "<time>0.1</time><timeRadius>" + v + "</timeRadius>"); for (std::string v : {"0", "-1", "x", "2.5"}) opt("snapshots=" + v, "<time>0.1</time><timeRadius>0.1</timeRadius><numberOfSnapshots>" + v + "</numberOfSnapshots>"); opt("coarse-without-skips", "<numberOfSaves>2</numberOfSaves><numberOfCoarseSaves>2</numberOfCoarseSaves>"); for (std::string v : {"-1", "x"}) { opt("coarse=" + v, "<numberOfSaves>2</numberOfSaves><numberOfCoarseSaves>" + v + "</numberOfCoarseSaves><numberOfSkips>1</numberOfSkips>"); opt("skips=" + v, "<numberOfSaves>2</numberOfSaves><numberOfCoarseSaves>1</numberOfCoarseSaves><numberOfSkips>" + v + "</numberOfSkips>"); } opt("snapshots-without-window", "<numberOfSnapshots>2</numberOfSnapshots>");
        auto par = [&](const std::string& what, const std::string& p) { m("parameter-" + what, sub(x, "</python>", "</python><parameters><parameter>" + p + "</parameter></parameters>")); }; par("without-name", "<length>1</length><value>1</value>"); par("without-length", "<name>a</name><value>1</value>"); par("without-value", "<name>a</name><length>1</length>"); par("too-few", "<name>a</name><length>3</length><values><value>1</value><value>2</value></values>"); par("too-many", "<name>a</name><length>2</length><values><value>1</value><value>2</value><value>3</value></values>"); par("no-number", "<name>a</name><length>1</length><value>x</value>"); par("zero-length", "<name>a</name><length>0</length><values></values>"); par("negative-length", "<name>a</name><length>-2</length><values><value>1</value></values>"); par("twice", "<name>a</name><length>1</length><value>1</value></parameter><parameter><name>a</name><length>1</length><value>2</value>");
        m("no-initial-data", sub(x, "<python>init.py</python>", "")); m("missing-program", sub(x, "init.py", "nosuch.py")); m("missing-loaded-file", sub(x, ">periodic<", ">load:nosuch.txt<")); m("broken-file", x.substr(0, x.size() - 12)); m("empty-file", ""); m("no-fvm", "<config></config>"); }
    // options of one equation only, combinations that do not exist
    for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler1", "euler2", "euler3"}) { auto fs = fluxes(eq); std::set<std::string> all; for (std::string e : {"burgers", "cubic", "linear", "buckleyleverett", "euler1"}) for (auto& f : fluxes(e)) all.insert(f); all.insert("laxfriedrichs"); for (auto& f : all) if (std::find(fs.begin(), fs.end(), f) == fs.end()) { auto c = basic0(eq, 1); c.flux = f; mistake("combination-" + eq + "-" + f, c.xml()); }
        if (eq[0] != 'e') { auto c = basic0(eq, 1); c.recon = "wenof2"; mistake("combination-" + eq + "-wenof2", c.xml()); } if (eq == "cubic" || eq == "linear" || eq == "buckleyleverett") for (std::string d : {"tecnoroe", "tecnorusanov"}) { auto c = basic0(eq, 1); c.diffusion = d; mistake("combination-" + eq + "-" + d, c.xml()); }
        for (int dim = 2; dim <= 3; ++dim) if (eq[0] == 'e' && eq[5] - '0' < dim) { auto c = basic0(eq, dim); mistake(hx::cat("combination-", eq, "-on-", dim, "-dimensions"), c.xml()); } }
    for (std::string d : {"nosuch", "", "tecno", "tecnoroex"}) mistake("diffusion=" + d, sub(ok, ">tecnoroe<", ">" + d + "<")); for (std::string d : {"nosuch", "", "mc", "eno5"}) mistake("diffusion-reconstruction=" + d, sub(ok, "<reconstruction>eno2<", "<reconstruction>" + d + "<")); mistake("diffusion-without-name", sub(ok, "<name>tecnoroe</name>", "")); mistake("diffusion-without-reconstruction", sub(ok, "<reconstruction>eno2</reconstruction>", ""));
    for (std::string g : {"1", "0.5", "0", "-1", "nan", "x", ""}) mistake("gamma=" + g, sub(ok2, "<gamma>1.5<", "<gamma>" + g + "<")); mistake("gamma-missing", sub(ok2, node(ok2, "gamma"), "<gama>1.4</gama>"));
    for (std::string f : {"nosuch", ""}) mistake("functional=" + f, sub(ok, "<name>moment<", "<name>" + f + "<")); mistake("functional-without-parameter", sub(ok, "<degree>2</degree>", "")); mistake("functional-parameter", sub(ok, "<degree>2<", "<degree>two<")); mistake("functional-without-times", sub(ok, "<degree>2</degree><numberOfSaves>2</numberOfSaves>", "<degree>2</degree>")); mistake("functional-without-writer", sub(ok, "<writer><type>netcdf</type><basename>f</basename></writer>", "")); mistake("functional-writer", sub(ok, "<type>netcdf</type><basename>f<", "<type>nosuch</type><basename>f<")); for (std::string s : {"0", "-1", "x", "1.5"}) mistake("functional-saves=" + s, sub(ok, "</degree><numberOfSaves>2<", "</degree><numberOfSaves>" + s + "<")); for (std::string r : {"", "<timeRadius>0</timeRadius>", "<timeRadius>-1</timeRadius>", "<timeRadius>x</timeRadius>", "<timeRadius>0.1</timeRadius><numberOfSnapshots>0</numberOfSnapshots>", "<timeRadius>0.1</timeRadius><numberOfSnapshots>-1</numberOfSnapshots>"}) mistake("functional-window-" + r, sub(ok, "</degree><numberOfSaves>2</numberOfSaves>", "</degree><time>0.1</time>" + r));
    // ---- ensembles
    auto cu = basic0("burgers", 1); std::string uq = "<uq><samples>4</samples><generator>auto</generator><parameters><parameter><name>a</name><length>2</length><type>uniform</type><lower>0.5</lower><upper>1.5</upper></parameter></parameters><stats><stat><name>meanvar</name><numberOfSaves>2</numberOfSaves><writer><type>netcdf</type><basename>s</basename></writer></stat></stats></uq>"; std::string u = sub(cu.xml(), "</fvm>", "</fvm>" + uq);
    uqMistake("plain", u, true); uqMistake("sampleStart", sub(u, "</samples>", "</samples><sampleStart>3</sampleStart>"), true); uqMistake("mersenne", sub(u, ">auto</gen", ">stlmersenne</gen"), true); uqMistake("comment", sub(u, "<samples>", "<!-- comment --><samples>"), true); uqMistake("samples=1e1", sub(u, "<samples>4<", "<samples>1e1<"), true);
    for (std::string v : {"0", "-4", "2.5", "x", "", "nan", "inf"}) uqMistake("samples=" + v, sub(u, "<samples>4<", "<samples>" + v + "<")); for (std::string v : {"-1", "x", "1.5", ""}) uqMistake("sampleStart=" + v, sub(u, "</samples>", "</samples><sampleStart>" + v + "</sampleStart>"));
    for (std::string q : {"samples", "generator", "parameters", "stats", "uq"}) { auto n = node(u, q); uqMistake("without-" + q, sub(u, n, "")); if (q != "uq") uqMistake("twice-" + q, sub(u, n, n + n)); if (q != "uq") uqMistake("misspelt-" + q, sub(sub(u, "<" + q + ">", "<" + q + "x>"), "</" + q + ">", "</" + q + "x>")); } uqMistake("unknown-option", sub(u, "</samples>", "</samples><sampelStart>3</sampelStart>"));
    for (std::string v : {"nosuch", "", "Auto"}) uqMistake("generator=" + v, sub(u, ">auto</gen", ">" + v + "</gen")); for (std::string v : {"nosuch", "", "uniformx"}) uqMistake("distribution=" + v, sub(u, "<type>uniform<", "<type>" + v + "<")); for (std::string v : {"0", "-1", "x", ""}) uqMistake("length=" + v, sub(u, "<length>2<", "<length>" + v + "<")); uqMistake("without-parameter-name", sub(u, "<name>a</name>", "")); uqMistake("without-type", sub(u, "<type>uniform</type>", "")); uqMistake("without-length", sub(u, "<length>2</length>", "")); { auto p = node(u, "parameter"); uqMistake("parameter-twice", sub(u, p, p + p)); } for (std::string v : {"x", "2"}) uqMistake("lower=" + v, sub(u, "<lower>0.5<", "<lower>" + v + "<"));
    for (std::string v : {"nosuch", ""}) uqMistake("stat=" + v, sub(u, "<name>meanvar<", "<name>" + v + "<")); for (std::string v : {"0", "-1", "x", "1.5"}) uqMistake("stat-saves=" + v, sub(u, "<numberOfSaves>2<", "<numberOfSaves>" + v + "<")); uqMistake("stat-without-times", sub(u, "<numberOfSaves>2</numberOfSaves>", "")); uqMistake("stat-time", sub(u, "<numberOfSaves>2</numberOfSaves>", "<time>0.1</time><timeRadius>0.1</timeRadius>")); uqMistake("stat-without-writer", sub(u, "<writer><type>netcdf</type><basename>s</basename></writer>", "")); uqMistake("stat-writer", sub(u, "<type>netcdf</type><basename>s<", "<type>nosuch</type><basename>s<")); uqMistake("stat-without-name", sub(u, "<name>meanvar</name>", ""));
    for (std::string d : {"0", "2", "3", "-1", "x", "1.5"}) for (std::string h : {"2", "0", "-1", "x"}) { const bool fine = (d == "0" || d == "2") && h == "2"; const std::string o = "<p>2</p><direction>" + d + "</direction><numberOfH>" + h + "</numberOfH>"; mistake("functional-structure_base-" + d + "-" + h, sub(ok, "<name>moment</name><degree>2</degree>", "<name>structure_base</name>" + o), fine); uqMistake("structure_basic-" + d + "-" + h, sub(u, "<name>meanvar</name>", "<name>structure_basic</name>" + o), fine); const std::string o2 = "<direction1>0</direction1><direction2>" + d + "</direction2><numberOfH>" + h + "</numberOfH>"; uqMistake("structure_2pt-" + d + "-" + h, sub(u, "<name>meanvar</name>", "<name>structure_2pt</name>" + o2), fine); uqMistake("structure_2pt-first-" + d + "-" + h, sub(u, "<name>meanvar</name>", "<name>structure_2pt</name><direction1>" + d + "</direction1><direction2>1</direction2><numberOfH>" + h + "</numberOfH>"), fine); if (d == "0") { mistake("functional-structure_cube-" + h, sub(ok, "<name>moment</name><degree>2</degree>", "<name>structure_cube</name>" + o), fine); uqMistake("structure_cube-" + h, sub(u, "<name>meanvar</name>", "<name>structure_cube</name>" + o), fine); } }
    for (std::string st : {"onepointmoment", "bv", "bv_direction", "structure_basic", "structure_cube", "structure_2pt", "functional"}) { uqMistake("stat-without-parameters-" + st, sub(u, "<name>meanvar<", "<name>" + st + "<")); } uqMistake("stat-surface", sub(u, "<name>meanvar</name>", "<name>structure_surface</name><p>2</p><direction>0</direction><numberOfH>2</numberOfH>"));
    return hx::finish();
}
