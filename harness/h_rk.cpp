// C25: every integrator against its textbook stages, (A) on a family of right-hand sides behind the System
// interface, (B) in whole simulators over the configuration matrix, step by step.
#include "rig.hpp"
#include "cfgs.hpp"
#include <mpi.h>
#include "alsfvm/integrator/IntegratorFactory.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
using namespace rig;
// ---- reference stages -----------------------------------------------------------------------------------------
typedef std::function<void(const Vec& u, Vec& f)> Rhs;         // right-hand side on the interior cells
struct Tableau { std::vector<std::vector<double>> a; std::vector<double> b; };   // Butcher form, so that it shares no formula with the code
static Tableau tableau(const std::string& n) {
    if (n == "forwardeuler") return {{{}}, {1}};
    if (n == "rungekutta2") return {{{}, {1}}, {.5, .5}};
    if (n == "rungekutta3") return {{{}, {1}, {.25, .25}}, {1 / 6., 1 / 6., 2 / 3.}};
    return {{{}, {.5}, {0, .5}, {0, 0, 1}}, {1 / 6., 1 / 3., 1 / 3., 1 / 6.}};
}
static Vec step(const Tableau& t, const Vec& u, double dt, const std::function<Vec(const Vec&)>& f) {
    std::vector<Vec> k;
    for (auto& row : t.a) { Vec w = u; for (size_t j = 0; j < row.size(); ++j) w = w + (dt * row[j]) * k[j]; k.push_back(f(w)); }
    Vec r = u; for (size_t j = 0; j < k.size(); ++j) r = r + (dt * t.b[j]) * k[j]; return r;
}
static const char* names[] = {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"};
static Vec inner(Vol& v) { Vec r; for (int a = 0; a < v.vars(); ++a) v.eachInner([&](int i, int j, int k) { r.push_back(v.at(a, i, j, k)); }); return r; }
static void setInner(Vol& v, const Vec& r) { size_t q = 0; for (int a = 0; a < v.vars(); ++a) v.eachInner([&](int i, int j, int k) { v.at(a, i, j, k) = r[q++]; }); }
static void periodicGhosts(Vol& v) { v.eachAll([&](int i, int j, int k) { for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = v.at(a, wrap(i, v.n[0]), wrap(j, v.n[1]), wrap(k, v.n[2])); }); }
// ---- A ----------------------------------------------------------------------------------------------------------
struct Fake : integrator::System {
    int kind; double scale; int calls = 0; std::vector<rvec3> speeds; bool stale = false;
    Fake(int k) : kind(k) {}
    static double rhs(int kind, int a, const std::function<double(int, int, int, int)>& u, int i, int j, int k) {
        const double x = u(a, i, j, k);
        switch (kind) {
        case 0: return 0.7 - 0.2 * a;
        case 1: return -1.3 * x;
        case 2: return 0.5 * x * x - x * x * x / 3;
        case 3: return u(a, i - 1, j, k) - 2 * x + u(a, i + 1, j, k);
        case 4: return x * (u(a, i + 1, j, k) - u(a, i - 1, j, k)) + 0.3 * u(a, i, j - 1, k);
        default: return std::sin(3 * u(0, i, j, k + 1)) + 0.1 * a;
        }
    }
    void operator()(volume::Volume& c, rvec3& ws, bool, volume::Volume& out) override {
        Vol in(std::shared_ptr<volume::Volume>(&c, [](volume::Volume*) {})), o(std::shared_ptr<volume::Volume>(&out, [](volume::Volume*) {}));
        auto u = [&](int a, int i, int j, int k) -> double { return in.at(a, in.g[0] ? i : wrap(i, in.n[0]), in.g[1] ? j : wrap(j, in.n[1]), in.g[2] ? k : wrap(k, in.n[2])); };
        o.eachInner([&](int i, int j, int k) { for (int a = 0; a < o.vars(); ++a) o.at(a, i, j, k) = scale * rhs(kind, a, u, i, j, k); });
        in.eachAll([&](int i, int j, int k) { for (int a = 0; a < in.vars(); ++a) if (std::isnan(in.at(a, i, j, k))) stale = true; });
        rvec3 s = speeds[std::min<size_t>(calls, speeds.size() - 1)]; for (int d = 0; d < 3; ++d) ws[d] = std::max(ws[d], s[d]); calls++;
    }
};
struct Clip : integrator::TimestepAdjuster { double most = 1e300; mutable int asked = 0; real adjustTimestep(real dt, const simulator::TimestepInformation&) const override { asked++; return std::min<real>(dt, most); } };
static void partA() {
    const double vals[] = {-1, 0.5, 2};
    for (std::string nm : names) for (int dim = 1; dim <= 3; ++dim) for (int kind = 0; kind < 6; ++kind) {
        const std::string name = hx::cat("stages-", nm, "-dim", dim, "-rhs", kind); if (!hx::begin(name)) continue;
        const std::string eq = dim == 1 ? "burgers" : dim == 2 ? "euler2" : "burgers"; const I3 n{{4, dim > 1 ? 3 : 1, dim > 2 ? 2 : 1}};
        Parts P(eq, n, 1.4, {{2.0, 0.75, 0.5}}); std::string bad;
        auto fake = std::make_shared<Fake>(kind); std::shared_ptr<integrator::System> sys = fake; integrator::IntegratorFactory f(nm); auto in = f.createIntegrator(sys);
        auto clip = std::make_shared<Clip>(); std::shared_ptr<integrator::TimestepAdjuster> ca = clip; in->addTimestepAdjuster(ca);
        std::vector<Vol> v; std::vector<alsfvm::shared_ptr<volume::Volume>> vs; for (size_t i = 0; i <= in->getNumberOfSubsteps(); ++i) { v.push_back(P.vol(1)); vs.push_back(v.back().v); }
        const size_t vars = v[0].vars(), cells = size_t(n[0]) * n[1] * n[2]; const rvec3 len = P.grid->getCellLengths();
        const long words = long(std::pow(3.0, 4.0)); auto tab = tableau(nm);
        for (double cfl : {0.4, 1.0}) for (int clipped = 0; clipped < 2; ++clipped) for (long w = 0; w < words && bad.empty(); ++w) {
            // sequences of three steps; the buffers start as garbage and are left as the previous sequence left them
            Vec u(vars * cells); for (size_t q = 0; q < u.size(); ++q) { long x = w; for (size_t s = 0; s < q % 4; ++s) x /= 3; u[q] = vals[x % 3] + 0.01 * int(q / 4); }
            for (auto& x : vs) { Vol(x).fill(std::nan("")); }
            { Vol a(vs[0]); setInner(a, u); periodicGhosts(a); }
            double time = 0; 
            for (int st = 0; st < 3 && bad.empty(); ++st) {
                hx::count("evaluations"); hx::count("nontrivial");
                fake->calls = 0; fake->speeds.clear(); for (int s = 0; s < 4; ++s) fake->speeds.push_back(rvec3(1.0 + 0.5 * st + (s % 2 ? 3.0 : -0.3 * s), dim > 1 ? 0.5 + s : 0, dim > 2 ? 0.25 * (s + 1) : 0));
                double sum = 0; for (int d = 0; d < dim; ++d) sum += fake->speeds[0][d] / len[d]; double dt = cfl / sum; clip->most = clipped ? dt * (0.3 + 0.2 * st) : 1e300; dt = std::min(dt, clip->most);
                fake->scale = len.x;                                     // the integrators scale by dt / dx
                auto fr = [&](const Vec& y) { auto at = [&](int a, int i, int j, int k) { return y[((size_t(a) * n[2] + wrap(k, n[2])) * n[1] + wrap(j, n[1])) * n[0] + wrap(i, n[0])]; }; Vec r(y.size()); size_t q = 0;
                    for (int a = 0; a < int(vars); ++a) for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) r[q++] = Fake::rhs(kind, a, at, i, j, k); return r; };
                Vec want = step(tab, u, dt, fr);
                simulator::TimestepInformation ti(time, st); double got = st ? 123.0 : 0.0;   // the step passed to the first stage is not to be used
                for (size_t s = 0; s < in->getNumberOfSubsteps(); ++s) { got = in->performSubstep(vs, len, got, cfl, *vs[s + 1], s, ti); Vol o(vs[s + 1]); periodicGhosts(o); if (!(std::fabs(got - dt) <= 1e-13 * dt)) bad = hx::cat("stage ", s, " returned the step ", got, " instead of ", dt); }
                vs[0].swap(vs.back()); { Vol a(vs[0]); Vec g = inner(a); double m = 0; for (size_t q = 0; q < g.size(); ++q) { double e = std::fabs(g[q] - want[q]) / (1 + maxAbs(want)); if (!(e <= m)) m = std::isnan(e) ? 1e300 : e; } if (bad.empty() && !(m < 1e-12 * (1 + maxAbs(u)))) bad = hx::cat("the step differs from the textbook stages by ", m); u = g; }
                if (fake->stale) bad = "a buffer that was never written is read"; fake->stale = false;
                if (fake->calls != int(in->getNumberOfSubsteps())) bad = "number of evaluations of the right-hand side";
                if (!bad.empty()) bad = hx::cat("word ", w, " cfl ", cfl, " step ", st, ": ", bad); time += dt;
                double big = maxAbs(u); if (big > 1e3) u = (1 / big) * u, [&] { Vol a(vs[0]); setInner(a, u); periodicGhosts(a); }();
            }
        }
        if (!bad.empty()) hx::viol("stages-" + nm, bad); hx::sample(name);
    }
}
// ---- B ----------------------------------------------------------------------------------------------------------
static void simulate(const simx::Cfg& c0, int steps) {
    simx::Cfg c = c0; const std::string name = "simulator-" + c.str(); if (!hx::begin(name)) return; if (hx::timeUp()) return;
    const int dim = c.dim();
    for (int seed = 0; seed < (hx::thorough ? 20 : 3); ++seed) {
        c.endTime = 1e6; auto sm = simx::makeMpi(simx::writeFile("cfg.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1); auto rec = std::make_shared<simx::Recorder>(); sm.sim->addWriter(rec);
        const auto init = cfgs::data(c, {{-1, -1, -1}}, seed); alsfvm::shared_ptr<alsfvm::init::InitialData> d(new simx::CellData(init)); sm.sim->setInitialValue(d);
        auto bt = c.boundary == "periodic" ? boundary::allPeriodic() : boundary::allNeumann();
        Parts P(c.equation, c.n, c.gamma, {{c.upper[0] - c.lower[0], c.upper[1] - c.lower[1], c.upper[2] - c.lower[2]}}, bt, c.lower);
        auto fl = P.flux(c.flux, c.recon); auto df = P.diffusion(c.diffusion, c.diffRecon); const int ng = int(std::max(fl->getNumberOfGhostCells(), df->getNumberOfGhostCells()));
        boundary::BoundaryFactory bf(c.boundary, P.dev); auto bc = bf.createBoundary(ng);
        Vol a = P.vol(ng), b = P.vol(ng); a.fill(1e30); a.eachInner([&](int i, int j, int k) { for (int q = 0; q < a.vars(); ++q) a.at(q, i, j, k) = init(q, i, j, k); }); Vec u = inner(a);
        { Vec fill = c.nvar() == 1 ? Vec{0.4} : simx::eulerConserved(Vec(c.nvar(), 1.0), c.gamma); a.eachAll([&](int i, int j, int k) { for (int q = 0; q < a.vars(); ++q) { a.at(q, i, j, k) = fill[q]; b.at(q, i, j, k) = fill[q]; } }); }
        const auto len = P.grid->getCellLengths(); double time = 0; const double dx[3] = {(c.upper[0] - c.lower[0]) / c.n[0], dim > 1 ? (c.upper[1] - c.lower[1]) / c.n[1] : 1, dim > 2 ? (c.upper[2] - c.lower[2]) / c.n[2] : 1}; std::string bad;
        for (int st = 1; st <= steps && bad.empty(); ++st) {
            hx::count("evaluations"); hx::count("nontrivial"); double dt = 0; bool first = true; rvec3 speeds(0, 0, 0);
            auto f = [&](const Vec& y) { setInner(a, y); bc->applyBoundaryConditions(*a.v, *P.grid); rvec3 ws(0, 0, 0); fl->computeFlux(*a.v, ws, true, *b.v); df->applyDiffusion(*b.v, *a.v); if (first) speeds = ws; first = false; return (1 / dx[0]) * inner(b); };
            f(u); double sum = 0; for (int d = 0; d < dim; ++d) sum += speeds[d] / dx[d]; dt = std::stod(c.cfl) / sum;
            Vec want = step(tableau(c.integrator), u, dt, f);
            try { sm.sim->performStep(); } catch (std::exception& e) {
                // correct if the textbook step leaves the admissible states too (unstable configurations do)
                bool admissible = true; const size_t nc = size_t(c.n[0]) * c.n[1] * c.n[2]; for (size_t q = 0; q < nc; ++q) { Vec x; for (int v = 0; v < c.nvar(); ++v) x.push_back(want[v * nc + q]); if (!finite(x) || (c.euler() && (x[0] < 1e-8 || prim(x, c.gamma).back() < 1e-8))) admissible = false; }
                if (!admissible) { hx::count("runs_leaving_admissible_states"); break; }
                bad = hx::cat("step ", st, " fails: ", e.what()); break; }
            auto& s = rec->snaps.back(); time += dt; Vec got; for (auto& x : s.v) got.insert(got.end(), x.begin(), x.end());
            if (!(std::fabs(s.time - time) <= 1e-11 * time)) bad = hx::cat("step ", st, " ends at ", s.time, " instead of ", time);
            if (s.steps != size_t(st)) bad = "number of steps";
            double m = 0; for (size_t q = 0; q < got.size(); ++q) { double e = simx::relDiff(got[q], want[q]); if (!(e <= m)) m = e; } if (bad.empty() && !(m < 1e-9)) bad = hx::cat("step ", st, " differs from the textbook stages by ", m);
            u = got; time = s.time;
        }
        if (!bad.empty()) { hx::viol("simulator", bad); break; }
    }
    hx::sample(name);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); partA(); using cfgs::mk; const int T = hx::thorough ? 12 : 5;
    std::vector<simx::Cfg> cs; auto add = [&](simx::Cfg c) { c.lower = {{-0.5, 0.25, 1}}; c.upper = {{0.75, 2.5, 1.8}}; if (c.diffusion != "none") c.cfl = "0.1"; cs.push_back(c); };
    const char* recs[] = {"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"};
    for (std::string bc : {"periodic", "neumann"}) for (std::string in : names) {
        for (auto eq : {"burgers", "cubic", "linear", "buckleyleverett"}) for (auto& f : cfgs::fluxesOf(eq)) add(mk(1, eq, f, "none", in, bc));
        for (auto& r : recs) { add(mk(1, "burgers", "godunov", r, in, bc)); add(mk(2, "euler2", "hll3", r, in, bc)); }
        for (int d = 1; d <= 3; ++d) { for (auto& f : cfgs::fluxesOf("euler1")) if (d < 3 || in == "rungekutta2" || hx::thorough) add(mk(d, cfgs::spatialDims(d), f, "none", in, bc)); add(mk(d, cfgs::spatialDims(d), "hll", "wenof2", in, bc)); add(mk(d, "burgers", "rusanov", "mc", in, bc)); }
        for (auto dn : {"tecnoroe", "tecnorusanov"}) for (auto dr : {"none", "eno2", "eno3", "eno4"}) { if (dn == std::string("tecnorusanov")) add(mk(1, "burgers", "tecno1", "none", in, bc, dn, dr)); add(mk(2, "euler2", "tecno4", "none", in, bc, dn, dr)); if (in == "rungekutta3" || hx::thorough) add(mk(3, "euler3", "tecno1", "none", in, bc, dn, dr)); }
    }
    for (auto& c : cs) simulate(c, c.dim() == 3 ? 3 : T);
    for (std::string bc : {"periodic", "neumann"}) for (std::string f : {"tecno4", "tecno6", "tecno1", "central"}) for (auto& r : recs) for (auto eq : {"burgers", "euler1", "euler2"}) { if (std::string(eq) == "burgers" && r == std::string("none")) continue; auto c = mk(std::string(eq) == "euler2" ? 2 : 1, eq, f, r, "rungekutta2", bc); c.n[0] = 9; if (c.n[1] > 1) c.n[1] = 8; c.cfl = "0.1"; c.upper = {{0.75, 2.5, 1.8}}; simulate(c, 3); }
    // other grid sizes: the split into inner region and sides depends on the size relative to the ghost width
    auto ghosts = [](const simx::Cfg& c) { auto need = [](const std::string& s) { return s == "eno2" || s == "weno2" || s == "wenof2" || s == "mc" || s == "mm" ? 2 : s == "eno3" || s == "weno3" ? 3 : s == "eno4" ? 4 : 1; }; return std::max({need(c.recon), need(c.diffRecon), c.flux == "tecno4" ? 3 : c.flux == "tecno6" ? 5 : 1}); };
    for (auto c : cs) { const int g = ghosts(c), d = c.dim();
        if (d == 1) for (int n = std::max(2, g); n <= 3 * g + 3; ++n) { if (n == 8) continue; auto q = c; q.n[0] = n; simulate(q, T); }
        if (d == 2 && (c.integrator == "rungekutta2" || hx::thorough)) for (I3 n : {I3{{std::max(2, g), 7, 1}}, I3{{7, std::max(2, g), 1}}, I3{{2 * g + 1, 2 * g, 1}}}) { if (n[1] < 2 || n[0] < g || n[1] < g) continue; auto q = c; q.n = n; simulate(q, 3); }
        if (d == 3 && (c.integrator == "rungekutta3" || hx::thorough)) for (I3 n : {I3{{std::max(2, g), 5, 6}}, I3{{5, std::max(2, g), 6}}, I3{{5, 6, std::max(2, g)}}}) { if (n[1] < g || n[0] < g || n[2] < g) continue; auto q = c; q.n = n; simulate(q, 2); }
    }
    return hx::finish();
}
