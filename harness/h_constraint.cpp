// C13: invalid states stop the run at the step that produces them, before anything is written.
#include "mcx.hpp"
#include "steprig.hpp"
#include "alsfvm/integrator/IntegratorFactory.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
#include <iostream>
#include <fstream>
using namespace rig;
static bool validState(const simx::Cfg& c, const Vec& x, double margin, bool& sure) {
    // sure: the verdict does not hinge on rounding
    sure = true; if (!finite(x)) return false; if (!c.euler()) { if (maxAbs(x) > 1e150) sure = false; return true; }
    const double s = 1 + maxAbs(x); if (s > 1e150) { sure = false; return true; }
    const double p = prim(x, c.gamma).back(); if (x[0] < -margin * s) return false; if (std::fabs(x[0]) <= margin * s) { sure = false; return true; }
    double q = 0; for (size_t i = 1; i + 1 < x.size(); ++i) q += x[i] * x[i]; const double ps = margin * (std::fabs(x.back()) + q / x[0] + s);
    if (p < -ps) return false; if (std::fabs(p) <= ps) { sure = false; } return true;
}
// ---- A: the constraint check itself, every position, variable and kind of invalid value ------------------------------
static std::vector<Vec> badStates(const std::string& eq, double gamma) {
    const double inf = INFINITY, nan = std::nan(""); std::vector<Vec> r; if (eq.substr(0, 5) != "euler") return {{nan}, {inf}, {-inf}, {-nan}};
    const int d = eq[5] - '0'; Vec good = letters(eq, gamma)[1];
    for (size_t v = 0; v < good.size(); ++v) for (double x : {nan, inf, -inf}) { Vec b = good; b[v] = x; r.push_back(b); }
    for (double x : {0.0, -0.0, -1e-300, -1e-9, -1.0}) { Vec b = good; b[0] = x; r.push_back(b); }
    for (double p : {-1e-9, -1.0, -1e9}) { Vec w{1}; for (int i = 0; i < d; ++i) w.push_back(0.5 * (i + 1)); w.push_back(p); r.push_back(simx::eulerConserved(w, gamma)); }
    { Vec b(good.size(), 0.0); b[0] = 1; r.push_back(b); b.back() = -1e-300; r.push_back(b); }                   // pressure exactly zero, barely negative
    for (int i = 0; i < d; ++i) { Vec b(good.size(), 0.0); b[0] = 1; b[1 + i] = 2; b.back() = 1.9; r.push_back(b); }   // kinetic energy of one component alone exceeds the total
    { Vec b = good; b[0] = -1; b.back() = -5; r.push_back(b); }
    return r;
}
static std::vector<Vec> goodStates(const std::string& eq, double gamma) {
    std::vector<Vec> r = letters(eq, gamma); if (eq.substr(0, 5) != "euler") { for (double x : {0.0, -0.0, 1e-310, 1e100, -1e100, -1e-12, 5.0, -7.0}) r.push_back({x}); return r; }
    const int d = eq[5] - '0'; auto E = [&](double rho, double u, double p) { Vec w{rho}; for (int i = 0; i < d; ++i) w.push_back(i % 2 ? -u : u); w.push_back(p); r.push_back(simx::eulerConserved(w, gamma)); };
    for (double rho : {1e-30, 1e-9, 1.0, 1e9}) for (double p : {1e-30, 1e-9, 1.0, 1e9}) E(rho, 0, p); for (double rho : {1e-9, 1.0, 1e9}) E(rho, 1e3, rho * 1e6); E(1e-310, 0, 1); E(1, -0.3, 0.5);
    return r;
}
static void check(const std::string& eq, I3 n, int ng, double gamma) {
    if (!hx::begin(hx::cat("check-", eq, "-", n[0], "x", n[1], "x", n[2], "-ng", ng, "-gamma", gamma))) return;
    Parts P(eq, n, gamma); auto cc = P.computer(); Vol v = P.vol(ng); auto good = goodStates(eq, gamma), bad = badStates(eq, gamma); std::string why;
    auto put = [&](int i, int j, int k, const Vec& s) { for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = s[a]; };
    auto base = [&](const Vec& s) { v.eachAll([&](int i, int j, int k) { put(i, j, k, s); }); };
    auto expect = [&](bool want, const std::string& what) { hx::count("states"); hx::count("transitions"); hx::count("nontrivial"); hx::count("evaluations"); bool got = cc->obeysConstraints(*v.v); if (got != want && why.empty()) why = what + (want ? " is rejected" : " is accepted"); };
    for (auto& g : good) { base(g); expect(true, "constant " + show(g)); }
    // every valid state in every cell
    for (auto& g : good) { base(good[0]); v.eachInner([&](int i, int j, int k) { put(i, j, k, g); expect(true, hx::cat("valid cell ", i, ",", j, ",", k, " ", show(g))); put(i, j, k, good[0]); }); }
    for (auto& b : bad) for (size_t g : {size_t(0), good.size() - 1}) { base(good[g]); v.eachInner([&](int i, int j, int k) { put(i, j, k, b); expect(false, hx::cat("invalid cell ", i, ",", j, ",", k, " ", show(b))); put(i, j, k, good[g]); }); }
    // two invalid cells; an invalid ghost cell is not part of the solution
    std::vector<I3> cells; v.eachInner([&](int i, int j, int k) { cells.push_back({{i, j, k}}); });
    for (size_t x = 0; x < cells.size(); ++x) for (size_t y = x + 1; y < cells.size(); ++y) for (size_t bi : {size_t(0), bad.size() - 1}) { base(good[0]); put(cells[x][0], cells[x][1], cells[x][2], bad[bi]); put(cells[y][0], cells[y][1], cells[y][2], bad[bad.size() - 1 - bi]); expect(false, "two invalid cells"); }
    base(good[0]); for (auto& b : bad) v.eachAll([&](int i, int j, int k) { bool in = i >= 0 && j >= 0 && k >= 0 && i < n[0] && j < n[1] && k < n[2]; if (in) return; put(i, j, k, b); expect(true, hx::cat("invalid ghost cell ", i, ",", j, ",", k)); put(i, j, k, good[0]); });
    if (!why.empty()) hx::viol("check", why); hx::sample(hx::current());
}
// ---- B: whole simulations ----------------------------------------------------------------------------------------------
struct Tableau { std::vector<std::vector<double>> a; std::vector<double> b; };
static Tableau tableau(const std::string& n) {
    if (n == "forwardeuler") return {{{}}, {1}};
    if (n == "rungekutta2") return {{{}, {1}}, {.5, .5}};
    if (n == "rungekutta3") return {{{}, {1}, {.25, .25}}, {1 / 6., 1 / 6., 2 / 3.}};
    return {{{}, {.5}, {0, .5}, {0, 0, 1}}, {1 / 6., 1 / 3., 1 / 3., 1 / 6.}};
}
static Vec inner(Vol& v) { Vec r; for (int a = 0; a < v.vars(); ++a) v.eachInner([&](int i, int j, int k) { r.push_back(v.at(a, i, j, k)); }); return r; }
static void setInner(Vol& v, const Vec& r) { size_t q = 0; for (int a = 0; a < v.vars(); ++a) v.eachInner([&](int i, int j, int k) { v.at(a, i, j, k) = r[q++]; }); }
// One step of size dt from u: 1 valid result, 0 invalid one, -1 too close to call (or an intermediate stage is not admissible)
struct Ref {
    simx::Cfg c; Parts P; std::shared_ptr<numflux::NumericalFlux> fl; std::shared_ptr<diffusion::DiffusionOperator> df; alsfvm::shared_ptr<boundary::Boundary> bc; Vol a, b; Tableau t; size_t nc;
    explicit Ref(const simx::Cfg& c) : c(c), P(c.equation, c.n, c.gamma, {{c.upper[0] - c.lower[0], c.upper[1] - c.lower[1], c.upper[2] - c.lower[2]}}, c.boundary == "periodic" ? boundary::allPeriodic() : boundary::allNeumann(), c.lower), fl(P.flux(c.flux, c.recon)), df(P.diffusion(c.diffusion, c.diffRecon)), t(tableau(c.integrator)) {
        const int ng = int(std::max(fl->getNumberOfGhostCells(), df->getNumberOfGhostCells())); boundary::BoundaryFactory bf(c.boundary, P.dev); bc = bf.createBoundary(ng); a = P.vol(ng); b = P.vol(ng); nc = size_t(c.n[0]) * c.n[1] * c.n[2];
        Vec fill = c.nvar() == 1 ? Vec{0.4} : simx::eulerConserved(Vec(c.nvar(), 1.0), c.gamma); a.eachAll([&](int i, int j, int k) { for (int q = 0; q < a.vars(); ++q) a.at(q, i, j, k) = b.at(q, i, j, k) = fill[q]; });
    }
    Vec cell(const Vec& y, size_t q) const { Vec x; for (int v = 0; v < c.nvar(); ++v) x.push_back(y[v * nc + q]); return x; }
    int classify(const Vec& y) const { bool allSure = true; for (size_t q = 0; q < nc; ++q) { bool sure; bool ok = validState(c, cell(y, q), 1e-9, sure); if (!ok) return 0; allSure = allSure && sure; } return allSure ? 1 : -1; }
    int step(const Vec& u, double dt, Vec& out) {
        std::vector<Vec> k; bool stageOk = true; const double dx = (c.upper[0] - c.lower[0]) / c.n[0];
        for (auto& row : t.a) { Vec w = u; for (size_t j = 0; j < row.size(); ++j) w = w + (dt * row[j]) * k[j]; if (classify(w) != 1) stageOk = false; if (!stageOk) break; setInner(a, w); bc->applyBoundaryConditions(*a.v, *P.grid); rvec3 ws(0, 0, 0); fl->computeFlux(*a.v, ws, true, *b.v); df->applyDiffusion(*b.v, *a.v); k.push_back((1 / dx) * inner(b)); }
        if (!stageOk) return -1; out = u; for (size_t j = 0; j < k.size(); ++j) out = out + (dt * t.b[j]) * k[j]; return classify(out);
    }
};
struct Spy : io::Writer { long calls = 0; std::function<void(const volume::Volume&)> look; void write(const volume::Volume& v, const grid::Grid&, const simulator::TimestepInformation&) override { calls++; if (look) look(v); } };
static bool allValid(const simx::Snapshot& s, const simx::Cfg& c) { const size_t nc = s.v[0].size(); for (size_t q = 0; q < nc; ++q) { Vec x; for (auto& v : s.v) x.push_back(v[q]); if (!finite(x)) return false; if (c.euler() && (!(x[0] > 0) || !(prim(x, c.gamma).back() > 0))) return false; } return true; }
struct Run {      // a simulator with a direct writer, an XML writer that saves every step of interest and a functional
    simx::Cfg c; simx::Sim sm; std::shared_ptr<simx::RecorderFactory> wf; std::shared_ptr<simx::Recorder> direct; std::shared_ptr<FixedDt> fix = std::make_shared<FixedDt>();
    Run(simx::Cfg c_, const simx::Init& init) : c(c_) {
        c.endTime = 1e12; c.writer = "<writer><type>RECORD</type><basename>out</basename><numberOfSaves>1000000000000000</numberOfSaves></writer>";
        c.functionals = "<functionals><functional><name>identity</name><time>1</time><timeRadius>1e300</timeRadius><numberOfSnapshots>1</numberOfSnapshots><writer><type>RECORD</type><basename>fun</basename></writer></functional></functionals>";
        c.functionals = ""; wf = std::make_shared<simx::RecorderFactory>(); sm = simx::makeMpi(simx::writeFile("cfg.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1, wf); direct = std::make_shared<simx::Recorder>(); sm.sim->addWriter(direct);
        std::shared_ptr<integrator::TimestepAdjuster> a = fix; sm.sim->addTimestepAdjuster(a); alsfvm::shared_ptr<init::InitialData> d(new simx::CellData(init)); sm.sim->setInitialValue(d);
    }
    long writes() const { long n = long(direct->snaps.size()); for (auto& m : wf->made) n += long(m.second->snaps.size()); return n; }
};
// From every word over the letters: steps of sizes dt0 * 2^k.  The step throws exactly if its result is invalid, and nothing is written then.
static void forced(simx::Cfg c, long words, const std::vector<Vec>& L) {
    if (!hx::begin("forced-" + c.str())) return; if (hx::timeUp()) return; std::string bad; Ref R(c); const size_t nc = R.nc; std::map<std::string, long> seen;
    for (auto& d : wordsUpTo(int(nc), int(L.size()), words)) { if (!bad.empty()) break; if (hx::timeUp()) { hx::count("cap_words"); break; }
        simx::Init init = [&](int v, int i, int j, int k) { return L[d[i + size_t(c.n[0]) * (j + size_t(c.n[1]) * k)]][v]; };
        Vec u(nc * c.nvar()); for (size_t q = 0; q < nc; ++q) for (int v = 0; v < c.nvar(); ++v) u[v * nc + q] = L[d[q]][v];
        double fast = 0, dx = 1e9; for (auto& x : L) for (int e = 0; e < c.dim(); ++e) fast = std::max(fast, maxSpeed(c.equation, x, e, c.gamma)); for (int e = 0; e < c.dim(); ++e) dx = std::min(dx, (c.upper[e] - c.lower[e]) / c.n[e]);
        for (int kx = -1; kx < 6 && bad.empty(); ++kx) { const double dt = dx / fast * 0.2 * std::pow(2.0, kx); Vec want; int ref = R.step(u, dt, want); hx::count("states"); hx::count("transitions"); hx::count("executions"); if (ref < 0) { hx::count("skipped_too_close_to_call"); continue; } seen[ref ? "valid" : "invalid"]++;
            Run r(c, init); r.fix->dt = dt; std::string msg; try { r.sm.sim->callWriters(); } catch (std::exception& e) { bad = hx::cat("writing valid initial data fails: ", e.what()); break; } long before = r.writes(); bool threw = false; try { r.sm.sim->performStep(); } catch (std::exception& e) { threw = true; msg = e.what(); }
            long after = r.writes(); if (ref == 0 && !threw) bad = "an invalid state does not stop the run"; if (ref == 1 && threw) bad = "a valid state stops the run: " + msg; if (ref == 0 && after != before) bad = "an invalid state is handed to a writer"; if (ref == 1 && r.direct->snaps.size() != 2) bad = "the step is not written";
            for (auto& s : r.direct->snaps) if (bad.empty() && !allValid(s, c)) bad = "an invalid state is written";
            // and it stays stopped: another step from the invalid state is not let through either
            if (ref == 0 && bad.empty()) { r.fix->dt = 1e-9 * dt; try { r.sm.sim->performStep(); } catch (std::exception&) {} for (auto& s : r.direct->snaps) if (!allValid(s, c)) bad = "an invalid state is written one step later"; }
            if (!bad.empty()) bad = hx::cat("word ", showDigits(d), " dt factor 2^", kx, ": ", bad); }
    }
    hx::count("steps_valid", seen["valid"]); hx::count("steps_invalid", seen["invalid"]); if (getenv("HX_DEBUG")) fprintf(stderr, "%s valid %ld invalid %ld\n", c.str().c_str(), seen["valid"], seen["invalid"]);
    if (!bad.empty()) hx::viol("forced", bad); hx::sample(hx::current());
}
// Every invalid state put into every cell just before step s (a tiny step, so that no neighbour needs to be spoilt)
static void injected(simx::Cfg c) {
    if (!hx::begin("injected-" + c.str())) return; if (hx::timeUp()) return; std::string why; auto bad = badStates(c.equation, c.gamma); auto L = letters(c.equation, c.gamma); if (c.equation == "buckleyleverett") L.erase(L.begin());
    Stepper st(c); Parts& P = st.P; Vol v = P.vol(st.ghost());
    for (auto& b : bad) for (int s = 0; s < 2; ++s) if (!c.euler() || !finite(b) || std::fabs(prim(b, c.gamma).back()) > 1e-200) for (int k = 0; k < c.n[2]; ++k) for (int j = 0; j < c.n[1]; ++j) for (int i = 0; i < c.n[0]; ++i) { if (!why.empty()) continue; hx::count("states"); hx::count("transitions"); hx::count("executions");
        st.set([&](int, int, int) { return L[0]; }); if (s) { st.fix->dt = 0; if (!st.step()) { why = "a valid step fails"; continue; } }
        v.eachAll([&](int x, int y, int z) { const Vec& w = wrap(x, c.n[0]) == i && wrap(y, c.n[1]) == j && wrap(z, c.n[2]) == k ? b : L[0]; for (int a = 0; a < v.vars(); ++a) v.at(a, x, y, z) = w[a]; });
        st.sm.sim->setSimulationState(*v.v); st.fix->dt = 1e-300; auto last = st.last; const size_t calls = last->calls; std::string msg; const bool ok = st.step(&msg);
        // the step itself may repair nothing: dt * flux is below rounding, unless the flux is not finite
        if (ok) why = hx::cat("invalid cell ", i, ",", j, ",", k, " ", show(b), " survives a step"); if (last->calls != calls) why = hx::cat("invalid cell ", i, ",", j, ",", k, " ", show(b), " is handed to a writer"); }
    if (!why.empty()) hx::viol("injected", why); hx::sample(hx::current());
}
// ---- C: decomposed runs --------------------------------------------------------------------------------------------------
static void decomposed(simx::Cfg c, int px, int py, int pz, int dev, int step) {
    // the cell (0..) that is squeezed until its pressure goes negative sits at every position
    const std::string name = hx::cat("decomposed-", c.str(), "-p", px, "x", py, "x", pz, "-step", step); if (!hx::begin(name)) return; if (hx::timeUp()) return; const int np = px * py * pz; const size_t nc = size_t(c.n[0]) * c.n[1] * c.n[2];
    std::string xml = [&] { simx::Cfg d = c; d.endTime = 1e12; return simx::writeFile("cfg.xml", d.xml()); }(); auto L = letters(c.equation, c.gamma); Ref R(c);
    Vec spike; if (c.euler()) { Vec w(c.nvar(), 0.0); w[0] = 1; w.back() = 400; spike = simx::eulerConserved(w, c.gamma); } else spike = {1e308};
    for (size_t at = 0; at < nc; ++at) {
        I3 x{{int(at % c.n[0]), int(at / c.n[0] % c.n[1]), int(at / c.n[0] / c.n[1])}}; std::vector<long> wrote(np), stepsDone(np); std::vector<int> thrown(np); std::vector<std::string> wrong(np);
        // reference: with the forced dt, which cells end up invalid?
        Vec u(nc * c.nvar()), want; for (size_t q = 0; q < nc; ++q) for (int v = 0; v < c.nvar(); ++v) u[v * nc + q] = q == at ? spike[v] : L[0][v]; double dx = (c.upper[0] - c.lower[0]) / c.n[0], dt = c.euler() ? dx / 25 : 1;
        std::vector<char> own(np, 0); { if (c.euler()) { const double small = 1e-12; Vec y = u; for (int s = 1; s < step; ++s) { Vec z; if (R.step(y, small, z) != 1) { fprintf(stderr, "reference step\n"); abort(); } y = z; } int r = R.step(y, dt, want); if (r != 0) { hx::count("skipped_valid"); continue; } } else { want = u; want[at] = NAN; }
            for (size_t q = 0; q < nc; ++q) { bool sure; if (!validState(c, R.cell(want, q), 1e-9, sure)) { I3 y{{int(q % c.n[0]), int(q / c.n[0] % c.n[1]), int(q / c.n[0] / c.n[1])}}; int rk = y[0] / (c.n[0] / px) + px * (y[1] / (c.n[1] / py) + py * (y[2] / (c.n[2] / pz))); own[rk] = 1; } } }
        auto reset = [&] { std::fill(wrote.begin(), wrote.end(), 0); std::fill(stepsDone.begin(), stepsDone.end(), 0); std::fill(thrown.begin(), thrown.end(), 0); for (auto& w : wrong) w.clear(); };
        auto body = [&](int r) {
            std::unique_ptr<mc::Quiet> q(new mc::Quiet); auto sm = simx::makeMpi(xml, MPI_COMM_WORLD, px, py, pz, std::make_shared<simx::RecorderFactory>()); auto spy = std::make_shared<Spy>(); sm.sim->addWriter(spy); auto fix = std::make_shared<FixedDt>(); std::shared_ptr<integrator::TimestepAdjuster> a = fix; sm.sim->addTimestepAdjuster(a);
            alsfvm::shared_ptr<init::InitialData> d(new simx::CellData([&](int v, int i, int j, int k) { return I3{{i, j, k}} == x ? spike[v] : L[0][v]; })); sm.sim->setInitialValue(d); q.reset();
            for (int s = 1; s <= step; ++s) { fix->dt = s == step ? dt : 1e-12; try { sm.sim->performStep(); stepsDone[r]++; } catch (std::exception& e) { thrown[r] = s; } wrote[r] = spy->calls; if (thrown[r]) return; }
        };
        bool ok = mcx::exploreCase(np, {mc::Policy()}, dev, 100000, reset, body, [&](const mc::Exec& e) -> std::string {
            if (!e.errors.empty() || e.hang) return e.what(); for (auto& t : e.thrown) return "rank " + std::to_string(t.first) + ": " + t.second; for (int r = 0; r < np; ++r) { if (own[r] && thrown[r] != step) return hx::cat("rank ", r, " owns an invalid cell after step ", step, " and does not stop there (stopped at step ", thrown[r], ")"); if (!own[r] && thrown[r]) return hx::cat("rank ", r, " owns only valid cells but stops"); if (own[r] && wrote[r] != step - 1) return hx::cat("rank ", r, " wrote ", wrote[r], " states, the last one invalid"); }
            return ""; }, "decomposed", true);
        hx::count("nontrivial"); if (!ok) break;
    }
    hx::sample(name);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); std::ofstream* null = new std::ofstream("/dev/null"); std::cerr.rdbuf(null->rdbuf()); std::cout.rdbuf(null->rdbuf()); const bool T = hx::thorough; using cfgs::mk;
    for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler1", "euler2", "euler3"}) for (double gamma : {1.4, 5 / 3.}) { if (gamma > 1.5 && eq[0] != 'e') continue;
        for (int ng : {1, 2, 3}) { for (I3 n : {I3{{1, 1, 1}}, I3{{5, 1, 1}}, I3{{7, 1, 1}}}) check(eq, n, ng, gamma); for (I3 n : {I3{{3, 2, 1}}, I3{{2, 4, 1}}}) check(eq, n, ng, gamma); for (I3 n : {I3{{2, 3, 2}}, I3{{3, 2, 4}}}) check(eq, n, ng, gamma); } check(eq, {{37, 1, 1}}, 2, gamma); check(eq, {{9, 5, 1}}, 1, gamma); }
    auto small = [&](simx::Cfg c) { const int d = c.dim(), m = c.flux == "tecno6" ? 5 : 4; c.n = {{d == 1 ? 6 : m, d > 1 ? m : 1, d > 2 ? m : 1}}; return c; };
    for (int d = 1; d <= 3; ++d) { std::string e = hx::cat("euler", d); for (std::string bc : {"periodic", "neumann"}) { std::vector<Vec> L; for (double p : {1.0, 0.05, 20.0}) { Vec w(d + 2, 0.0); w[0] = p > 1 ? 3 : 1; for (int i = 0; i < d; ++i) w[1 + i] = p < 1 ? 1.5 : -0.5; w.back() = p; L.push_back(simx::eulerConserved(w, 1.4)); }
            for (std::string in : {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) for (std::string f : {"hll", "hll3", "central"}) for (std::string r : {"none", "mc"}) { if (d == 3 && r == "mc") continue; simx::Cfg c = small(mk(d, e, f, r, in, bc)); forced(c, T ? 6000 : d == 1 ? 60 : 30, L); } }
        for (std::string f : {"hll", "hll3", "tecno1"}) injected(small(mk(d, e, f))); }
    for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett"}) { for (auto& f : cfgs::fluxesOf(eq)) for (int d = 1; d <= 3; ++d) injected(small(mk(d, eq, f))); }
    for (std::string eq : {"burgers", "cubic"}) for (std::string in : {"forwardeuler", "rungekutta2", "rungekutta3"}) forced(small(mk(1, eq, "rusanov", "none", in)), T ? 4000 : 60, {{-1e10}, {3e109}, {1}});
    for (int step : {1, 2}) { auto c = mk(1, "euler1", "hll"); c.n = {{6, 1, 1}}; decomposed(c, 2, 1, 1, 1, step); decomposed(c, 3, 1, 1, T ? 1 : 0, step); c = mk(2, "euler2", "hll"); c.n = {{4, 4, 1}}; decomposed(c, 2, 2, 1, 0, step); decomposed(c, 1, 2, 1, T ? 1 : 0, step); c = mk(3, "euler3", "hll"); c.n = {{2, 4, 4}}; decomposed(c, 1, 2, 1, 0, step); decomposed(c, 1, 2, 2, 0, step); c = mk(1, "euler1", "hll3", "mm", "rungekutta2", "neumann"); c.n = {{8, 1, 1}}; decomposed(c, 2, 1, 1, T ? 1 : 0, step); }
    return hx::finish();
}
