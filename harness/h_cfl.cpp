// C05: every proposed time step against wave speeds computed independently from the cells (and, where a scheme
// reconstructs, from the edge values), for all words over a small alphabet; whole runs to the end time.
#include "steprig.hpp"
#include "alsfvm/integrator/IntegratorFactory.hpp"
using namespace rig;
static int mirror(int i, int n) { while (i < 0 || i >= n) i = i < 0 ? -1 - i : 2 * n - 1 - i; return i; }
struct Bound { double lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0}; bool valid = true; };
static bool admissible = true;      // reconstruction may overshoot into states without a speed of sound; those have no bound
// slowest and fastest wave the scheme may see at a face with these two states
static void face(const simx::Cfg& c, const Vec& l, const Vec& r, int d, double& lo, double& hi, bool onlyHigh = false) {
    if (!c.euler()) { double s = std::max(maxSpeed(c.equation, l, d, c.gamma), maxSpeed(c.equation, r, d, c.gamma)); if (!onlyHigh) lo = std::max(lo, s); hi = std::max(hi, s); return; }
    Vec a = prim(l, c.gamma), b = prim(r, c.gamma); if (!(a[0] > 0 && b[0] > 0 && a.back() > 0 && b.back() > 0)) { admissible = false; return; } const double ca = std::sqrt(c.gamma * a.back() / a[0]), cb = std::sqrt(c.gamma * b.back() / b[0]), ua = a[1 + d], ub = b[1 + d];
    const double cm = std::sqrt(c.gamma * std::max(a.back(), b.back()) / (0.5 * (a[0] + b[0])));
    hi = std::max(hi, std::max(std::fabs(ua), std::fabs(ub)) + std::max({ca, cb, cm})); if (onlyHigh) return;
    // HLL3 (used by the entropy conservative fluxes too) takes half of a compression off the outer waves
    const double k = c.flux == "hll3" || c.flux.substr(0, 5) == "tecno" ? 0.5 * std::max(0.0, ua - ub) : 0;
    lo = std::max(lo, c.flux == "central" ? std::max(std::fabs(ua) + ca, std::fabs(ub) + cb) : std::max(std::fabs(ua + k - ca) * (ua + k - ca < 0), std::fabs(ub - k + cb) * (ub - k + cb > 0)));
}
struct Speeds {
    simx::Cfg c; Parts P; Vol v, L, R; std::shared_ptr<reconstruction::Reconstruction> rec; int g, reach;
    Speeds(const simx::Cfg& c_) : c(c_), P(c.equation, c.n, c.gamma, {{c.upper[0] - c.lower[0], c.upper[1] - c.lower[1], c.upper[2] - c.lower[2]}}, boundary::allPeriodic(), c.lower) {
        g = int(P.flux(c.flux, c.recon)->getNumberOfGhostCells()); reach = c.flux == "tecno4" ? 2 : c.flux == "tecno6" ? 3 : 1; v = P.vol(g); L = P.vol(g); R = P.vol(g); L.fill(1); R.fill(1); if (c.recon != "none") rec = P.recon(c.recon); }
    template<class F> Bound of(F state) {
        const bool per = c.boundary == "periodic"; auto ix = [&](int i, int d) { return per ? wrap(i, c.n[d]) : mirror(i, c.n[d]); };
        v.eachAll([&](int i, int j, int k) { Vec s = state(ix(i, 0), ix(j, 1), ix(k, 2)); for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = s[a]; });
        Bound b; admissible = true; for (int d = 0; d < c.dim(); ++d) {
            if (rec) rec->performReconstruction(*v.v, d, 0, *L.v, *R.v, ivec3(0, 0, 0), ivec3(0, 0, 0));
            for (int k = d == 2 ? -1 : 0; k < c.n[2]; ++k) for (int j = d == 1 ? -1 : 0; j < c.n[1]; ++j) for (int i = d == 0 ? -1 : 0; i < c.n[0]; ++i) {
                I3 x{{i, j, k}}, y = x; y[d]++; face(c, rec ? R.state(x) : v.state(x), rec ? L.state(y) : v.state(y), d, b.lo[d], b.hi[d]);
                // the wide fluxes also evaluate pairs further apart
                if (reach > 1) for (int p = 0; p < reach; ++p) for (int q = 1; q <= reach; ++q) if (p + q <= reach) { I3 s = x, t = x; s[d] -= p; t[d] += q; face(c, v.state(s), v.state(t), d, b.lo[d], b.hi[d], true); }
            }
        }
        b.valid = admissible; return b;
    }
};
static double total(const double* s, const Stepper& st) { double t = 0; for (int d = 0; d < st.c.dim(); ++d) t += s[d] / st.dx(d); return t; }
static double cflOf(const simx::Cfg& c) { return c.cfl == "auto" ? (c.recon == "none" ? 0.9 : 0.475) : std::stod(c.cfl); }
static std::string judge(const simx::Cfg& c, const Stepper& s, const Bound& b, double dt) {
    if (!b.valid) { hx::count("overshooting_edges"); return ""; }
    const double most = cflOf(c) / total(b.lo, s), least = cflOf(c) / total(b.hi, s);
    if (!(dt <= most * (1 + 1e-10))) return hx::cat("step ", dt, " exceeds the bound ", most);
    if (!(dt >= least * (1 - 1e-10))) return hx::cat("step ", dt, " is smaller than the bound ", least, " requires");
    return "";
}
static void words(simx::Cfg c, long maxWords, int steps) {
    const std::string name = "steps-" + c.str() + "-cfl" + c.cfl; if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper s(c); Speeds sp(c); auto A = letters(c.equation, c.gamma, c.flux.substr(0, 5) == "tecno" && c.equation == "burgers");
    if (c.euler()) { Vec w = prim(A[3], c.gamma); w.back() = 6; w[1] = -0.4; if (w.size() > 3) w[2] = -2.5; if (w.size() > 4) w[3] = 1.7; A[1] = simx::eulerConserved(w, c.gamma); }       // a clearly fastest cell
    const int n = int(s.cells);
    std::string bad;
    auto check = [&](const std::vector<int>& d, int nsteps) {
        auto letter = [&](int i, int j, int k) { return A[d[i + c.n[0] * (j + c.n[1] * k)]]; };
        { bool moves = false; for (int x : d) moves |= maxSpeed(c.equation, A[x], 0, c.gamma) > 1e-6; if (!moves) return; }
        s.set(letter); Bound b = sp.of(letter);
        for (int t = 0; t < nsteps && bad.empty(); ++t) { hx::count("evaluations"); const size_t before = s.last->steps; const double t0 = s.last->time; if (!s.step()) { hx::count("left_admissible_states"); break; }
            bad = judge(c, s, b, s.fix->asked); if (bad.empty() && !(std::fabs(s.last->time - t0 - s.fix->asked) <= 1e-12 * (1 + s.last->time))) bad = hx::cat("the time advances by ", s.last->time - t0, " instead of the step ", s.fix->asked);
            if (bad.empty() && !(s.last->time > t0)) bad = "the time does not increase"; if (bad.empty() && s.last->steps != before + 1) bad = "number of steps"; if (!bad.empty()) { bad = hx::cat("word ", showDigits(d), " step ", t + 1, ": ", bad); break; }
            Vec u = s.u(); auto next = [&](int i, int j, int k) { Vec x; for (int a = 0; a < c.nvar(); ++a) x.push_back(u[a * s.cells + i + size_t(c.n[0]) * (j + size_t(c.n[1]) * k)]); return x; }; bool moves = false; for (size_t q = 0; q < s.cells; ++q) { Vec x; for (int a = 0; a < c.nvar(); ++a) x.push_back(u[a * s.cells + q]); moves |= maxSpeed(c.equation, x, 0, c.gamma) > 1e-6; } if (!moves) break; b = sp.of(next); }
    };
    for (auto& d : wordsUpTo(n, n <= 6 ? 4 : 3, maxWords)) { if (!bad.empty()) break; hx::count("nontrivial"); check(d, steps); }
    // the fastest cell in every single place
    for (int q = 0; q < n && bad.empty(); ++q) for (int bg : {0, 3}) { std::vector<int> d(n, bg); d[q] = c.euler() ? 1 : 2; check(d, 1); }
    if (!bad.empty()) hx::viol("step", bad);
}
// whole runs: while (!atEnd()) performStep(), as the command line program does
static void runs(simx::Cfg c) {
    for (double end : {0.0, 1e-3, 0.17, 0.5}) for (auto cfl : {"auto", "0.3", "0.9"}) {
        c.endTime = end; c.cfl = cfl; if (c.dim() > 1 && c.cfl == "0.9") continue; const std::string name = hx::cat("run-", c.str(), "-cfl", cfl, "-T", end); if (!hx::begin(name) || hx::timeUp()) continue;
        Speeds sp(c); Stepper probe(c); const auto A = letters(c.equation, c.gamma, c.flux.substr(0, 5) == "tecno" && c.equation == "burgers"); const int n = int(probe.cells); std::string bad;
        for (auto& d : wordsUpTo(n, 3, hx::thorough ? 400 : 50)) { if (!bad.empty()) break; { bool moves = false; for (int x : d) moves |= maxSpeed(c.equation, A[x], 0, c.gamma) > 1e-6; if (!moves) continue; }
            c.endTime = end; auto sm = simx::makeMpi(simx::writeFile("cfg.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1); auto last = std::make_shared<Last>(); sm.sim->addWriter(last); auto fix = std::make_shared<FixedDt>(); std::shared_ptr<integrator::TimestepAdjuster> fa = fix; sm.sim->addTimestepAdjuster(fa);
            alsfvm::shared_ptr<init::InitialData> data(new simx::CellData([&](int v, int i, int j, int k) { return A[d[i + c.n[0] * (j + c.n[1] * k)]][v]; })); sm.sim->setInitialValue(data); sm.sim->callWriters();
            if (last->calls != 1 || last->time != 0 || last->steps != 0) { bad = "the initial state is not reported at time zero"; break; }
            size_t steps = 0; double t = 0; bool threw = false; while (!sm.sim->atEnd() && bad.empty()) {
                if (t >= end) { bad = hx::cat("not at the end at time ", t, " of ", end); break; }
                Vec u = last->u; Bound b = sp.of([&](int i, int j, int k) { Vec x; for (int a = 0; a < c.nvar(); ++a) x.push_back(u[a * n + i + c.n[0] * (j + c.n[1] * k)]); return x; });
                try { sm.sim->performStep(); } catch (std::exception&) { threw = true; hx::count("left_admissible_states"); break; }
                hx::count("evaluations"); steps++; if (last->calls != steps + 1) { bad = "a writer was not called exactly once per step"; break; }
                const double dt = last->time - t; if (!(dt > 0)) bad = "the time does not increase"; else if (std::fabs(dt - fix->asked) > 1e-12 * (1 + t)) bad = hx::cat("the time advances by ", dt, " instead of the step ", fix->asked); else if (last->steps != steps) bad = hx::cat("reported number of steps ", last->steps, " instead of ", steps); else if (std::fabs(sm.sim->getCurrentTime() - last->time) > 0) bad = "the simulator reports another time than the writers see"; else bad = judge(c, probe, b, dt);
                t = last->time; if (steps > 100000) bad = "the run does not reach its end"; if (!bad.empty()) bad = hx::cat("word ", showDigits(d), " step ", steps, ": ", bad);
            }
            if (bad.empty() && !threw && !(t >= end)) bad = hx::cat("the run stops at ", t, " before its end ", end); hx::count("nontrivial");
        }
        if (!bad.empty()) hx::viol("run", bad);
    }
}
int main(int argc, char** argv) {
    hx::init(argc, argv); using cfgs::mk; const bool T = hx::thorough; const long W = T ? 40000 : 1500; auto shape = [&](simx::Cfg c, I3 n, const char* cfl) { c.n = n; c.lower = {{-0.5, 0.25, 1}}; c.upper = {{0.75, 2.5, 1.8}}; c.cfl = cfl; return c; };
    auto width = [](const std::string& f, const std::string& r) { int g = r == "eno4" ? 4 : r == "eno3" || r == "weno3" ? 3 : r == "none" ? 1 : 2; if (f == "tecno4") g = std::max(3, g + 1); if (f == "tecno6") g = std::max(5, g + 2); return g; };
    for (std::string bc : {"periodic", "neumann"}) {
        for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler1"}) for (auto& f : cfgs::fluxesOf(eq)) for (std::string r : {"none", "eno3", "weno2", "mc", "mm"}) { const int g = width(f, r); if (g > 3 && r != "none") continue; if (r != "none" && reinterpret_cast<const char*>(f.c_str())[0] == 't' && f != "tecno1") continue;
            for (auto in : {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) { if (r != "none" && std::string(in) != "rungekutta2") continue; if (f == "central" && std::string(in) != "rungekutta3") continue; bool small = r == "none" && f != "central" && f.substr(0, 5) != "tecno"; words(shape(mk(1, eq, f, r, in, bc), {{std::max(5, g), 1, 1}}, small ? "auto" : "0.2"), W, 3); } }
        for (std::string eq : {"burgers", "linear", "cubic", "buckleyleverett", "euler2"}) for (auto& f : cfgs::fluxesOf(eq)) for (std::string r : {"none", "eno2"}) { const int g = width(f, r); if (r != "none" && f != "tecno1" && f.substr(0, 5) == "tecno") continue; words(shape(mk(2, eq, f, r, "rungekutta2", bc), {{std::max(3, g), std::max(2, g), 1}}, "0.2"), W, 2); words(shape(mk(2, eq, f, r, "forwardeuler", bc), {{std::max(2, g), std::max(4, g), 1}}, "0.15"), W, 2); }
        for (std::string eq : {"burgers", "linear", "cubic", "buckleyleverett", "euler3"}) for (auto& f : cfgs::fluxesOf(eq)) { const int g = width(f, "none"); if (g > 3 && !T) continue; words(shape(mk(3, eq, f, "none", "rungekutta2", bc), {{std::max(3, g), std::max(2, g), std::max(2, g)}}, "0.15"), W / 2, 2); }
        for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett"}) runs(shape(mk(1, eq, eq == "linear" ? "upwind" : "rusanov", "none", "forwardeuler", bc), {{5, 1, 1}}, "auto")); runs(shape(mk(1, "euler1", "hll3", "none", "rungekutta2", bc), {{6, 1, 1}}, "auto")); runs(shape(mk(1, "burgers", "godunov", "mc", "rungekutta3", bc), {{6, 1, 1}}, "auto"));
        runs(shape(mk(2, "euler2", "hll", "none", "forwardeuler", bc), {{3, 4, 1}}, "auto")); runs(shape(mk(3, "burgers", "rusanov", "mm", "rungekutta2", bc), {{2, 3, 2}}, "auto"));
    }
    return hx::finish();
}
