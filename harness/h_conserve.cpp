// C07: totals and constant states, over the configuration matrix and all words over a small alphabet of cell states.
#include "steprig.hpp"
using namespace rig;
static void run(simx::Cfg c, int steps, long maxWords) {
    const std::string name = c.str(); if (!hx::begin(name)) return; if (hx::timeUp()) return; hx::sample(name);
    Stepper s(c); const auto A = letters(c.equation, c.gamma, c.flux.substr(0, 5) == "tecno" || c.diffusion != "none"); const int nv = c.nvar(), n = int(s.cells); std::string bad;
    // constants
    for (size_t a = 0; a < A.size() && bad.empty(); ++a) { hx::count("evaluations"); bool still = c.nvar() == 1 && maxSpeed(c.equation, A[a], 0, c.gamma) == 0; if (still) continue; s.set([&](int, int, int) { return A[a]; }); for (int t = 0; t < steps && bad.empty(); ++t) { std::string why; if (!s.step(&why)) { bad = "constant state: " + why; break; }
        for (int i = 0; i < n && bad.empty(); ++i) for (int v = 0; v < nv; ++v) if (!(std::fabs(s.u()[v * n + i] - A[a][v]) <= 2e-13 * (1 + maxAbs(A[a])))) { bad = hx::cat("the constant state ", show(A[a]), " changes at step ", t + 1, " in cell ", i, ", variable ", v, " by ", s.u()[v * n + i] - A[a][v]); break; } } }
    if (!bad.empty()) { hx::viol("constants", bad); bad.clear(); }
    if (c.boundary != "periodic") return;
    for (auto& d : wordsUpTo(n, n <= 6 ? 3 : 4, maxWords)) { if (!bad.empty()) break;
        hx::count("evaluations"); bool varied = false; for (int x : d) varied |= x != d[0]; if (varied) hx::count("nontrivial");
        auto letter = [&](int i, int j, int k) { return A[d[i + c.n[0] * (j + c.n[1] * k)]]; };
        { double fast = 0; for (int i = 0; i < n; ++i) fast = std::max(fast, maxSpeed(c.equation, A[d[i]], 0, c.gamma)); if (fast < 1e-6) continue; }   // nothing moves: no finite step
        s.set(letter); Vec tot(nv), mag(nv); auto totals = [&](Vec& o, Vec* m) { for (int v = 0; v < nv; ++v) { long double q = 0, b = 0; for (int i = 0; i < n; ++i) { q += s.u()[v * n + i]; b += std::fabs(s.u()[v * n + i]); } o[v] = double(q); if (m) (*m)[v] = double(b); } }; totals(tot, &mag); const double scale = maxAbs(mag) + 1;
        for (int t = 0; t < steps; ++t) { if (!s.step()) { hx::count("left_admissible_states"); break; } Vec now(nv), m2(nv); totals(now, &m2); for (int v = 0; v < nv; ++v) if (!(std::fabs(now[v] - tot[v]) <= 1e-12 * (scale + maxAbs(m2)))) { bad = hx::cat("word ", showDigits(d), " step ", t + 1, ": the total of variable ", v, " changes by ", now[v] - tot[v]); break; } if (!bad.empty()) break; }
    }
    if (!bad.empty()) hx::viol("totals", bad);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); using cfgs::mk; const bool T = hx::thorough; const char* recs[] = {"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"}; const char* ints[] = {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"};
    auto shape = [&](simx::Cfg c, I3 n) { c.n = n; c.lower = {{-0.5, 0.25, 1}}; c.upper = {{0.75, 2.5, 1.8}}; c.cfl = "0.2"; return c; }; const long W = T ? 20000 : 250;
    auto width = [](const std::string& f, const std::string& r) { int g = r == "eno4" ? 4 : r == "eno3" || r == "weno3" ? 3 : r == "none" ? 1 : 2; if (f == "tecno4") g = std::max(3, g + 1); if (f == "tecno6") g = std::max(5, g + 2); return g; };
    for (std::string bc : {"periodic", "neumann"}) {
        for (auto eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler1"}) for (auto& f : cfgs::fluxesOf(eq)) { for (auto in : ints) run(shape(mk(1, eq, f, "none", in, bc), {{std::max(5, width(f, "none")), 1, 1}}), 3, W); for (std::string r : recs) if (r != "none") run(shape(mk(1, eq, f, r, "rungekutta2", bc), {{std::max(5, width(f, r)), 1, 1}}), 3, W); }
        run(shape(mk(1, "euler1", "hll3", "wenof2", "rungekutta2", bc), {{6, 1, 1}}), 3, W); run(shape(mk(1, "euler1", "hll", "wenof2", "rungekutta2", bc), {{5, 1, 1}}), 3, W);
        for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler2"}) for (auto& f : cfgs::fluxesOf(eq)) for (std::string r : {"none", "eno2", "mc", "weno3"}) { int g = width(f, r); run(shape(mk(2, eq, f, r, "rungekutta2", bc), {{std::max(3, g), std::max(2, g), 1}}), 2, W); if (r != "weno3") run(shape(mk(2, eq, f, r, "rungekutta3", bc), {{std::max(2, g), std::max(4, g), 1}}), 2, W / 2); }
        for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler3"}) for (auto& f : cfgs::fluxesOf(eq)) for (std::string r : {"none", "mm"}) { int g = width(f, r); if (r == "mm" && !T && g > 2) continue; run(shape(mk(3, eq, f, r, "rungekutta2", bc), {{std::max(3, g), std::max(2, g), std::max(2, g)}}), 2, W / 2); }
        for (std::string dn : {"tecnoroe", "tecnorusanov"}) for (std::string dr : {"none", "eno2", "eno3", "eno4"}) { int g = dr == "none" ? 1 : dr.back() - '0';
            run(shape(mk(1, "burgers", "tecno1", "none", "rungekutta2", bc, dn, dr), {{std::max(5, g), 1, 1}}), 3, W); run(shape(mk(1, "euler1", "tecno4", "none", "rungekutta3", bc, dn, dr), {{std::max(5, g), 1, 1}}), 3, W);
            run(shape(mk(2, "euler2", "tecno1", "none", "rungekutta2", bc, dn, dr), {{std::max(3, g), std::max(2, g), 1}}), 2, W); run(shape(mk(2, "burgers", "tecno1", "none", "rungekutta2", bc, dn, dr), {{std::max(2, g), std::max(3, g), 1}}), 2, W); run(shape(mk(3, "euler3", "tecno1", "none", "forwardeuler", bc, dn, dr), {{std::max(2, g), std::max(3, g), std::max(2, g)}}), 2, W / 2); }
    }
    return hx::finish();
}
