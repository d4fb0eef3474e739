// One simulator driven step by step from states the harness sets; used by the explorers whose states are cell words.
#pragma once
#include "rig.hpp"
#include "cfgs.hpp"
#include "alsfvm/integrator/TimestepAdjuster.hpp"
#include <mpi.h>
#include <functional>
namespace rig {
struct FixedDt : integrator::TimestepAdjuster { double dt = 0; mutable double asked = 0; real adjustTimestep(real d, const simulator::TimestepInformation&) const override { asked = d; return dt > 0 ? dt : d; } };
struct Last : io::Writer {      // keeps the state after the last step, variable by variable, x fastest
    Vec u; double time = 0; size_t steps = 0, calls = 0; std::shared_ptr<std::vector<real>> buf = std::make_shared<std::vector<real>>();
    void write(const volume::Volume& v, const grid::Grid&, const simulator::TimestepInformation& t) override {
        time = t.getCurrentTime(); steps = t.getNumberOfStepsPerformed(); calls++; const size_t c = v.getNumberOfXCells() * v.getNumberOfYCells() * v.getNumberOfZCells(), nv = v.getNumberOfVariables(); u.resize(c * nv); buf->resize(c);
        for (size_t k = 0; k < nv; ++k) { v.copyInternalCells(k, buf->data(), c); for (size_t i = 0; i < c; ++i) u[k * c + i] = (*buf)[i]; }
    }
};
struct Stepper {
    simx::Cfg c; simx::Sim sm; std::shared_ptr<Last> last = std::make_shared<Last>(); std::shared_ptr<FixedDt> fix = std::make_shared<FixedDt>(); Parts P; Vol v; size_t cells; double t0 = 0; int uses = 0;
    explicit Stepper(const simx::Cfg& c_) : c(c_), P(c.equation, c.n, c.gamma, {{c.upper[0] - c.lower[0], c.upper[1] - c.lower[1], c.upper[2] - c.lower[2]}}, c.boundary == "periodic" ? boundary::allPeriodic() : boundary::allNeumann(), c.lower) { cells = size_t(c.n[0]) * c.n[1] * c.n[2]; build(); }
    void build() {
        c.endTime = 1e30; last = std::make_shared<Last>(); sm = simx::makeMpi(simx::writeFile("cfg.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1); sm.sim->addWriter(last); std::shared_ptr<integrator::TimestepAdjuster> a = fix; sm.sim->addTimestepAdjuster(a);
        const double safe = c.nvar() == 1 ? 0.5 : 1; auto nv = c.nvar(); Vec s = nv == 1 ? Vec{safe} : simx::eulerConserved(Vec(nv, 1.0), c.gamma);
        alsfvm::shared_ptr<init::InitialData> d(new simx::CellData([=](int q, int, int, int) { return s[q]; })); sm.sim->setInitialValue(d); sm.sim->callWriters(); t0 = last->time; uses = 0;
    }
    double dx(int d) const { return d < c.dim() ? (c.upper[d] - c.lower[d]) / c.n[d] : 1; }
    template<class F> void set(F state) {      // state(i, j, k) -> Vec
        if (++uses > 200) build();             // so that the growing time does not cost accuracy
        if (!v.v) { auto ng = ghost(); v = P.vol(ng); }
        v.eachAll([&](int i, int j, int k) { Vec s = state(wrap(i, c.n[0]), wrap(j, c.n[1]), wrap(k, c.n[2])); for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = s[a]; });
        sm.sim->setSimulationState(*v.v); sm.sim->callWriters(); t0 = last->time;
    }
    int ghost() { auto fl = P.flux(c.flux, c.recon); auto df = P.diffusion(c.diffusion, c.diffRecon); return int(std::max(fl->getNumberOfGhostCells(), df->getNumberOfGhostCells())); }
    bool step(std::string* why = nullptr) { t0 = last->time; try { sm.sim->performStep(); } catch (std::exception& e) { if (why) *why = e.what(); build(); return false; } return true; }
    double dt() const { return last->time - t0; }
    const Vec& u() const { return last->u; }
    double at(int var, int i, int j = 0, int k = 0) const { return last->u[var * cells + i + size_t(c.n[0]) * (j + size_t(c.n[1]) * k)]; }
    Vec state(int i, int j = 0, int k = 0) const { Vec s; for (int a = 0; a < c.nvar(); ++a) s.push_back(at(a, i, j, k)); return s; }
};
inline std::vector<int> digits(long w, int base, int n) { std::vector<int> d(n); for (int i = 0; i < n; ++i) { d[i] = int(w % base); w /= base; } return d; }
inline std::string showDigits(const std::vector<int>& d) { std::string s; for (int x : d) s += char('0' + x); return s; }
inline long power(long b, int n) { long r = 1; while (n--) r *= b; return r; }
// All words of n letters if there are at most `most` of them; otherwise all words with at most K cells different from a
// constant background (every background), for the largest K that keeps within `most` (but at least 1).
inline std::vector<std::vector<int>> wordsUpTo(int n, int base, long most) {
    std::vector<std::vector<int>> out; double all = std::pow(double(base), n);
    if (all <= most) { for (long w = 0; w < long(all); ++w) out.push_back(digits(w, base, n)); return out; }
    int K = 0; double c = 1, sum = 1; for (int k = 1; k <= n; ++k) { c = c * (n - k + 1) / k; double more = c * std::pow(base - 1.0, k); if (k > 1 && (sum + more) * base > most) break; sum += more; K = k; }
    std::function<void(std::vector<int>&, int, int, int)> rec = [&](std::vector<int>& d, int from, int left, int bg) { out.push_back(d); if (!left) return; for (int i = from; i < n; ++i) for (int x = 0; x < base; ++x) if (x != bg) { d[i] = x; rec(d, i + 1, left - 1, bg); d[i] = bg; } };
    for (int bg = 0; bg < base; ++bg) { std::vector<int> d(n, bg); rec(d, 0, K, bg); }
    return out;
}
// admissible states used as letters
inline std::vector<Vec> letters(const std::string& eq, double gamma, bool logEntropy = false) {
    if (eq == "burgers") return logEntropy ? std::vector<Vec>{{0.3}, {1.0}, {1.6}, {0.7}} : std::vector<Vec>{{-1}, {0.25}, {1}, {-0.5}};
    if (eq == "cubic") return {{-1}, {0.25}, {1}, {-0.5}};
    if (eq == "linear") return {{-1}, {0.25}, {2}, {-0.5}};
    if (eq == "buckleyleverett") return {{0}, {0.3}, {1}, {0.7}};
    const int d = eq[5] - '0'; auto E = [&](double r, std::array<double, 3> u, double p) { Vec w{r}; for (int i = 0; i < d; ++i) w.push_back(u[i]); w.push_back(p); return simx::eulerConserved(w, gamma); };
    return {E(1, {{0, 0.3, -0.2}}, 1), E(0.6, {{0.8, -0.5, 0.1}}, 0.7), E(1.4, {{-0.6, 0, 0.5}}, 1.2), E(1, {{0, 0, 0}}, 1.5)};
}
}
