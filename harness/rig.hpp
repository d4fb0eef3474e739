// Parts of a simulation built through the real factories, on volumes the harness fills and reads.
#pragma once
#include "hx.hpp"
#include "sim.hpp"
#include "alsfvm/numflux/NumericalFluxFactory.hpp"
#include "alsfvm/reconstruction/ReconstructionFactory.hpp"
#include "alsfvm/diffusion/DiffusionFactory.hpp"
#include "alsfvm/equation/CellComputerFactory.hpp"
#include "alsfvm/equation/euler/EulerParameters.hpp"
#include "alsfvm/volume/VolumeFactory.hpp"
#include "alsfvm/volume/Volume.hpp"
#include "alsfvm/memory/MemoryFactory.hpp"
#include <array>
namespace rig {
using namespace alsfvm;
typedef std::array<int, 3> I3;
typedef std::vector<double> Vec;
inline int wrap(int i, int n) { return ((i % n) + n) % n; }
// A volume with convenient access; x[d] counts from the first interior cell.
struct Vol {
    std::shared_ptr<volume::Volume> v; I3 n, g; int tx, ty; std::vector<real*> p;
    Vol() {}
    explicit Vol(std::shared_ptr<volume::Volume> vol) : v(vol) {
        n = {{int(v->getNumberOfXCells()), int(v->getNumberOfYCells()), int(v->getNumberOfZCells())}};
        g = {{int(v->getNumberOfXGhostCells()), int(v->getNumberOfYGhostCells()), int(v->getNumberOfZGhostCells())}};
        tx = n[0] + 2 * g[0]; ty = n[1] + 2 * g[1]; for (size_t i = 0; i < v->getNumberOfVariables(); ++i) p.push_back(v->getScalarMemoryArea(i)->getPointer());
    }
    int vars() const { return int(p.size()); }
    real& at(int var, int i, int j = 0, int k = 0) { return p[var][(i + g[0]) + size_t(tx) * ((j + g[1]) + size_t(ty) * (k + g[2]))]; }
    real& at(int var, const I3& x) { return at(var, x[0], x[1], x[2]); }
    template<class F> void eachInner(F f) const { for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) f(i, j, k); }
    template<class F> void eachAll(F f) const { for (int k = -g[2]; k < n[2] + g[2]; ++k) for (int j = -g[1]; j < n[1] + g[1]; ++j) for (int i = -g[0]; i < n[0] + g[0]; ++i) f(i, j, k); }
    void fill(double x) { eachAll([&](int i, int j, int k) { for (int a = 0; a < vars(); ++a) at(a, i, j, k) = x; }); }
    // periodic fill of every cell (corners too) from f(var, i, j, k)
    template<class F> void periodic(F f) { eachAll([&](int i, int j, int k) { for (int a = 0; a < vars(); ++a) at(a, i, j, k) = f(a, wrap(i, n[0]), wrap(j, n[1]), wrap(k, n[2])); }); }
    Vec state(int i, int j = 0, int k = 0) { Vec r(vars()); for (int a = 0; a < vars(); ++a) r[a] = at(a, i, j, k); return r; }
    Vec state(const I3& x) { return state(x[0], x[1], x[2]); }
};
struct Parts {
    std::string eq; int dim; I3 n; double gamma;
    std::shared_ptr<DeviceConfiguration> dev; std::shared_ptr<memory::MemoryFactory> mf; std::shared_ptr<simulator::SimulatorParameters> par;
    std::shared_ptr<volume::VolumeFactory> vf; std::shared_ptr<grid::Grid> grid;
    Parts(const std::string& eq, I3 n, double gamma = 1.4, std::array<double, 3> len = {{1, 1, 1}}, std::array<boundary::Type, 6> bc = boundary::allPeriodic(), std::array<double, 3> lo = {{0, 0, 0}}) : eq(eq), n(n), gamma(gamma) {
        dim = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1;
        dev = std::make_shared<DeviceConfiguration>("cpu"); mf = std::make_shared<memory::MemoryFactory>(dev); par = std::make_shared<simulator::SimulatorParameters>(eq, "cpu");
        if (eq.substr(0, 5) == "euler") static_cast<equation::euler::EulerParameters&>(par->getEquationParameters()).setGamma(gamma);
        vf = std::make_shared<volume::VolumeFactory>(eq, mf);
        rvec3 a(lo[0], lo[1], lo[2]), b(lo[0] + len[0], dim > 1 ? lo[1] + len[1] : lo[1], dim > 2 ? lo[2] + len[2] : lo[2]);
        grid = std::make_shared<alsfvm::grid::Grid>(a, b, ivec3(n[0], n[1], n[2]), bc);
    }
    std::shared_ptr<numflux::NumericalFlux> flux(const std::string& f, const std::string& rec) { numflux::NumericalFluxFactory ff(eq, f, rec, par, dev); return ff.createNumericalFlux(*grid); }
    std::shared_ptr<diffusion::DiffusionOperator> diffusion(const std::string& d, const std::string& rec) { diffusion::DiffusionFactory df; return df.createDiffusionOperator(eq, d, rec, *grid, *par, dev, mf, *vf); }
    std::shared_ptr<reconstruction::Reconstruction> recon(const std::string& r) { reconstruction::ReconstructionFactory rf; return rf.createReconstruction(r, eq, *par, mf, *grid, dev); }
    std::shared_ptr<equation::CellComputer> computer() { equation::CellComputerFactory cf(par, dev); return cf.createComputer(); }
    Vol vol(int ghost) { return Vol(vf->createConservedVolume(n[0], n[1], n[2], ghost)); }
};
// Physics, written independently of the code under test.
inline Vec prim(const Vec& c, double gamma) { int d = int(c.size()) - 2; Vec w(c); long double q = 0; for (int i = 1; i <= d; ++i) { w[i] = c[i] / c[0]; q += (long double)c[i] * c[i]; } w[d + 1] = double((gamma - 1) * (c[d + 1] - q / 2 / c[0])); return w; }
inline Vec pointFlux(const std::string& eq, const Vec& c, int dir, double gamma) {
    const long double u = c[0];
    if (eq == "burgers") return {double(u * u / 2)};
    if (eq == "cubic") return {double(u * u * u / 3)};
    if (eq == "linear") return {double(u)};
    if (eq == "buckleyleverett") return {double(u * u / (u * u + (1 - u) * (1 - u)))};
    Vec w = prim(c, gamma), f(c.size()); const int d = int(c.size()) - 2;
    f[0] = c[1 + dir]; for (int i = 1; i <= d; ++i) f[i] = c[i] * w[1 + dir] + (i == 1 + dir ? w[d + 1] : 0);
    f[d + 1] = (c[d + 1] + w[d + 1]) * w[1 + dir]; return f;
}
inline double maxSpeed(const std::string& eq, const Vec& c, int dir, double gamma) {
    const double u = c[0];
    if (eq == "burgers") return std::fabs(u);
    if (eq == "cubic") return u * u;
    if (eq == "linear") return 1;
    if (eq == "buckleyleverett") { double q = u * u + (1 - u) * (1 - u); return std::fabs(2 * u * (1 - u) / (q * q)); }
    Vec w = prim(c, gamma); return std::fabs(w[1 + dir]) + std::sqrt(gamma * w.back() / w[0]);
}
inline std::string show(const Vec& v) { std::ostringstream s; s.precision(17); s << "("; for (size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i]; s << ")"; return s.str(); }
inline double maxAbs(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
inline Vec operator+(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
inline Vec operator-(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
inline Vec operator*(double s, Vec a) { for (auto& x : a) x *= s; return a; }
inline double dot(const Vec& a, const Vec& b) { long double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (long double)a[i] * b[i]; return double(s); }
inline bool finite(const Vec& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
}
