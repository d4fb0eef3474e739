// C27: equation algebra on every state of a finite set, and the discrete entropy identity (inequality) of the
// entropy conservative fluxes (diffusion operators) for every periodic word over a small alphabet of states.
#include "rig.hpp"
#include "cfgs.hpp"
#include "alsfvm/equation/euler/Euler.hpp"
#include "alsfvm/equation/burgers/Burgers.hpp"
#include "alsfvm/equation/cubic/Cubic.hpp"
#include "alsfvm/equation/linear/Linear.hpp"
#include "alsfvm/equation/buckleyleverett/BuckleyLeverett.hpp"
#include <complex>
using namespace rig;
typedef std::complex<double> cd;
static Vec entropyVars(const Vec& c, double g) {
    Vec w = prim(c, g), v(c.size()); const int d = int(c.size()) - 2; double q = 0; for (int i = 1; i <= d; ++i) q += w[i] * w[i];
    const double s = std::log(w[d + 1]) - g * std::log(w[0]); v[0] = (g - s) / (g - 1) - w[0] * q / (2 * w[d + 1]);
    for (int i = 1; i <= d; ++i) v[i] = w[0] * w[i] / w[d + 1]; v[d + 1] = -w[0] / w[d + 1]; return v;
}
static std::vector<cd> cflux(const std::vector<cd>& c, int dir, double g) {   // Euler flux in complex arithmetic, for exact derivatives
    const int d = int(c.size()) - 2; cd q = 0; for (int i = 1; i <= d; ++i) q += c[i] * c[i]; cd p = (g - 1) * (c[d + 1] - 0.5 * q / c[0]), u = c[1 + dir] / c[0]; std::vector<cd> f(c.size());
    f[0] = c[1 + dir]; for (int i = 1; i <= d; ++i) f[i] = c[i] * u + (i == 1 + dir ? p : cd(0)); f[d + 1] = (c[d + 1] + p) * u; return f;
}
static std::vector<cd> centropy(const std::vector<cd>& c, double g) { const int d = int(c.size()) - 2; cd q = 0; for (int i = 1; i <= d; ++i) q += c[i] * c[i]; cd p = (g - 1) * (c[d + 1] - 0.5 * q / c[0]), s = std::log(p) - g * std::log(c[0]); std::vector<cd> v(c.size()); v[0] = (g - s) / (g - 1) - q / c[0] / (2.0 * p); for (int i = 1; i <= d; ++i) v[i] = c[i] / p; v[d + 1] = -c[0] / p; return v; }
static Vec jacTimes(const Vec& c, const Vec& r, int dir, double g) { std::vector<cd> z(c.size()); for (size_t i = 0; i < c.size(); ++i) z[i] = cd(c[i], 1e-150 * r[i]); auto f = cflux(z, dir, g); Vec o(c.size()); for (size_t i = 0; i < c.size(); ++i) o[i] = f[i].imag() / 1e-150; return o; }
static double absDet(std::vector<Vec> m) { double det = 1; const size_t n = m.size(); for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t r = i; r < n; ++r) if (std::fabs(m[r][i]) > std::fabs(m[p][i])) p = r; std::swap(m[p], m[i]); if (m[i][i] == 0) return 0; det *= std::fabs(m[i][i]); for (size_t r = i + 1; r < n; ++r) { double f = m[r][i] / m[i][i]; for (size_t q = i; q < n; ++q) m[r][q] -= f * m[i][q]; } } return det; }
static bool close(double a, double b, double tol, double scale = 1) { return std::fabs(a - b) <= tol * std::max(scale, std::max(std::fabs(a), std::fabs(b))); }

template<int nsd> struct Mk { static equation::euler::ConservedVariables<nsd> c(const Vec& v) { typename Types<nsd>::rvec m; for (int i = 0; i < nsd; ++i) m[i] = v[1 + i]; return equation::euler::ConservedVariables<nsd>(v[0], m, v[nsd + 1]); } };
template<int nsd, int dir> static std::string directional(const equation::euler::Euler<nsd>& eq, const Vec& U, double g) {
    auto c = Mk<nsd>::c(U); auto all = eq.makeAllVariables(c.rho, c.m, c.E); Vec w = prim(U, g); const double a = std::sqrt(g * w.back() / w[0]), scale = std::max(1.0, maxAbs(U)) * (1 + std::fabs(w[1 + dir]) + a);
    equation::euler::ConservedVariables<nsd> F; eq.template computePointFlux<dir>(all, F); Vec f = pointFlux("euler", U, dir, g), got(U.size()); for (size_t i = 0; i < U.size(); ++i) got[i] = F[i];
    if (maxAbs(got - f) > 1e-12 * std::max(1.0, maxAbs(f))) return hx::cat("point flux ", show(got), " instead of ", show(f));
    auto ev = eq.template computeEigenValues<dir>(c); std::vector<double> lam; for (size_t i = 0; i < U.size(); ++i) lam.push_back(ev[i]);
    auto sorted = lam; std::sort(sorted.begin(), sorted.end()); std::vector<double> want(U.size(), w[1 + dir]); want.front() -= a; want.back() += a;
    for (size_t i = 0; i < want.size(); ++i) if (!close(sorted[i], want[i], 1e-11)) return hx::cat("direction ", dir, " eigenvalues ", show(sorted), " instead of ", show(want));
    auto R = eq.template computeEigenVectorMatrix<dir>(c); std::vector<Vec> cols; double norms = 1;
    for (size_t q = 0; q < U.size(); ++q) { Vec r(U.size()); for (size_t i = 0; i < U.size(); ++i) r[i] = R(i, q); const double n = std::sqrt(dot(r, r)); if (!(n > 0)) return "vanishing eigenvector"; norms *= n;
        Vec Ar = jacTimes(U, r, dir, g), d = Ar - lam[q] * r; if (maxAbs(d) > 1e-10 * n * scale * (1 + maxAbs(w))) return hx::cat("direction ", dir, " column ", q, " ", show(r), " is not an eigenvector to ", lam[q], ": residual ", show(d)); cols.push_back(r); }
    // entropy scaling: R R^T is the derivative of the conserved variables by the entropy variables, that is dv/du R R^T = 1
    for (size_t q = 0; q < U.size(); ++q) { Vec e(U.size()); for (size_t i = 0; i < U.size(); ++i) e = e + cols[i][q] * cols[i]; std::vector<cd> z(U.size()); for (size_t i = 0; i < U.size(); ++i) z[i] = cd(U[i], 1e-150 * e[i]);
        auto cv = centropy(z, g); for (size_t i = 0; i < U.size(); ++i) { const double got = cv[i].imag() / 1e-150, want = i == q; if (!(std::fabs(got - want) <= 1e-9 * std::pow(1 + scale, 2) * (1 + maxAbs(w)))) return hx::cat("direction ", dir, ": the eigenvectors are not scaled by the entropy (", i, ",", q, "): ", got); } }
    if (absDet(cols) < 1e-6 * norms / std::pow(1 + maxAbs(w) + scale, double(U.size()))) return "eigenvectors are not independent";
    if (!close(eq.template computeWaveSpeed<dir>(c, eq.computeExtra(c)), std::fabs(w[1 + dir]) + a, 1e-12)) return "wave speed is not the largest eigenvalue";
    auto v = eq.computeEntropyVariables(c); Vec vv(U.size()); for (size_t i = 0; i < U.size(); ++i) vv[i] = v[i];
    const double s = std::log(w.back()) - g * std::log(w[0]), q = w[1 + dir] * (-w[0] * s / (g - 1)), psi = dot(vv, f) - q;
    if (!close(eq.computeEntropyPotential(c)[dir], psi, 1e-10, 1 + std::fabs(dot(vv, f)))) return hx::cat("entropy potential ", eq.computeEntropyPotential(c)[dir], " instead of ", psi);
    auto rv = eq.template computeEntropyVariablesMultipliedByEigenVectorMatrix<dir>(c); for (size_t i = 0; i < U.size(); ++i) if (!close(rv[i], dot(cols[i], vv), 1e-10, 1 + std::sqrt(dot(cols[i], cols[i]) * dot(vv, vv)))) return "scaled entropy variables are not R^T v";
    return "";
}
template<int nsd> static std::string algebra(const Vec& U, double g) {
    equation::euler::EulerParameters par; par.setGamma(g); equation::euler::Euler<nsd> eq(par); auto c = Mk<nsd>::c(U); Vec w = prim(U, g);
    auto pv = eq.computePrimitiveVariables(c); auto ex = eq.computeExtra(c); auto back = eq.computeConserved(pv);
    if (!close(pv.rho, w[0], 1e-13) || !close(pv.p, w.back(), 1e-11, maxAbs(U)) || !close(ex.p, w.back(), 1e-11, maxAbs(U))) return "primitive density or pressure is wrong";
    for (int i = 0; i < nsd; ++i) if (!close(pv.u[i], w[1 + i], 1e-13) || !close(ex.u[i], w[1 + i], 1e-13)) return "primitive velocity is wrong";
    for (size_t i = 0; i < U.size(); ++i) if (!close(back[i], U[i], 1e-12, maxAbs(U))) return hx::cat("conserved -> primitive -> conserved changes component ", i);
    if (!eq.obeysConstraints(c, ex)) return "admissible state rejected";
    auto v = eq.computeEntropyVariables(c); Vec want = entropyVars(U, g); for (size_t i = 0; i < U.size(); ++i) if (!close(v[i], want[i], 1e-11, 1 + maxAbs(want))) return hx::cat("entropy variable ", i, " is ", v[i], " instead of ", want[i]);
    auto z = eq.computeTecnoVariables(c).z; const double r = std::sqrt(w[0] / w.back()); if (!close(z[0], r, 1e-11) || !close(z[nsd + 1], std::sqrt(w[0] * w.back()), 1e-11)) return "parameter vector z is wrong"; for (int i = 0; i < nsd; ++i) if (!close(z[1 + i], r * w[1 + i], 1e-11)) return "parameter vector z is wrong";
    std::string e = directional<nsd, 0>(eq, U, g); if (e.empty() && nsd > 1) e = directional<nsd, (nsd > 1 ? 1 : 0)>(eq, U, g); if (e.empty() && nsd > 2) e = directional<nsd, (nsd > 2 ? 2 : 0)>(eq, U, g); return e;
}
static std::vector<Vec> states(int dim, double g) {
    std::vector<Vec> r; for (double a : {0.05, 0.25, 1.0, 3.0}) for (double p : {0.1, 1.0, 2.0, 25.0}) for (double u : {-4.0, -1.2, 0.0, 0.7, 2.0}) for (double v : (dim > 1 ? Vec{-0.5, 0, 1.1} : Vec{0})) for (double x : (dim > 2 ? Vec{0.3, -0.8} : Vec{0})) { Vec w{a, u}; if (dim > 1) w.push_back(v); if (dim > 2) w.push_back(x); w.push_back(p); r.push_back(simx::eulerConserved(w, g)); } return r;
}
template<class Eq> static std::string scalarAlgebra(const std::string& eq, double u, bool entropy) {
    Eq e((typename Eq::Parameters()));
    typename Eq::AllVariables a(u); typename Eq::ConservedVariables F; e.template computePointFlux<0>(a, F); const double f = pointFlux(eq, {u}, 0, 0)[0];
    if (!close(F.u, f, 1e-13)) return hx::cat("point flux ", F.u, " instead of ", f);
    const double lam = e.template computeEigenValues<0>(a), sp = maxSpeed(eq, {u}, 0, 0); if (!close(std::fabs(lam), sp, 1e-12)) return hx::cat("eigenvalue ", lam, " but |f'| is ", sp);
    if (!close(e.template computeWaveSpeed<0>(a, typename Eq::ExtraVariables()), sp, 1e-12)) return "wave speed is not |f'|";
    if (!e.obeysConstraints(a, typename Eq::ExtraVariables())) return "finite state rejected";
    if (entropy) { const double v = e.computeEntropyVariables(a)[0], want = 1 / (2 - u) - 1 / u; if (!close(v, want, 1e-12)) return hx::cat("entropy variable ", v, " instead of ", want);
        auto psi = [&](double x) { return double(e.computeEntropyPotential(typename Eq::AllVariables(x))[0]); }; auto vv = [&](double x) { return double(e.computeEntropyVariables(typename Eq::AllVariables(x))[0]); };
        const double h = 1e-4 * std::min(u, 2 - u), d = (psi(u + h) - psi(u - h)) / (vv(u + h) - vv(u - h)); if (!close(d, f, 1e-6)) return hx::cat("the derivative of the entropy potential ", d, " is not the flux ", f); }
    return "";
}
static void volumes(int dim) {   // whole-volume conversions through the cell computer
    const std::string eq = cfgs::spatialDims(dim), name = "convert-" + eq; if (!hx::begin(name)) return;
    auto st = states(dim, 1.4); I3 n{{3, dim > 1 ? 4 : 1, dim > 2 ? 5 : 1}}; Parts P(eq, n); auto cc = P.computer(); const size_t per = size_t(n[0]) * n[1] * n[2];
    for (int ghost : {1, 2}) for (size_t off = 0; off < st.size(); ++off) {
        hx::count("evaluations"); hx::count("nontrivial");
        Vol c = P.vol(ghost), back = P.vol(ghost), pr(P.vf->createPrimitiveVolume(n[0], n[1], n[2], ghost)), ex(P.vf->createExtraVolume(n[0], n[1], n[2], ghost));
        auto at = [&](int i, int j, int k) -> const Vec& { return st[(off + i + n[0] * (j + size_t(n[1]) * k)) % st.size()]; };
        c.periodic([&](int a, int i, int j, int k) { return at(i, j, k)[a]; });
        auto id = [&](Vol& v, const char* nm) { return int(v.v->getIndexFromName(nm)); };
        const char* un[] = {"vx", "vy", "vz"}; const char* uu[] = {"ux", "uy", "uz"};
        pr.periodic([&](int a, int i, int j, int k) { Vec w = prim(at(i, j, k), 1.4); if (a == id(pr, "rho")) return w[0]; if (a == id(pr, "p")) return w.back(); for (int d = 0; d < dim; ++d) if (pr.v->getName(a) == uu[d]) return w[1 + d]; return 1e9; });
        cc->computeFromPrimitive(*pr.v, *back.v); cc->computeExtraVariables(*c.v, *ex.v);
        std::string bad; double ws[3] = {0, 0, 0};
        c.eachInner([&](int i, int j, int k) { Vec u = at(i, j, k), w = prim(u, 1.4); for (int a = 0; a < c.vars(); ++a) if (!close(back.at(a, i, j, k), u[a], 1e-11, maxAbs(u))) bad = hx::cat("primitive volume gives ", back.at(a, i, j, k), " for conserved variable ", a, " instead of ", u[a]);
            for (int a = 0; a < ex.vars(); ++a) { std::string nm = ex.v->getName(a); double want = nm == "p" ? w.back() : 0; for (int d = 0; d < dim; ++d) if (nm == un[d] || nm == uu[d]) want = w[1 + d]; if (!close(ex.at(a, i, j, k), want, 1e-10, maxAbs(u))) bad = hx::cat("extra variable ", nm, " is ", ex.at(a, i, j, k), " instead of ", want); }
            for (int d = 0; d < dim; ++d) ws[d] = std::max(ws[d], maxSpeed(eq, u, d, 1.4)); });
        for (int d = 0; d < dim; ++d) if (!close(cc->computeMaxWaveSpeed(*c.v, d), ws[d], 1e-12)) bad = hx::cat("largest wave speed in direction ", d, " is ", cc->computeMaxWaveSpeed(*c.v, d), " instead of ", ws[d]);
        if (!cc->obeysConstraints(*c.v)) bad = "an admissible volume is rejected";
        if (!bad.empty()) { hx::viol("convert", bad); break; }
    }
}
// Discrete entropy of words
static double entropyRate(const std::string& eq, double g, Vol& in, Vol& out, double& scale) {
    double s = 0; scale = 0; in.eachInner([&](int i, int j, int k) { Vec u = in.state(i, j, k), o = out.state(i, j, k), v = eq == "burgers" ? Vec{1 / (2 - u[0]) - 1 / u[0]} : entropyVars(u, g); s += dot(v, o); for (size_t a = 0; a < v.size(); ++a) scale += std::fabs(v[a] * o[a]); }); return s;
}
static void words(const std::string& eq, int dim, int dir, const std::vector<Vec>& alpha, int len, double g, bool twoD = false) {
    I3 n{{2, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; n[dir] = len; if (twoD) n = I3{{3, 3, dim > 2 ? 2 : 1}}; const int cells = twoD ? 9 : len; Parts P(eq, n, g, {{double(n[0]), double(n[1]), double(n[2])}});
    struct Op { std::string name; std::function<void(Vol&, Vol&)> f; int ghost; bool exact; };
    std::vector<Op> ops;
    for (std::string f : {"tecno1", "tecno4", "tecno6"}) { auto fl = P.flux(f, "none"); ops.push_back({f, [fl](Vol& a, Vol& b) { rvec3 ws(0, 0, 0); fl->computeFlux(*a.v, ws, true, *b.v); }, int(fl->getNumberOfGhostCells()), true}); }
    for (std::string d : {"tecnoroe", "tecnorusanov"}) for (std::string r : {"none", "eno2", "eno3", "eno4"}) { auto df = P.diffusion(d, r); ops.push_back({d + "-" + r, [df](Vol& a, Vol& b) { df->applyDiffusion(*b.v, *a.v); }, std::max(1, int(df->getNumberOfGhostCells())), false}); }
    long total = 1; for (int i = 0; i < cells; ++i) total *= long(alpha.size());
    for (auto& op : ops) {
        const std::string name = hx::cat("words-", eq, "-dir", dir, twoD ? "-plane" : "", "-gamma", int(g * 10 + 0.5), "-", op.name); if (!hx::begin(name)) continue; if (hx::timeUp()) return;
        Vol in = P.vol(op.ghost), out = P.vol(op.ghost); std::string bad; long skip = (op.name.find("eno") != std::string::npos || twoD) && !hx::thorough ? 3 : 1;
        for (long w = 0; w < total && bad.empty(); ++w) {
            std::vector<int> word; { long x = w; for (int i = 0; i < cells; ++i) { word.push_back(int(x % alpha.size())); x /= long(alpha.size()); } }
            if (skip > 1 && word[0] > *std::min_element(word.begin(), word.end())) continue;   // words up to rotation (partly)
            hx::count("evaluations"); bool varied = *std::max_element(word.begin(), word.end()) != *std::min_element(word.begin(), word.end()); if (varied) hx::count("nontrivial");
            in.periodic([&](int a, int i, int j, int k) { I3 x{{i, j, k}}; return alpha[word[twoD ? i + 3 * j : x[dir]]][a]; }); out.fill(0); op.f(in, out);
            double sc, e = entropyRate(eq, g, in, out, sc); std::string ws; for (int x : word) ws += char('0' + x);
            if (!std::isfinite(e)) bad = "word " + ws + ": not finite";
            else if (op.exact ? std::fabs(e) > 1e-10 * (1 + sc) : e > 1e-10 * (1 + sc)) bad = hx::cat("word ", ws, ": entropy ", op.exact ? "is not conserved" : "grows", ", rate ", e, " (terms of size ", sc, ")");
            else if (!op.exact && varied && op.name.find("none") != std::string::npos && op.name.find("rusanov") != std::string::npos && e > -1e-9) bad = hx::cat("word ", ws, ": no entropy dissipation, rate ", e);
        }
        if (!bad.empty()) hx::viol("entropy-words", bad); hx::sample(name);
    }
}
int main(int argc, char** argv) {
    hx::init(argc, argv);
    for (double g : {1.4, 2.0, 5.0 / 3}) for (int dim = 1; dim <= 3; ++dim) if (hx::begin(hx::cat("algebra-euler", dim, "-gamma", int(g * 10)))) for (auto& U : states(dim, g)) {
        hx::count("evaluations"); hx::count("nontrivial"); std::string e = dim == 1 ? algebra<1>(U, g) : dim == 2 ? algebra<2>(U, g) : algebra<3>(U, g); if (!e.empty()) { hx::viol("algebra", show(U) + ": " + e); break; } }
    if (hx::begin("algebra-scalar")) for (int i = -40; i <= 40; ++i) { const double u = i / 20.0; std::string e = scalarAlgebra<equation::burgers::Burgers>("burgers", u, u > 0 && u < 2); hx::count("evaluations", 4); hx::count("nontrivial", 4);
        if (e.empty()) e = scalarAlgebra<equation::cubic::Cubic>("cubic", u, false); if (e.empty()) e = scalarAlgebra<equation::linear::Linear>("linear", u, false); if (e.empty() && u >= 0 && u <= 1) e = scalarAlgebra<equation::buckleyleverett::BuckleyLeverett>("buckleyleverett", u, false); if (!e.empty()) { hx::viol("algebra", hx::cat("u=", u, ": ", e)); break; } }
    for (int d = 1; d <= 3; ++d) volumes(d);
    std::vector<Vec> b; for (double u : {0.1, 0.6, 1.0, 1.7}) b.push_back({u});
    for (int dim = 1; dim <= 3; ++dim) for (int dir = 0; dir < dim; ++dir) { hx::count("cases"); if (dim < 3 || hx::thorough || dir == 2) words("burgers", dim, dir, b, hx::thorough ? 7 : 6, 1.4); }
    for (double g : {1.4, 2.0}) { auto E = [&](Vec w) { return simx::eulerConserved(w, g); };
        if (g == 1.4 || hx::thorough) words("euler1", 1, 0, {E({1, 0, 1}), E({0.2, -1.5, 0.3}), E({2, 3, 1}), E({1, 0, 4}), E({0.7, 0.4, 0.7})}, hx::thorough ? 7 : 6, g);
        std::vector<Vec> a2{E({1, 0, 0.4, 1}), E({0.2, -1.5, 1, 0.3}), E({2, 3, -0.7, 1}), E({1, 0, 0, 4})}, a3{E({1, 0, 0.4, -1, 1}), E({0.2, -1.5, 1, 0.2, 0.3}), E({2, 3, -0.7, 0, 1})};
        if (g == 1.4 || hx::thorough) for (int dir = 0; dir < 2; ++dir) { auto s = a2; for (auto& u : s) if (dir) std::swap(u[1], u[2]); words("euler2", 2, dir, s, hx::thorough ? 7 : 6, g); }
        if (g == 2.0 || hx::thorough) for (int dir = 0; dir < 3; ++dir) { auto s = a3; for (auto& u : s) if (dir) std::swap(u[1], u[1 + dir]); words("euler3", 3, dir, s, hx::thorough ? 7 : 6, g); }
        if (g == 1.4) words("euler2", 2, 0, {a2[1], a2[2], a2[0]}, 3, g, true);
        if (g == 1.4 && hx::thorough) words("euler3", 3, 0, {a3[1], a3[2]}, 3, g, true);
    }
    return hx::finish();
}
