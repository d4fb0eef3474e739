// C08: every numerical flux on every ordered pair of states of a finite set, in every direction, observed
// through the flux differences the real factories' flux objects compute on strips  L..L R..R (periodic).
#include "rig.hpp"
#include "cfgs.hpp"
using namespace rig;
static const int HALF = 7, N = 2 * HALF;
struct Rig {
    Parts parts; std::shared_ptr<numflux::NumericalFlux> f; Vol in, out; int dir; std::string eq; rvec3 ws;
    static I3 shape(int dim, int dir) { I3 n{{2, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; n[dir] = N; return n; }
    static std::array<double, 3> lens(int dim, int dir) { auto n = shape(dim, dir); return {{double(n[0]), double(n[1]), double(n[2])}}; }
    Rig(const std::string& eq, const std::string& flux, int dim, int dir, double gamma) : parts(eq, shape(dim, dir), gamma, lens(dim, dir)), f(parts.flux(flux, "none")), dir(dir), eq(eq) { int g = int(f->getNumberOfGhostCells()); in = parts.vol(g); out = parts.vol(g); }
    // Fluxes across L|R and R|L; "" or what is inconsistent about them
    std::string pair(const Vec& L, const Vec& R, Vec& FLR, Vec& FRL) {
        in.periodic([&](int a, int i, int j, int k) { I3 x{{i, j, k}}; return x[dir] < HALF ? L[a] : R[a]; });
        ws = rvec3(0, 0, 0); f->computeFlux(*in.v, ws, true, *out.v);
        const double g = parts.gamma; Vec fl = pointFlux(eq, L, dir, g), fr = pointFlux(eq, R, dir, g);
        double scale = std::max(1.0, std::max(std::max(maxAbs(fl), maxAbs(fr)), std::max(maxAbs(L), maxAbs(R))));
        I3 x{{0, 0, 0}}; auto o = [&](int m) { x[dir] = m; return out.state(x); };
        Vec s(L.size(), 0.0); for (int m = 4; m < HALF; ++m) s = s + o(m); FLR = fl - s;
        s.assign(L.size(), 0); for (int m = HALF; m < HALF + 4; ++m) s = s + o(m); Vec F2 = fr + s;
        s.assign(L.size(), 0); for (int m = HALF + 4; m < N; ++m) s = s + o(m); FRL = fr - s;
        s.assign(L.size(), 0); for (int m = 0; m < 4; ++m) s = s + o(m); Vec F3 = fl + s;
        scale = std::max(scale, std::max(maxAbs(FLR), maxAbs(FRL)));
        if (!finite(FLR) || !finite(FRL) || !finite(F2) || !finite(F3)) return "flux is not finite";
        if (maxAbs(FLR - F2) > 1e-12 * scale) return cat2("the flux difference between equal states does not vanish relative to the physical flux", FLR, F2);
        if (maxAbs(FRL - F3) > 1e-12 * scale) return cat2("the flux difference between equal states does not vanish relative to the physical flux", FRL, F3);
        if (maxAbs(o(3)) > 1e-13 * scale || maxAbs(o(HALF + 3)) > 1e-13 * scale) return "equal neighbours have a flux difference";
        // every line of cells along the direction sees the same
        bool same = true; out.eachInner([&](int i, int j, int k) { I3 y{{i, j, k}}; I3 z{{0, 0, 0}}; z[dir] = y[dir]; for (int a = 0; a < out.vars(); ++a) if (std::fabs(out.at(a, y) - out.at(a, z)) > 1e-13 * scale) same = false; });
        if (!same) return "parallel lines of cells differ";
        // the reported wave speed covers both states
        double want = std::max(maxSpeed(eq, L, dir, g), maxSpeed(eq, R, dir, g));
        if (!(ws[dir] >= want * (1 - 1e-12))) return hx::cat("reported wave speed ", ws[dir], " is less than the true one ", want);
        return "";
    }
    static std::string cat2(const char* t, const Vec& a, const Vec& b) { return hx::cat(t, ": ", show(a), " and ", show(b)); }
};
// mirrored normal direction of a state, and of a flux
static Vec mirror(Vec c, int dir) { c[1 + dir] = -c[1 + dir]; return c; }
static Vec mirrorFlux(Vec f, int dir) { for (auto& x : f) x = -x; f[1 + dir] = -f[1 + dir]; return f; }
static Vec swapDir(Vec c, int a, int b) { std::swap(c[1 + a], c[1 + b]); return c; }

static std::vector<Vec> eulerStates(int dim, double gamma, bool thorough) {
    std::vector<Vec> r;
    std::vector<double> rho{0.25, 1, 3}, p{0.1, 1, 2}, un{-4, -1.2, 0, 0.7, 2}, ut{0, 1.1}, ut2{0.3, -0.8};
    if (thorough) { rho.push_back(0.02); p.push_back(30); un.push_back(-0.4); un.push_back(5); ut.push_back(-0.5); }
    for (double a : rho) for (double b : p) for (double c : un) for (double d : (dim > 1 ? ut : Vec{0})) for (double e : (dim > 2 ? ut2 : Vec{0})) {
        Vec w{a, c}; if (dim > 1) w.push_back(d); if (dim > 2) w.push_back(e); w.push_back(b); r.push_back(simx::eulerConserved(w, gamma)); }
    return r;
}
static std::string eulerCheck(const std::string& flux, Rig& base, const Vec& L, const Vec& R, const Vec& F, double gamma) {
    const int dir = base.dir; Vec wl = prim(L, gamma), wr = prim(R, gamma), fl = pointFlux(base.eq, L, dir, gamma), fr = pointFlux(base.eq, R, dir, gamma);
    const double scale = std::max(1.0, std::max(std::max(maxAbs(fl), maxAbs(fr)), std::max(maxAbs(L), maxAbs(R)))), tol = 1e-11 * scale;
    const double cl = std::sqrt(gamma * wl.back() / wl[0]), cr = std::sqrt(gamma * wr.back() / wr[0]), ul = wl[1 + dir], ur = wr[1 + dir];
    if (flux == "central") { if (maxAbs(F - 0.5 * (fl + fr)) > tol) return "central flux is not the mean of the physical fluxes"; return ""; }
    if (flux != "hll" && flux != "hll3") return "";
    // one-sided: every wave of the pair, bounded by the states' extremes, travels one way
    const double cmax = std::sqrt(gamma * std::max(wl.back(), wr.back()) / std::min(wl[0], wr[0])), du = std::fabs(ul - ur);
    if (std::min(ul, ur) - du > cmax && maxAbs(F - fl) > tol) return hx::cat("all waves travel to the right, but the flux ", show(F), " is not the left flux ", show(fl));
    if (std::max(ul, ur) + du < -cmax && maxAbs(F - fr) > tol) return hx::cat("all waves travel to the left, but the flux ", show(F), " is not the right flux ", show(fr));
    if (flux == "hll") {
        // F = a fl + (1-a) fr - b (R-L), with speeds sl = -(1-a) S, sr = a S, b = a(1-a) S
        Vec d1 = fl - fr, d2 = L - R, r = F - fr; double a11 = dot(d1, d1), a12 = dot(d1, d2), a22 = dot(d2, d2), b1 = dot(d1, r), b2 = dot(d2, r), det = a11 * a22 - a12 * a12;
        if (det > 1e-6 * a11 * a22 && det > 1e-9) {
            double a = (b1 * a22 - b2 * a12) / det, b = (a11 * b2 - a12 * b1) / det, cond = a11 * a22 / det;
            Vec res = r - (a * d1 + b * d2); double t = 1e-11 * scale * cond;
            if (maxAbs(res) > t) return hx::cat("flux ", show(F), " is not an HLL combination of the two physical fluxes and the jump (residual ", show(res), ")");
            if (a < -1e-9 * cond || a > 1 + 1e-9 * cond || b < -1e-9 * cond) return hx::cat("HLL weights out of range: ", a, " ", b);
            if (a > 1e-4 && a < 1 - 1e-4) { double S = b / (a * (1 - a)), sl = -(1 - a) * S, sr = a * S, e = 1e-7 * cond * (1 + std::fabs(S));
                if (sl > std::min(ul - cl, ur - cr) + e && sl > ul - cl + e) return hx::cat("left signal speed ", sl, " is slower than the left state's ", ul - cl);
                if (sr < ur + cr - e) return hx::cat("right signal speed ", sr, " is slower than the right state's ", ur + cr);
                if (sl < std::min(ul, ur) - 2 * cmax - du || sr > std::max(ul, ur) + 2 * cmax + du) return hx::cat("signal speeds ", sl, " ", sr, " far exceed every wave"); }
        }
    }
    if (flux == "hll3" && wl.back() == wr.back() && ul == ur) {   // a contact, same transverse velocity: resolved exactly
        bool sameT = true; for (size_t i = 1; i + 1 < wl.size(); ++i) if (wl[i] != wr[i]) sameT = false;
        if (sameT && std::fabs(ul) < 0.9 * std::min(cl, cr)) { Vec want = ul >= 0 ? fl : fr; if (maxAbs(F - want) > tol) return hx::cat("a contact discontinuity is not resolved: flux ", show(F), " instead of ", show(want)); }
    }
    return "";
}
static double fScalar(const std::string& eq, double u) { return pointFlux(eq, {u}, 0, 0)[0]; }
static double godunov(const std::string& eq, double l, double r) {   // all the fluxes have their extrema at the ends or at 0 (where f' changes sign)
    double best = fScalar(eq, l), o = fScalar(eq, r); if (l <= r) { best = std::min(best, o); if (l <= 0 && 0 <= r && eq == "burgers") best = 0; } else { best = std::max(best, o); } return best;
}
static std::string scalarCheck(const std::string& eq, const std::string& flux, double l, double r, double F) {
    const double fl = fScalar(eq, l), fr = fScalar(eq, r), g = godunov(eq, l, r), scale = std::max(1.0, std::max(std::fabs(fl), std::fabs(fr))), tol = 1e-12 * scale;
    auto bad = [&](const char* t, double want) { return hx::cat(t, ": flux is ", F, " instead of ", want); };
    if (flux == "godunov" || flux == "upwind" || (flux == "roe" && (eq != "burgers"))) { if (std::fabs(F - g) > tol) return bad("not the exact Riemann flux", g); }
    if (flux == "roe" && eq == "burgers" && !(l < 0 && r > 0) && std::fabs(F - g) > tol) return bad("not the upwind flux away from transonic rarefactions", g);
    if (flux == "roe" && eq == "burgers" && l < 0 && r > 0 && !(F >= -tol && F <= std::max(fl, fr) + tol)) return bad("transonic flux out of range", g);
    if (flux == "central" && std::fabs(F - 0.5 * (fl + fr)) > tol) return bad("central flux is not the mean", 0.5 * (fl + fr));
    if (flux == "rusanov") { double a = std::max(maxSpeed(eq, {l}, 0, 0), maxSpeed(eq, {r}, 0, 0)), want = 0.5 * (fl + fr) - 0.5 * a * (r - l); if (std::fabs(F - want) > tol) return bad("Rusanov flux differs from its definition", want); }
    // E-flux property of the upwind type fluxes
    if (flux != "central" && flux.substr(0, 5) != "tecno" && eq != "buckleyleverett" && l != r) { double s = r > l ? 1 : -1; if (s * (F - g) > tol) return bad("less upwind than the exact Riemann flux", g); }
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv);
    // scalar equations
    for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett"}) for (auto flux : cfgs::fluxesOf(eq)) for (int dim = 1; dim <= 3; ++dim) for (int dir = 0; dir < dim; ++dir) {
        const std::string name = hx::cat("flux-", eq, "-", flux, "-", dim, "d-dir", dir);
        if (!hx::begin(name)) continue;
        Rig rg(eq, flux, dim, dir, 1.4); std::vector<double> v;
        const bool log = flux.substr(0, 5) == "tecno";
        if (log || eq == "buckleyleverett") for (int i = 1; i < 40; ++i) v.push_back(log ? i / 20.0 : i / 40.0); else for (int i = -24; i <= 24; ++i) v.push_back(i / 8.0);
        if (hx::thorough && !log && eq != "buckleyleverett") for (int i = -40; i <= 40; ++i) v.push_back(i / 13.0);
        auto fail = [&](double l, double r, const std::string& w) { hx::viol("flux", hx::cat("L=", l, " R=", r, ": ", w)); };
        Vec A, B; bool ok = true;
        for (size_t a = 0; a < v.size() && ok; ++a) for (size_t b = a; b < v.size() && ok; ++b) {
            hx::count("evaluations"); if (a != b) hx::count("nontrivial");
            std::string w = rg.pair({v[a]}, {v[b]}, A, B); if (w.empty()) w = scalarCheck(eq, flux, v[a], v[b], A[0]); if (w.empty() && a != b) w = scalarCheck(eq, flux, v[b], v[a], B[0]);
            if (w.empty() && eq == "burgers" && !log) { Vec C, D; w = rg.pair({-v[b]}, {-v[a]}, C, D); if (w.empty() && std::fabs(C[0] - A[0]) > 1e-12) w = hx::cat("mirrored states give ", C[0], " instead of ", A[0]); }
            if (w.empty() && log) { double lo = std::min(fScalar(eq, v[a]), fScalar(eq, v[b])), hi = std::max(fScalar(eq, v[a]), fScalar(eq, v[b])); if (A[0] < lo - 1e-12 || A[0] > hi + 1e-12 || std::fabs(A[0] - B[0]) > 1e-12) w = hx::cat("entropy conservative flux ", A[0], " and ", B[0], " not symmetric or not between the states' fluxes"); }
            if (!w.empty()) { fail(v[a], v[b], w); ok = false; }
        }
        for (double x : v) for (int ulps = 1; ulps <= 4 && ok; ++ulps) for (double rel : {0.0, 1e-13, 1e-10, 1e-7}) {   // almost equal states
            double y = x; if (rel == 0) for (int q = 0; q < ulps; ++q) y = std::nextafter(y, 10.0); else y = x + rel * ulps; hx::count("evaluations"); hx::count("nontrivial");
            std::string w = rg.pair({x}, {y}, A, B); double lim = 1e-9 + 20 * std::fabs(y - x); if (w.empty() && (std::fabs(A[0] - fScalar(eq, x)) > lim || std::fabs(B[0] - fScalar(eq, x)) > lim)) w = hx::cat("flux of almost equal states ", A[0], " is far from the physical flux ", fScalar(eq, x));
            if (!w.empty()) { fail(x, y, w); ok = false; break; }
        }
        hx::sample(name);
    }
    // Euler
    for (int dim = 1; dim <= 3; ++dim) for (auto flux : cfgs::fluxesOf("euler1")) for (double gamma : {1.4, 2.0}) {
        if (dim == 3 && gamma == 2.0 && !hx::thorough) continue;
        const std::string eq = cfgs::spatialDims(dim); auto st = eulerStates(dim, gamma, hx::thorough); const int chunks = dim == 3 ? 16 : dim == 2 ? 4 : 1;
        for (int ch = 0; ch < chunks; ++ch) {
            const std::string name = hx::cat("flux-", eq, "-", flux, "-gamma", int(gamma * 10 + 0.5), "-part", ch);
            if (!hx::begin(name)) continue;
            if (hx::timeUp()) break;
            std::vector<std::unique_ptr<Rig>> rg; for (int d = 0; d < dim; ++d) rg.emplace_back(new Rig(eq, flux, dim, d, gamma));
            bool ok = true; Vec A, B, C, D;
            auto fail = [&](const Vec& l, const Vec& r, const std::string& w) { hx::viol("flux", hx::cat("L=", show(l), " R=", show(r), ": ", w)); ok = false; };
            for (size_t a = ch; a < st.size() && ok; a += chunks) for (size_t b = a; b < st.size() && ok; ++b) {
                const Vec &L = st[a], &R = st[b]; hx::count("evaluations"); if (a != b) hx::count("nontrivial");
                std::string w = rg[0]->pair(L, R, A, B);
                if (w.empty()) w = eulerCheck(flux, *rg[0], L, R, A, gamma);
                if (w.empty()) w = eulerCheck(flux, *rg[0], R, L, B, gamma);
                const double scale = std::max(1.0, std::max(maxAbs(A), maxAbs(B))), tol = 1e-11 * scale;
                if (w.empty()) { w = rg[0]->pair(mirror(R, 0), mirror(L, 0), C, D); if (w.empty() && (maxAbs(C - mirrorFlux(A, 0)) > tol || maxAbs(D - mirrorFlux(B, 0)) > tol)) w = hx::cat("mirrored states: flux ", show(C), " instead of ", show(mirrorFlux(A, 0))); }
                for (int d = 1; d < dim && w.empty(); ++d) { w = rg[d]->pair(swapDir(L, 0, d), swapDir(R, 0, d), C, D); if (w.empty() && (maxAbs(C - swapDir(A, 0, d)) > tol || maxAbs(D - swapDir(B, 0, d)) > tol)) w = hx::cat("direction ", d, ": flux ", show(C), " instead of ", show(swapDir(A, 0, d))); }
                for (int d = 1; d < dim && w.empty(); ++d) { w = rg[0]->pair(mirror(L, d), mirror(R, d), C, D); if (w.empty() && maxAbs(C - mirror(A, d)) > tol) w = hx::cat("reversed transverse velocity ", d, ": flux ", show(C), " instead of ", show(mirror(A, d))); }
                if (!w.empty()) fail(L, R, w);
            }
            for (size_t a = ch; a < st.size() && ok; a += chunks) for (double rel : {1e-15, 1e-13, 1e-10, 1e-7}) for (int m = 1; m < (1 << (dim + 2)) && ok; m = m * 2 + (m % 3 == 0)) for (int d = 0; d < dim && ok; ++d) {   // almost equal states
                Vec L = st[a], R = L; for (size_t i = 0; i < R.size(); ++i) if (m >> i & 1) R[i] += std::max(std::fabs(R[i]), 1.0) * rel * (1 + i);
                hx::count("evaluations"); hx::count("nontrivial"); Vec f = pointFlux(eq, L, d, gamma);
                std::string w = rg[d]->pair(L, R, A, B); double lim = 1e-9 * std::max(1.0, maxAbs(f)) + 1e4 * maxAbs(R - L); if (w.empty() && (maxAbs(A - f) > lim || maxAbs(B - f) > lim)) w = hx::cat("direction ", d, ": flux of almost equal states ", show(A), " is far from the physical flux ", show(f));
                if (!w.empty()) fail(L, R, w);
            }
            hx::sample(name);
        }
    }
    return hx::finish();
}
