// C11: transposed, mirrored, shifted and lower-dimensional versions of the same problem, for all words, step by step.
#include "steprig.hpp"
using namespace rig;
typedef std::array<int, 3> Perm;
// A smooth offset per cell keeps candidate stencils from tying; it depends on the word's own cell numbering only.
static double offset(int q, int v) { unsigned h = unsigned(q) * 2654435761u + unsigned(v) * 40503u + 12345u; h ^= h >> 13; h *= 2246822519u; h ^= h >> 16; return (h % 1000) / 1000.0 - 0.5; }
struct Word { const simx::Cfg& c; const std::vector<Vec>& A; std::vector<int> d; double eps;
    Vec operator()(int i, int j, int k) const { const int q = i + c.n[0] * (j + c.n[1] * k); Vec s = A[d[q]]; if (c.equation == "buckleyleverett" || eps == 0) return s; for (size_t v = 0; v < s.size(); ++v) s[v] *= 1 + eps * offset(q, int(v)); return s; } };
static double differ(const Vec& a, const Vec& b) { double m = 0; for (size_t q = 0; q < a.size(); ++q) { double e = simx::relDiff(a[q], b[q]); if (!(e <= m)) m = std::isnan(e) ? 1e300 : e; } return m; }
static double eps(const simx::Cfg& c) { return c.recon.substr(0, 3) == "eno" || c.diffRecon.substr(0, 3) == "eno" ? 0.05 : 0.01; }
static bool moves(const simx::Cfg& c, const std::vector<int>& d, const std::vector<Vec>& A) { for (int x : d) if (maxSpeed(c.equation, A[x], 0, c.gamma) > 1e-6) return true; return false; }
static std::vector<Vec> abc(const simx::Cfg& c) { return letters(c.equation, c.gamma, c.flux.substr(0, 5) == "tecno" || c.diffusion != "none"); }
static Vec permuted(const Vec& s, const Perm& p, int dim) { Vec r = s; if (s.size() > 1) for (int d = 0; d < dim; ++d) r[1 + d] = s[1 + p[d]]; return r; }
// --- axes permuted: new axis d is old axis p[d]
static void transpose(const simx::Cfg& c, Perm p, long most, int steps) {
    simx::Cfg t = c; for (int d = 0; d < 3; ++d) { t.n[d] = c.n[p[d]]; t.lower[d] = c.lower[p[d]]; t.upper[d] = c.upper[p[d]]; }
    const std::string name = hx::cat("axes", p[0], p[1], p[2], "-", c.str()); if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper a(c), b(t); const auto A = abc(c); const int n = int(a.cells), nv = c.nvar(), dim = c.dim(); std::string bad;
    for (auto& d : wordsUpTo(n, 3, most)) { if (!bad.empty()) break; if (!moves(c, d, A)) continue; hx::count("evaluations"); hx::count("nontrivial"); Word w{c, A, d, eps(c)}; a.set(w);
        b.set([&](int i, int j, int k) { int y[3] = {i, j, k}, x[3]; for (int e = 0; e < 3; ++e) x[p[e]] = y[e]; return permuted(w(x[0], x[1], x[2]), p, dim); });
        for (int s = 0; s < steps && bad.empty(); ++s) { bool oka = a.step(), okb = b.step(); if (oka != okb) { bad = "only one of the two runs leaves the admissible states"; break; } if (!oka) break;
            if (!(std::fabs(a.dt() - b.dt()) <= 1e-10 * (a.dt() + a.last->time))) bad = hx::cat("time steps ", a.dt(), " and ", b.dt(), " differ"); Vec want(n * nv), got = b.u();
            for (int k = 0; k < t.n[2]; ++k) for (int j = 0; j < t.n[1]; ++j) for (int i = 0; i < t.n[0]; ++i) { int y[3] = {i, j, k}, x[3]; for (int e = 0; e < 3; ++e) x[p[e]] = y[e]; Vec u = permuted(a.state(x[0], x[1], x[2]), p, dim); for (int v = 0; v < nv; ++v) want[v * n + i + t.n[0] * (j + t.n[1] * k)] = u[v]; }
            double m = differ(got, want); if (bad.empty() && !(m < 1e-10)) bad = hx::cat("solutions differ by ", m); if (!bad.empty()) bad = hx::cat("word ", showDigits(d), " step ", s + 1, ": ", bad); }
    }
    if (!bad.empty()) hx::viol("axes", bad);
}
// --- mirrored in direction dir (all directions for Burgers, whose solution changes sign) or shifted
static void mapped(const simx::Cfg& c, int dir, I3 shift, long most, int steps) {
    const bool mirror = dir >= 0; const std::string name = mirror ? hx::cat("mirror", dir, "-", c.str()) : hx::cat("shift", shift[0], shift[1], shift[2], "-", c.str()); if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper a(c), b(c); const auto A = abc(c); const int n = int(a.cells), nv = c.nvar(); std::string bad;
    auto to = [&](int i, int j, int k) { I3 x{{i, j, k}}; for (int d = 0; d < 3; ++d) { if (mirror && (nv == 1 || d == dir)) x[d] = c.n[d] - 1 - x[d]; if (!mirror) x[d] = wrap(x[d] + shift[d], c.n[d]); } return x; };
    auto image = [&](Vec s) { if (mirror) s[nv == 1 ? 0 : 1 + dir] *= -1; return s; };
    for (auto& d : wordsUpTo(n, 3, most)) { if (!bad.empty()) break; if (!moves(c, d, A)) continue; hx::count("evaluations"); hx::count("nontrivial"); Word w{c, A, d, eps(c)}; a.set(w); b.set([&](int i, int j, int k) { auto x = to(i, j, k); return image(w(x[0], x[1], x[2])); });
        for (int s = 0; s < steps && bad.empty(); ++s) { bool oka = a.step(), okb = b.step(); if (oka != okb) { bad = "only one of the two runs leaves the admissible states"; break; } if (!oka) break; if (!(std::fabs(a.dt() - b.dt()) <= 1e-10 * (a.dt() + a.last->time))) bad = hx::cat("time steps ", a.dt(), " and ", b.dt(), " differ");
            Vec want(n * nv), got = b.u(); for (int k = 0; k < c.n[2]; ++k) for (int j = 0; j < c.n[1]; ++j) for (int i = 0; i < c.n[0]; ++i) { auto x = to(i, j, k); Vec u = image(a.state(x[0], x[1], x[2])); for (int v = 0; v < nv; ++v) want[v * n + i + c.n[0] * (j + c.n[1] * k)] = u[v]; }
            double m = differ(got, want); if (bad.empty() && !(m < 1e-10)) bad = hx::cat("solutions differ by ", m); if (!bad.empty()) bad = hx::cat("word ", showDigits(d), " step ", s + 1, ": ", bad); }
    }
    if (!bad.empty()) hx::viol(mirror ? "mirror" : "shift", bad);
}
// --- data that vary along some axes only agree with the lower-dimensional run on those axes
static void lower(const simx::Cfg& low, const simx::Cfg& high, Perm axes /* axes of high along which the axes of low run */, double drift, long most, int steps) {
    const std::string name = hx::cat("lower", axes[0], axes[1], "-", drift, "-", low.str(), "-in-", high.str()); if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper a(low), b(high); const auto A = abc(low); const int n = int(a.cells), dl = low.dim(), dh = high.dim(), m = int(b.cells); std::string bad;
    // drift: a uniform velocity along the constant directions, which must not influence anything else
    auto lift = [&](const Vec& s) { if (high.nvar() == 1) return s; Vec r(high.nvar(), 0.0); r[0] = s[0]; r.back() = s.back(); for (int d = 0; d < dh; ++d) r[1 + d] = drift * s[0]; for (int d = 0; d < dl; ++d) r[1 + axes[d]] = s[1 + d]; for (int d = 0; d < dh; ++d) { bool free = true; for (int e = 0; e < dl; ++e) free &= axes[e] != d; if (free) r.back() += 0.5 * drift * drift * s[0]; } return r; };
    for (auto& d : wordsUpTo(n, 3, most)) { if (!bad.empty()) break; if (!moves(low, d, A)) continue; hx::count("evaluations"); hx::count("nontrivial"); Word w{low, A, d, eps(low)}; a.set(w);
        auto back = [&](int i, int j, int k) { int y[3] = {i, j, k}; I3 x{{0, 0, 0}}; for (int e = 0; e < dl; ++e) x[e] = y[axes[e]]; return x; };
        b.set([&](int i, int j, int k) { auto x = back(i, j, k); return lift(w(x[0], x[1], x[2])); });
        for (int s = 0; s < steps && bad.empty(); ++s) { a.fix->dt = b.fix->dt = 0; { Vec u; double fast = 0; for (int q = 0; q < n; ++q) { Vec x; for (int v = 0; v < low.nvar(); ++v) x.push_back(a.u()[v * n + q]); for (int e = 0; e < dl; ++e) fast = std::max(fast, maxSpeed(low.equation, x, e, low.gamma)); } if (fast < 1e-9) break; double len = 1e9; for (int e = 0; e < dl; ++e) len = std::min(len, a.dx(e)); for (int e = 0; e < dh; ++e) len = std::min(len, b.dx(e)); a.fix->dt = b.fix->dt = 0.1 * len / (fast + std::fabs(drift)); }
            bool oka = a.step(), okb = b.step(); if (oka != okb) { bad = "only one of the two runs leaves the admissible states"; break; } if (!oka) break;
            Vec want(m * high.nvar()), got = b.u(); for (int k = 0; k < high.n[2]; ++k) for (int j = 0; j < high.n[1]; ++j) for (int i = 0; i < high.n[0]; ++i) { auto x = back(i, j, k); Vec u = lift(a.state(x[0], x[1], x[2])); for (int v = 0; v < high.nvar(); ++v) want[v * m + i + high.n[0] * (j + high.n[1] * k)] = u[v]; }
            double e = differ(got, want); if (!(e < 1e-10)) bad = hx::cat("word ", showDigits(d), " step ", s + 1, ": solutions differ by ", e); }
    }
    a.fix->dt = b.fix->dt = 0; if (!bad.empty()) hx::viol("lower", bad);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); using cfgs::mk; const bool T = hx::thorough; const long W = T ? 5000 : 100;
    const std::array<double, 3> len{{1.25, 2.25, 0.8}}, lo{{-0.5, 0.25, 1}}; auto shape = [&](simx::Cfg c, I3 n) { c.n = n; for (int d = 0; d < 3; ++d) { c.lower[d] = lo[d]; c.upper[d] = lo[d] + len[d]; } c.cfl = c.diffusion != "none" ? "0.1" : "0.2"; return c; };
    struct R { std::string f, r, dn, dr; int g; }; auto width = [](const std::string& f, const std::string& r) { int g = r == "eno4" ? 4 : r == "eno3" || r == "weno3" ? 3 : r == "none" ? 1 : 2; if (f == "tecno4") g = std::max(3, g + 1); if (f == "tecno6") g = std::max(5, g + 2); return g; };
    for (std::string bc : {"periodic", "neumann"}) for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler"}) {
        std::vector<R> rs; const std::string any = eq == "euler" ? "euler1" : eq; const auto fluxes = cfgs::fluxesOf(any);
        for (auto& f : fluxes) rs.push_back({f, "none", "none", "none", width(f, "none")});
        for (std::string r : {"eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"}) rs.push_back({eq == "euler" ? "hll3" : eq == "linear" ? "upwind" : "rusanov", r, "none", "none", width("", r)});
        if (eq == "euler") rs.push_back({"hll", "wenof2", "none", "none", 2}); if (eq == "euler") rs.push_back({"hll", "eno2", "none", "none", 2}); if (eq == "burgers") rs.push_back({"godunov", "mc", "none", "none", 2});
        if (eq == "burgers" || eq == "euler") for (std::string dn : {"tecnoroe", "tecnorusanov"}) for (std::string dr : {"none", "eno2", "eno3"}) rs.push_back({dr == "none" ? "tecno1" : "tecno4", "none", dn, dr, dr == "none" ? 1 : 3});
        int turn = 0;
        for (auto& q : rs) { const char* in = (++turn % 3) == 0 ? "rungekutta3" : turn % 3 == 1 ? "rungekutta2" : "forwardeuler"; auto E = [&](int d) { return eq == "euler" ? hx::cat("euler", d) : eq; }; const int g = q.g; auto C = [&](int d, I3 n) { return shape(mk(d, E(d), q.f, q.r, in, bc, q.dn, q.dr), n); };
            const I3 n2{{std::max(3, g), std::max(2, g) + (g > 2), 1}}, n3{{std::max(2, g), std::max(3, g + 1), std::max(2, g)}}; const bool big = g > 3;
            transpose(C(2, n2), {{1, 0, 2}}, W, 2); transpose(C(2, {{g + 1, g + 3, 1}}), {{1, 0, 2}}, W / 2, 2);
            if (!big || T) { for (Perm p : {Perm{{1, 0, 2}}, Perm{{2, 1, 0}}, Perm{{1, 2, 0}}}) transpose(C(3, n3), p, W / 3, 2); }
            const bool mir = eq == "euler" || (eq == "burgers" && q.f.substr(0, 5) != "tecno");
            if (mir) { auto least = [](I3 n, int d) { for (int e = 0; e < d; ++e) n[e] = std::max(3, n[e]); return n; };      /* in a periodic row of two cells both stencils of an ENO scheme tie */ mapped(C(1, {{std::max(5, g + 1), 1, 1}}), 0, {{0, 0, 0}}, W, 3); if (eq == "euler") { for (int d = 0; d < 2; ++d) mapped(C(2, least(n2, 2)), d, {{0, 0, 0}}, W / 2, 2); if (!big || T) for (int d = 0; d < 3; ++d) mapped(C(3, least(n3, 3)), d, {{0, 0, 0}}, W / 4, 2); } else mapped(C(2, least(n2, 2)), 0, {{0, 0, 0}}, W / 2, 2); }
            if (bc == "periodic") { mapped(C(1, {{std::max(6, g + 1), 1, 1}}), -1, {{1, 0, 0}}, W, 3); mapped(C(1, {{std::max(6, g + 1), 1, 1}}), -1, {{3, 0, 0}}, W, 3); mapped(C(2, n2), -1, {{1, 0, 0}}, W / 2, 2); mapped(C(2, n2), -1, {{0, 1, 0}}, W / 2, 2); if (!big || T) for (int d = 0; d < 3; ++d) mapped(C(3, n3), -1, {{d == 0, d == 1, d == 2}}, W / 4, 2); }
            // one-dimensional data along each axis of a 2D and 3D run; 2D data along each pair of axes of a 3D run
            for (int d = 0; d < 2; ++d) for (double drift : {0.0, 0.4}) { if (eq != "euler" && drift) continue; if (drift && (q.dn != "none" || q.r != "none")) continue; auto h = C(2, d == 0 ? I3{{std::max(5, g), std::max(2, g), 1}} : I3{{std::max(2, g), std::max(5, g), 1}}), l = C(1, {{h.n[d], 1, 1}}); l.lower[0] = h.lower[d]; l.upper[0] = h.upper[d]; lower(l, h, {{d, d, d}}, drift, W, 3); }
            if (!big || T) for (int d = 0; d < 3; ++d) for (double drift : {0.0, 0.4}) { if (eq != "euler" && drift) continue; if (drift && (q.dn != "none" || q.r != "none")) continue; I3 n{{std::max(2, g), std::max(2, g), std::max(2, g)}}; n[d] = std::max(5, g); auto h = C(3, n), l = C(1, {{n[d], 1, 1}}); l.lower[0] = h.lower[d]; l.upper[0] = h.upper[d]; lower(l, h, {{d, d, d}}, drift, W / 2, 2); }
            if (!big || T) for (Perm p : {Perm{{0, 1, 2}}, Perm{{1, 2, 2}}, Perm{{0, 2, 2}}, Perm{{2, 0, 0}}}) { I3 n{{std::max(2, g), std::max(2, g), std::max(2, g)}}; n[p[0]] = std::max(3, g); n[p[1]] = std::max(2, g); auto h = C(3, n), l = C(2, {{n[p[0]], n[p[1]], 1}}); for (int e = 0; e < 2; ++e) { l.lower[e] = h.lower[p[e]]; l.upper[e] = h.upper[p[e]]; } lower(l, h, p, 0, W / 3, 2); }
        }
    }
    return hx::finish();
}
