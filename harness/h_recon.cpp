// C10: every reconstruction on every word over a small alphabet, against definitions evaluated independently
// (primitive-function interpolation, integrals of the stencil polynomials), at every position and direction.
#include "rig.hpp"
#include "alsfvm/reconstruction/tecno/ReconstructionFactory.hpp"
#include "reconref.hpp"
static std::string check(const std::string& r, const std::vector<Vec>& w, int c, double gamma, const Vec& L, const Vec& R) {
    auto e = expect(r, w, c, gamma); std::string why; const int nv = int(L.size()); ld big = 1; for (auto& s : w) big = std::max<ld>(big, maxAbs(s));
    for (size_t alt = 0; alt < e[0].size(); ++alt) { bool ok = true; for (int v = 0; v < nv; ++v) { ld tol = 1e-11L * big * (r == "wenof2" ? 100 : r.substr(0, 4) == "weno" ? 10 : 1); if (!(std::fabs(L[v] - e[v][alt].l) <= tol) || !(std::fabs(R[v] - e[v][alt].r) <= tol)) { ok = false; if (alt == 0) why = hx::cat("variable ", v, " has edge values ", L[v], ", ", R[v], " instead of ", double(e[v][0].l), ", ", double(e[v][0].r)); break; } } if (ok) return ""; }
    return why;
}
static std::string showWord(const std::vector<Vec>& w) { std::ostringstream s; s.precision(6); for (auto& x : w) { s << " "; for (size_t i = 0; i < x.size(); ++i) s << (i ? "|" : "") << x[i]; } return s.str(); }
int main(int argc, char** argv) {
    hx::init(argc, argv);
    const char* recs[] = {"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm", "wenof2"};
    const std::vector<std::vector<double>> alphabets{{0, 1, 3.1}, {-2, 0.5, 0.6, 100}, {1, 1 + 1e-5, 1.3, -0.25}};
    // 1. all words of the stencil length, in one long row, along each direction
    for (std::string r : recs) for (std::string eq : {"burgers", "linear", "euler1", "euler2", "euler3"}) for (size_t al = 0; al < alphabets.size(); ++al) {
        const bool eu = eq.substr(0, 5) == "euler"; const int dim = eu ? eq[5] - '0' : 1; if (r == "wenof2" && !eu) continue; if (eq == "linear" && al != 1) continue;
        for (int dir = 0; dir < dim; ++dir) for (int extra = 0; extra < (eu ? 2 : 3); ++extra) {
            const std::string name = hx::cat("words-", r, "-", eq, "-alphabet", al, "-dir", dir, "-extra", extra); if (!hx::begin(name)) continue; if (hx::timeUp()) break;
            const int k = std::max(2, orderOf(r)), len = 2 * k - 1; const auto& A = alphabets[al]; long words = 1; for (int i = 0; i < len; ++i) words *= long(A.size());
            if (!hx::thorough && words > 3000 && (eu || extra)) words = 3000;
            const int cells = int(words) * len; const double gamma = 1.4;
            I3 n{{dim > 0 ? 2 : 1, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; n[dir] = cells;
            for (int d = 0; d < dim; ++d) if (d != dir) n[d] = k + 1;
            if (dim == 3 && !hx::thorough) { n[dir] = std::min(cells, 2001); }
            Parts P(eq, n, gamma); auto rec = P.recon(r); Vol in = P.vol(int(rec->getNumberOfGhostCells()) + extra), lo = P.vol(int(rec->getNumberOfGhostCells()) + extra), ro = P.vol(int(rec->getNumberOfGhostCells()) + extra);
            const long big = long(cells) + 100000L * len; std::string bad;
            auto letter = [&](long i, int salt) { long w = (i + big) / len + salt * 7919L, pos = (i + big) % len; for (long s = 0; s < pos; ++s) w /= long(A.size()); return A[w % long(A.size())]; };
            in.eachAll([&](int i, int j, int kk) { long at = dir == 0 ? i : dir == 1 ? j : kk; long off = 0; int x[3] = {i, j, kk}; for (int d = 0; d < 3; ++d) if (d != dir) off += (x[d] + 8) * (d + 1);
                Vec s(in.vars()); if (!eu) s[0] = letter(at, 0); else { Vec p(in.vars()); p[0] = std::fabs(letter(at, int(off))) + 0.3; for (int v = 1; v + 1 < in.vars(); ++v) p[v] = letter(at, int(off) + 3 * v); p.back() = std::fabs(letter(at + 1, int(off) + 5)) + 0.2; s = simx::eulerConserved(p, gamma); }
                for (int v = 0; v < in.vars(); ++v) in.at(v, i, j, kk) = s[v]; });
            auto region = [&](ivec3 start, ivec3 end) {
                lo.fill(std::nan("")); ro.fill(std::nan("")); rec->performReconstruction(*in.v, dir, 0, *lo.v, *ro.v, start, end);
                for (int kk = start.z - (dir == 2); kk < n[2] + end.z + (dir == 2) && bad.empty(); ++kk) for (int j = start.y - (dir == 1); j < n[1] + end.y + (dir == 1) && bad.empty(); ++j) for (int i = start.x - (dir == 0); i < n[0] + end.x + (dir == 0) && bad.empty(); ++i) {
                    hx::count("evaluations"); std::vector<Vec> w; for (int q = 1 - k; q <= k - 1; ++q) { I3 x{{i, j, kk}}; x[dir] += q; w.push_back(in.state(x)); } bool same = true; for (auto& s : w) same &= s[0] == w[0][0]; if (!same) hx::count("nontrivial");
                    std::string e = check(r, w, k - 1, gamma, lo.state(i, j, kk), ro.state(i, j, kk)); if (!e.empty()) bad = hx::cat("cell (", i, ",", j, ",", kk, ") word", showWord(w), ": ", e);
                    if (e.empty() && eu && r == "wenof2") { Vec a = lo.state(i, j, kk), b = ro.state(i, j, kk); if (!(a[0] > 0 && b[0] > 0 && prim(a, gamma).back() > -1e-12 * maxAbs(a) && prim(b, gamma).back() > -1e-12 * maxAbs(b))) bad = hx::cat("inadmissible edge states for word", showWord(w)); }
                }
            };
            region({0, 0, 0}, {0, 0, 0});
            // the ranges the overlapped flux computation asks for, one after the other on the same object
            if (n[dir] >= 6 && (al == 0 || hx::thorough) && bad.empty()) { ivec3 s(0, 0, 0), e(0, 0, 0); const int g = in.g[0]; for (int d = 0; d < dim; ++d) { s[d] = g; e[d] = -g; } bool fits = true; for (int d = 0; d < dim; ++d) if (n[d] < 2 * g + 1) fits = false; if (fits) region(s, e);
                for (int d = 0; d < dim && bad.empty(); ++d) { ivec3 z(0, 0, 0), eb(0, 0, 0), st(0, 0, 0); eb[d] = g - n[d]; st[d] = n[d] - g; if (n[d] >= g) { region(z, eb); region(st, z); } } }
            if (!bad.empty()) hx::viol("reconstruction-" + r, bad); hx::sample(name);
        }
    }
    // 2. polynomials are reproduced, on any data the choice depends on (order of exactness), and mirrored data give mirrored values
    for (std::string r : recs) { const bool f2 = r == "wenof2"; const std::string eq = f2 ? "euler1" : "burgers"; if (!hx::begin("polynomials-" + r)) continue; const int k = orderOf(r), n = 24; Parts P(eq, I3{{n, 1, 1}}); auto rec = P.recon(r); Vol in = P.vol(int(rec->getNumberOfGhostCells())), lo = P.vol(in.g[0]), ro = P.vol(in.g[0]), in2 = P.vol(in.g[0]), lo2 = P.vol(in.g[0]), ro2 = P.vol(in.g[0]); std::string bad;
        const int deg = r.substr(0, 3) == "eno" ? k - 1 : r == "none" ? 0 : 1;
        for (int word = 0; word < 625 && bad.empty(); ++word) { hx::count("evaluations"); hx::count("nontrivial"); ld a[4] = {1.0L, 0, 0, 0}; { int x = word; const ld c[] = {0, 1, -0.7L, 0.31L, -2.3L}; for (int d = 0; d < 4; ++d) { if (d <= deg) a[d] = d ? c[x % 5] : 2 + c[x % 5]; x /= 5; } }
            if (f2) { a[1] *= 0.01L; a[0] += 2; }
            auto P4 = [&](ld x) { return ((a[3] / 4 * x + a[2] / 3) * x + a[1] / 2) * x * x + a[0] * x; }; auto val = [&](ld x) { return ((a[3] * x + a[2]) * x + a[1]) * x + a[0]; };
            in.eachAll([&](int i, int, int) { double q = double(P4((i + 1 - 12) * 0.1L) - P4((i - 12) * 0.1L)) * 10; if (!f2) in.at(0, i) = q; else { auto c = simx::eulerConserved({q, 0.3, 1}, 1.4); for (int v = 0; v < 3; ++v) in.at(v, i) = c[v]; } });
            in2.eachAll([&](int i, int, int) { for (int v = 0; v < in.vars(); ++v) in2.at(v, i) = in.at(v, n - 1 - i); });
            lo.fill(std::nan("")); ro.fill(std::nan("")); lo2.fill(std::nan("")); ro2.fill(std::nan("")); rec->performReconstruction(*in.v, 0, 0, *lo.v, *ro.v); rec->performReconstruction(*in2.v, 0, 0, *lo2.v, *ro2.v);
            for (int i = -1; i <= n && bad.empty(); ++i) { if (!(std::fabs(lo.at(0, i) - val((i - 12) * 0.1L)) < 1e-10) || !(std::fabs(ro.at(0, i) - val((i - 11) * 0.1L)) < 1e-10)) bad = hx::cat("polynomial ", word, " is not reproduced in cell ", i, ": ", lo.at(0, i), " and ", ro.at(0, i));
                else if (!(std::fabs(lo.at(0, i) - ro2.at(0, n - 1 - i)) < 1e-10 && std::fabs(ro.at(0, i) - lo2.at(0, n - 1 - i)) < 1e-10)) bad = hx::cat("polynomial ", word, ": mirrored data do not give mirrored values in cell ", i); }
        }
        if (!bad.empty()) hx::viol("polynomials-" + r, bad); }
    // 3. reconstruction of the (scaled) entropy variables: values left and right of each cell edge given separately
    for (std::string r : {"none", "eno2", "eno3", "eno4"}) for (int dim = 1; dim <= 3; ++dim) for (int dir = 0; dir < dim; ++dir) for (int extra = 0; extra < 2; ++extra) { const std::string name = hx::cat("jumps-", r, "-dim", dim, "-dir", dir, "-extra", extra); if (!hx::begin(name)) continue;
        const int k = std::max(1, orderOf(r)); const std::string eq = dim == 1 ? "burgers" : dim == 2 ? "euler2" : "euler3"; I3 n{{k + 1, dim > 1 ? k + 2 : 1, dim > 2 ? k + 1 : 1}}; n[dir] = hx::thorough ? 4000 : dim == 1 ? 2600 : 300; Parts P(eq, n);
        reconstruction::tecno::ReconstructionFactory f; auto rec = f.createReconstruction(r, eq, *P.par, P.mf, *P.grid, P.dev); const int g = std::max<int>(1, int(rec->getNumberOfGhostCells())) + extra; Vol a = P.vol(g), b = P.vol(g), lo = P.vol(g), ro = P.vol(g); lo.fill(std::nan("")); ro.fill(std::nan("")); const double A[] = {0, 1, 3.1, -0.4};
        for (int same = 0; same < 2; ++same) { std::string bad;
            a.eachAll([&](int i, int j, int kk) { for (int v = 0; v < a.vars(); ++v) { size_t h = hx::hash(hx::cat(i, ".", j, ".", kk, ".", v)); a.at(v, i, j, kk) = A[h % 4] + 0.001 * ((h >> 8) % 7); b.at(v, i, j, kk) = same ? a.at(v, i, j, kk) : A[(h >> 16) % 4]; } });
            rec->performReconstruction(*a.v, *b.v, dir, *lo.v, *ro.v);
            for (int kk = -(dir == 2); kk < n[2] + (dir == 2) && bad.empty(); ++kk) for (int j = -(dir == 1); j < n[1] + (dir == 1) && bad.empty(); ++j) for (int i = -(dir == 0); i < n[0] + (dir == 0) && bad.empty(); ++i) for (int v = 0; v < a.vars() && bad.empty(); ++v) {
                hx::count("evaluations"); hx::count("nontrivial"); auto A0 = [&](Vol& u, int q) -> double { I3 x{{i, j, kk}}; x[dir] += q; return u.at(v, x); };
                std::vector<ld> w(2 * k - 1); w[k - 1] = A0(a, 0); for (int q = 1; q < k; ++q) { w[k - 1 + q] = w[k - 2 + q] + ((ld)A0(a, q) - A0(b, q - 1)); w[k - 1 - q] = w[k - q] - ((ld)A0(a, 1 - q) - A0(b, -q)); }
                std::vector<LR> alt; if (r == "none") alt = {{w[0], w[0]}}; else eno(w, w, k - 1, k, alt); bool ok = false; const ld off = (ld)A0(b, 0) - A0(a, 0); for (auto& e : alt) ok |= std::fabs(lo.at(v, i, j, kk) - e.l) < 1e-11L && std::fabs(ro.at(v, i, j, kk) - (e.r + off)) < 1e-11L;
                if (!ok) bad = hx::cat("cell (", i, ",", j, ",", kk, ") variable ", v, " has ", lo.at(v, i, j, kk), ", ", ro.at(v, i, j, kk), " instead of ", double(alt[0].l), ", ", double(alt[0].r + off));
                I3 x{{i, j, kk}}; x[dir]++; if (x[dir] <= n[dir] && ok) { double before = A0(a, 1) - A0(b, 0), after = lo.at(v, x) - ro.at(v, i, j, kk); if (before * after < -1e-11 || (before == 0 && std::fabs(after) > 1e-10)) bad = hx::cat("cell (", i, ",", j, ",", kk, "): the reconstructed jump ", after, " does not have the sign of the jump ", before); }
            }
            if (!bad.empty()) hx::viol("jumps-" + r, bad); } hx::sample(name); }
    return hx::finish();
}
