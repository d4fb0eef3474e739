// Edge values of every reconstruction, from definitions written independently of the code.
#pragma once
#include "rig.hpp"
#include <algorithm>
#include <functional>
using namespace rig;
typedef long double ld;
// polynomial through k cell averages V(0..k-1) on unit cells starting at cell `first`: value at the point x (cell c covers [c, c+1])
static ld interp(const std::vector<ld>& V, int first, ld x) {
    const int k = int(V.size()); std::vector<ld> P(k + 1, 0); for (int i = 0; i < k; ++i) P[i + 1] = P[i] + V[i];   // primitive function at the faces
    ld s = 0; for (int m = 0; m <= k; ++m) { ld der = 0; for (int l = 0; l <= k; ++l) if (l != m) { ld t = 1; for (int q = 0; q <= k; ++q) if (q != m && q != l) t *= (x - (first + q)); der += t; } for (int q = 0; q <= k; ++q) if (q != m) der /= (m - q); s += P[m] * der; }
    return s;
}
struct LR { ld l, r; };
// every pair of edge values the essentially non-oscillatory choice may give (more than one if differences tie)
static void eno(const std::vector<ld>& ind, const std::vector<ld>& val, int c, int order, std::vector<LR>& out) {   // c: index of the cell in both arrays
    std::function<void(int, int)> go = [&](int left, int len) {
        if (len == order) { std::vector<ld> v(val.begin() + left, val.begin() + left + len); out.push_back({interp(v, left, c), interp(v, left, c + 1)}); return; }
        auto diffAt = [&](int a) { std::vector<ld> d(ind.begin() + a, ind.begin() + a + len + 1); for (int n = len; n > 0; --n) for (int i = 0; i < n; ++i) d[i] = d[i + 1] - d[i]; return std::fabs(d[0]); };
        const ld L = diffAt(left - 1), R = diffAt(left), tol = 1e-12L * (1 + L + R); if (L < R + tol) go(left - 1, len + 1); if (R < L + tol) go(left, len + 1);
    };
    go(c, 1);
}
static ld beta(const std::vector<ld>& v, int order, int c0) {   // Jiang-Shu smoothness of the stencil polynomial over the cell c0 (index inside the stencil): sum over derivatives of the integral of the square
    if (order == 2) { ld d = v[1] - v[0]; return d * d; }
    // p(x) = a + b x + c x^2 on the cell [-1/2, 1/2], cell averages at offsets -c0, 1-c0, 2-c0
    ld c = (v[0] - 2 * v[1] + v[2]) / 2, m = 1 - c0, b = (v[2] - v[0]) / 2 - 2 * c * m; return b * b + 13.0L / 3 * c * c;
}
static LR weno(const std::vector<ld>& ind, const std::vector<ld>& val, int c, int order) {
    // linear weights: the combination of the stencil values that gives the value of the large stencil
    const ld eps = 1e-8L; ld res[2];
    for (int side = 0; side < 2; ++side) {
        std::vector<ld> w(order); for (int r = 0; r < order; ++r) { const ld d2[] = {2 / 3.0L, 1 / 3.0L}, d3[] = {0.3L, 0.6L, 0.1L}; const ld* d = order == 2 ? d2 : d3; w[r] = side ? d[r] : d[order - 1 - r]; }
        ld sum = 0, out = 0; for (int r = 0; r < order; ++r) { std::vector<ld> s(ind.begin() + c - r, ind.begin() + c - r + order); ld b = eps + beta(s, order, r); w[r] /= b * b; sum += w[r]; }
        for (int r = 0; r < order; ++r) { std::vector<ld> s(val.begin() + c - r, val.begin() + c - r + order); out += w[r] / sum * interp(s, c - r, c + side); }
        res[side] = out;
    }
    return {res[0], res[1]};
}
static ld mm(std::vector<ld> a) { bool pos = true, neg = true; ld m = 1e300; for (ld x : a) { pos &= x > 0; neg &= x < 0; m = std::min(m, std::fabs(x)); } return pos ? m : neg ? -m : 0; }
static int orderOf(const std::string& r) { return r == "none" ? 1 : r == "mc" || r == "mm" || r == "wenof2" ? 2 : r.back() - '0'; }
// acceptable (left, right) values of every variable; w: the window of states, cell c in the middle
static std::vector<std::vector<LR>> expect(const std::string& r, const std::vector<Vec>& w, int c, double gamma) {
    const int nv = int(w[0].size()); auto get = [&](int v) { std::vector<ld> o; for (auto& s : w) o.push_back(s[v]); return o; }; auto ind = get(0);
    std::vector<std::vector<LR>> out(nv);    // out[var] = alternatives (same order of alternatives for all variables)
    for (int v = 0; v < nv; ++v) { auto val = get(v);
        if (r == "none") out[v] = {{val[c], val[c]}};
        else if (r.substr(0, 3) == "eno") eno(ind, val, c, orderOf(r), out[v]);
        else if (r == "weno2" || r == "weno3") out[v] = {weno(ind, val, c, orderOf(r))};
        else if (r == "mc" || r == "mm") { ld a = val[c] - val[c - 1], b = val[c + 1] - val[c], s = r == "mc" ? mm({2 * a, 2 * b, (a + b) / 2}) : mm({a, b}); out[v] = {{val[c] - s / 2, val[c] + s / 2}}; }
    }
    if (r == "wenof2") {
        const int d = nv - 2; std::vector<Vec> p; for (int q = -1; q <= 1; ++q) p.push_back(prim(w[c + q], gamma)); const ld eps = 1e-8L; ld b0 = ind[c + 1] - ind[c], b1 = ind[c] - ind[c - 1]; b0 *= b0; b1 *= b1; LR dummy{0, 0}; for (auto& o : out) o = {dummy};
        for (int side = 0; side < 2; ++side) {
            ld a0 = (side ? 2 : 1) / ((eps + b0) * (eps + b0)), a1 = (side ? 1 : 2) / ((eps + b1) * (eps + b1)), w0 = a0 / (a0 + a1), w1 = a1 / (a0 + a1); std::vector<ld> s(nv); for (int v = 0; v < nv; ++v) s[v] = w1 * ((ld)p[1][v] - p[0][v]) + w0 * ((ld)p[2][v] - p[1][v]);
            auto clamp = [&](ld x, ld m) { return std::max(-m, std::min(m, x)); }; s[0] = clamp(s[0], 1.9L * p[1][0]); s[nv - 1] = clamp(s[nv - 1], 1.9L * p[1][nv - 1]);
            ld uu = 0, us = 0; for (int i = 1; i <= d; ++i) { uu += s[i] * s[i]; us += p[1][i] * s[i]; } const ld rho = p[1][0], R = p[1][nv - 1] / (gamma - 1), LL = 0.125L * rho * uu - 0.5L * std::min((ld)0, s[0] * us) + 0.5L * s[0] * s[0] * uu / rho, al = 0.5L * std::sqrt(R / std::max(R, LL));
            Vec q(nv); for (int v = 0; v < nv; ++v) q[v] = double(p[1][v] + (side ? 1 : -1) * al * s[v]); auto cns = simx::eulerConserved(q, gamma); for (int v = 0; v < nv; ++v) (side ? out[v][0].r : out[v][0].l) = cns[v];
        }
    }
    return out;
}
