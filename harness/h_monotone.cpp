// C09: maximum principle, total variation, order preservation and one-sided slopes of the monotone schemes over all
// words; positivity of the first-order Euler schemes over words of extreme states.
#include "steprig.hpp"
using namespace rig;
static double rangeSpeed(const std::string& eq, double lo, double hi) { double m = 0; for (int i = 0; i <= 64; ++i) m = std::max(m, maxSpeed(eq, {lo + (hi - lo) * i / 64}, 0, 1.4)); return m; }
static double variation(const Vec& u, bool periodic) { double t = 0; for (size_t i = 0; i + 1 < u.size(); ++i) t += std::fabs(u[i + 1] - u[i]); return t + (periodic ? std::fabs(u[0] - u.back()) : 0); }
static std::vector<double> alphabet(const std::string& eq) { if (eq == "buckleyleverett") return {0, 0.3, 1, 0.7}; return {-1, 0.25, 1, -0.5}; }
static double limit(const simx::Cfg& c, const Stepper& s, double lo, double hi) { double inv = 0; for (int d = 0; d < c.dim(); ++d) inv += 1 / s.dx(d); return std::stod(c.cfl) / (rangeSpeed(c.equation, lo, hi) * inv); }
static void scalar(simx::Cfg c, long maxWords, int steps, bool slopes) {
    const std::string name = "range-" + c.str() + "-cfl" + c.cfl; if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper s(c); const auto A = alphabet(c.equation); const int n = int(s.cells); const bool per = c.boundary == "periodic"; std::string bad;
    for (auto& d : wordsUpTo(n, n <= 8 ? 4 : 3, maxWords)) { if (!bad.empty()) break;
        double lo = 1e300, hi = -1e300; for (int x : d) lo = std::min(lo, A[x]), hi = std::max(hi, A[x]); if (lo == hi && maxSpeed(c.equation, {lo}, 0, 1.4) == 0) continue; if (lo != hi) hx::count("nontrivial");
        s.set([&](int i, int j, int k) { return Vec{A[d[i + c.n[0] * (j + c.n[1] * k)]]}; }); double tv = variation(s.u(), per), oldSlope = 1e300; const double most = limit(c, s, lo, hi);
        for (int t = 0; t < steps && bad.empty(); ++t) { hx::count("evaluations"); s.fix->dt = 0;
            // where the flux is not convex the waves inside a jump may be faster than those of the cells: there the bound is stated for the range
            if (c.equation == "buckleyleverett") s.fix->dt = most;
            Vec before = s.u(); std::string why; if (!s.step(&why)) { bad = "the step fails: " + why; break; } const Vec& u = s.u(); double a = 1e300, b = -1e300; for (double x : u) { if (std::isnan(x)) a = -1e300; a = std::min(a, x), b = std::max(b, x); }
            if (!(a >= lo - 1e-12 && b <= hi + 1e-12)) bad = hx::cat("values in [", a, ", ", b, "] leave the initial range [", lo, ", ", hi, "]");
            if (bad.empty() && c.dim() == 1) { double v = variation(u, per); if (!(v <= tv + 1e-11)) bad = hx::cat("the total variation grows from ", tv, " to ", v); tv = v; }
            if (bad.empty() && slopes) { double m = 0; for (int i = 0; i + 1 < n; ++i) m = std::max(m, u[i + 1] - u[i]); if (per) m = std::max(m, u[0] - u[n - 1]); if (!(m <= oldSlope + 1e-11)) bad = hx::cat("the steepest rise grows from ", oldSlope, " to ", m); oldSlope = m; }
            if (!bad.empty()) bad = hx::cat("word ", showDigits(d), " step ", t + 1, ": ", bad); }
    }
    s.fix->dt = 0; if (!bad.empty()) hx::viol("range", bad);
}
// u <= v everywhere implies the same one step later, for every pair of ordered words
static void ordered(simx::Cfg c) {
    const std::string name = "order-" + c.str(); if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper s(c); auto A = alphabet(c.equation); std::sort(A.begin(), A.end()); const int n = int(s.cells), base = n <= 5 ? 4 : 3; const long all = power(base, n); std::string bad;
    const double dt = limit(c, s, A.front(), A.back()); std::vector<Vec> next(all); s.fix->dt = dt;
    auto advance = [&](long w) -> const Vec& { if (next[w].empty()) { auto d = digits(w, base, n); s.set([&](int i, int j, int k) { return Vec{A[d[i + c.n[0] * (j + c.n[1] * k)]]}; }); s.fix->dt = dt; hx::count("evaluations"); if (!s.step()) next[w] = Vec(n, std::nan("")); else next[w] = s.u(); s.fix->dt = 0; } return next[w]; };
    // raising one cell at a time suffices: every ordered pair is a chain of such pairs
    for (long w = 0; w < all && bad.empty(); ++w) { auto d = digits(w, base, n); long p = 1; for (int i = 0; i < n; ++i, p *= base) if (d[i] + 1 < base) { hx::count("nontrivial"); const Vec& a = advance(w); const Vec b = advance(w + p); for (int q = 0; q < n; ++q) if (!(a[q] <= b[q] + 1e-12)) { bad = hx::cat("word ", showDigits(d), ": raising cell ", i, " lowers cell ", q, " from ", a[q], " to ", b[q]); break; } if (!bad.empty()) break; } }
    if (!bad.empty()) hx::viol("order", bad);
}
// an expansion through a sonic point opens: the jump does not survive as a stationary shock
static void expansion(simx::Cfg c) {
    const std::string name = "sonic-" + c.str(); if (!hx::begin(name)) return; Stepper s(c); const int n = c.n[0]; std::string bad;
    for (double a : {-1.0, -0.5, -0.25}) for (double b : {1.0, 0.5, 0.25}) for (int at = 2; at <= n - 2; ++at) { hx::count("evaluations"); hx::count("nontrivial"); s.set([&](int i, int j, int k) { (void)j; (void)k; return Vec{i < at ? a : b}; }); double t = 0, dx = s.dx(0);
        while (t < 3 * dx / std::max(-a, b) && bad.empty()) { if (!s.step()) { bad = "the step fails"; break; } t += s.dt(); } double m = 0; for (int i = 0; i + 1 < n; ++i) m = std::max(m, s.u()[i + 1] - s.u()[i]);
        // the exact solution rises by dx / t per cell
        if (bad.empty() && !(m <= 0.75 * (b - a))) bad = hx::cat("the jump from ", a, " to ", b, " at cell ", at, " still rises by ", m, " in one cell at time ", t); if (!bad.empty()) break; }
    if (!bad.empty()) hx::viol("sonic", bad);
}
static void positive(simx::Cfg c, long maxWords, int steps, bool mild = false) {
    const std::string name = (mild ? "mild-" : "positive-") + c.str() + "-cfl" + c.cfl; if (!hx::begin(name) || hx::timeUp()) return; hx::sample(name); Stepper s(c); const int nd = c.nvar() - 2, n = int(s.cells); std::vector<Vec> A;
    for (int ri = 0; ri < 3; ++ri) for (int pi = 0; pi < 3; ++pi) for (int ui = 0; ui < 3; ++ui) { const double r = (mild ? std::array<double, 3>{{0.5, 1, 2}} : std::array<double, 3>{{0.02, 1, 20}})[ri], p = (mild ? std::array<double, 3>{{0.4, 1, 2.5}} : std::array<double, 3>{{0.01, 1, 50}})[pi], u = (mild ? std::array<double, 3>{{-1, 0, 0.7}} : std::array<double, 3>{{-3, 0, 2}})[ui]; Vec w{r}; for (int d = 0; d < nd; ++d) w.push_back(d == 0 ? u : d == 1 ? -u * 0.7 + 0.2 : 1 - u); w.push_back(p); A.push_back(simx::eulerConserved(w, c.gamma)); }
    std::string bad; const int base = int(A.size());
    for (auto& d : wordsUpTo(n, base, maxWords)) { if (!bad.empty()) break; hx::count("nontrivial"); s.set([&](int i, int j, int k) { int q = i + c.n[0] * (j + c.n[1] * k); return A[d[q % 6]]; });
        for (int t = 0; t < steps && bad.empty(); ++t) { hx::count("evaluations"); std::string why; if (!s.step(&why)) { bad = hx::cat("word (", show(prim(A[d[0]], c.gamma)), show(prim(A[d[1]], c.gamma)), show(prim(A[d[2]], c.gamma)), ") step ", t + 1, ": ", why.substr(0, 100)); break; }
            for (int q = 0; q < n; ++q) { Vec x; for (int a = 0; a < c.nvar(); ++a) x.push_back(s.u()[a * n + q]); if (!(x[0] > 0 && prim(x, c.gamma).back() > 0)) { bad = hx::cat("word starting ", show(A[d[0]]), show(A[d[1]]), " step ", t + 1, ": cell ", q, " becomes ", show(x)); break; } } }
    }
    if (!bad.empty()) hx::viol("positive", bad);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); using cfgs::mk; const bool T = hx::thorough; const long W = T ? 70000 : 1300; auto shape = [&](simx::Cfg c, I3 n, const char* cfl) { c.n = n; c.lower = {{-0.5, 0.25, 1}}; c.upper = {{0.75, 2.5, 1.8}}; c.cfl = cfl; return c; };
    struct S { const char *eq, *f; bool monotone; }; const S schemes[] = {{"burgers", "godunov", true}, {"burgers", "rusanov", true}, {"burgers", "roe", false}, {"cubic", "rusanov", true}, {"cubic", "roe", true}, {"linear", "upwind", true}, {"linear", "roe", true}, {"linear", "rusanov", true}, {"buckleyleverett", "godunov", true}};
    for (std::string bc : {"periodic", "neumann"}) for (auto& q : schemes) {
        const bool slopes = std::string(q.eq) == "burgers" && q.monotone;
        for (int n : {5, 6, 7}) { scalar(shape(mk(1, q.eq, q.f, "none", "forwardeuler", bc), {{n, 1, 1}}, "0.9"), W, 6, false); scalar(shape(mk(1, q.eq, q.f, "none", "forwardeuler", bc), {{n, 1, 1}}, "0.45"), W, 4, slopes); }
        for (auto in : {"rungekutta2", "rungekutta3"}) { scalar(shape(mk(1, q.eq, q.f, "none", in, bc), {{6, 1, 1}}, "0.9"), W, 4, false); for (auto r : {"mc", "mm"}) for (int n : {5, 6, 7}) scalar(shape(mk(1, q.eq, q.f, r, in, bc), {{n, 1, 1}}, "0.475"), W, 5, false); }
        scalar(shape(mk(2, q.eq, q.f, "none", "forwardeuler", bc), {{3, 2, 1}}, "0.9"), W, 3, false); scalar(shape(mk(2, q.eq, q.f, "none", "forwardeuler", bc), {{2, 4, 1}}, "0.9"), W, 3, false); scalar(shape(mk(3, q.eq, q.f, "none", "forwardeuler", bc), {{2, 3, 2}}, "0.9"), W / 5, 3, false);
        for (auto r : {"mc", "mm"}) { scalar(shape(mk(2, q.eq, q.f, r, "rungekutta2", bc), {{3, 3, 1}}, "0.475"), W, 3, false); scalar(shape(mk(3, q.eq, q.f, r, "rungekutta3", bc), {{2, 3, 2}}, "0.475"), W / 5, 2, false); }
        if (q.monotone) { const char* oc = std::string(q.f) == "rusanov" ? "0.45" : "0.9"; ordered(shape(mk(1, q.eq, q.f, "none", "forwardeuler", bc), {{5, 1, 1}}, oc)); ordered(shape(mk(1, q.eq, q.f, "none", "forwardeuler", bc), {{7, 1, 1}}, oc)); ordered(shape(mk(2, q.eq, q.f, "none", "forwardeuler", bc), {{3, 2, 1}}, oc)); ordered(shape(mk(3, q.eq, q.f, "none", "forwardeuler", bc), {{2, 2, 2}}, oc)); }
        if (slopes && bc == "neumann") for (auto in : {"forwardeuler", "rungekutta2"}) expansion(shape(mk(1, q.eq, q.f, "none", in, bc), {{10, 1, 1}}, "0.9"));
        if (slopes && bc == "neumann") expansion(shape(mk(1, q.eq, q.f, "mc", "rungekutta2", bc), {{10, 1, 1}}, "0.475"));
    }
    for (std::string bc : {"periodic", "neumann"}) for (std::string f : {"hll", "hll3"}) for (auto cfl : {"0.45", "0.9"}) { const bool mild = f == "hll3";     // the three wave scheme is not positive for arbitrarily strong jumps in several dimensions
        for (int n : {3, 4, 6}) positive(shape(mk(1, "euler1", f, "none", "forwardeuler", bc), {{n, 1, 1}}, cfl), T ? 600000 : 12000, 3); positive(shape(mk(2, "euler2", f, "none", "forwardeuler", bc), {{3, 2, 1}}, cfl), T ? 200000 : 4000, 3, mild); positive(shape(mk(2, "euler2", f, "none", "forwardeuler", bc), {{2, 4, 1}}, cfl), T ? 200000 : 4000, 3, mild); positive(shape(mk(3, "euler3", f, "none", "forwardeuler", bc), {{3, 2, 2}}, cfl), T ? 100000 : 2000, 3, mild); }
    return hx::finish();
}
