// C23: every functional equals its defining sum over the interior cells, for every small state, and is reported at its place.
#include "rig.hpp"
#include "steprig.hpp"
#include "mcx.hpp"
#include "cfgs.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
#include <mpi.h>
using namespace rig;
typedef std::map<std::string, std::string> Par;
// plain picture of a volume: v[var][cell], x fastest
struct Pic { I3 n; std::vector<std::string> names; std::vector<Vec> v; double at(int a, int i, int j, int k) const { return v[a][i + size_t(n[0]) * (j + size_t(n[1]) * k)]; } };
struct Place { std::array<double, 3> lo, len; bool periodic; double gamma; };
static double leg(int d, double x) { if (d == 0) return 1; double a = 1, b = x; for (int k = 1; k < d; ++k) { double c = ((2 * k + 1) * x * b - k * a) / (k + 1); a = b; b = c; } return b; }
static double num(const Par& p, const char* k) { return atof(p.at(k).c_str()); }
// the definition; r[var] is a list of values of the functional's size
static std::vector<Vec> define(const std::string& f, const Par& p, const Pic& s, const Place& pl) {
    const int V = int(s.v.size()); const I3 n = s.n; std::vector<Vec> r(V); const size_t N = size_t(n[0]) * n[1] * n[2]; std::array<double, 3> h; for (int d = 0; d < 3; ++d) h[d] = n[d] > 1 || d == 0 ? pl.len[d] / n[d] : 1;
    auto want = [&](int a) { if (!p.count("variables")) return true; return (" " + p.at("variables") + " ").find(" " + s.names[a] + " ") != std::string::npos; };
    auto each = [&](const std::function<void(int, int, int)>& g) { for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) g(i, j, k); };
    for (int a = 0; a < V; ++a) {
        if (f == "identity" || f == "moment" || f == "legendre_pointwise") { r[a].assign(N, 0); if (want(a)) for (size_t c = 0; c < N; ++c) { double u = s.v[a][c]; r[a][c] = f == "identity" ? u : f == "moment" ? std::pow(u, num(p, "degree")) : leg(int(num(p, "degree")), (u - num(p, "minValue")) / (num(p, "maxValue") - num(p, "minValue"))); } continue; }
        if (f == "legendre") { long double t = 0; each([&](int i, int j, int k) { double x = 2 * (i + 0.5) / n[0] - 1, y = 2 * (j + 0.5) / n[1] - 1, u = (s.at(a, i, j, k) - num(p, "minValue")) / (num(p, "maxValue") - num(p, "minValue")); t += leg(int(num(p, "degree_k")), x) * leg(int(num(p, "degree_n")), y) * leg(int(num(p, "degree_m")), u) * h[0] * h[1] * h[2]; }); r[a] = {want(a) ? double(t) : 0}; continue; }
        if (f == "bv") { long double t = 0; each([&](int i, int j, int k) { if (i < 1 || (n[1] > 1 && j < 1)) return; double dx = s.at(a, i, j, k) - s.at(a, i - 1, j, k), dy = n[1] > 1 ? s.at(a, i, j, k) - s.at(a, i, j - 1, k) : 0; t += std::pow(std::sqrt(dx * dx + dy * dy), num(p, "degree")); }); r[a] = {double(t)}; continue; }
        if (f == "log_entropy") { r[a] = {0}; if (s.names[a] != "E") continue; long double t = 0; each([&](int i, int j, int k) { Vec c(V); for (int b = 0; b < V; ++b) c[b] = s.at(b, i, j, k); Vec w = prim(c, pl.gamma); t += -w[0] * (std::log(w.back()) - pl.gamma * std::log(w[0])) / (pl.gamma - 1) * h[0] * h[1] * h[2]; }); r[a] = {double(t)}; continue; }
        const int H = int(num(p, "numberOfH")); r[a].assign(H, 0); const double pw = num(p, "p"); const int D = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1;
        auto val = [&](int i, int j, int k) { I3 x{{i, j, k}}; for (int d = 0; d < 3; ++d) x[d] = pl.periodic || f == "structure_base" ? wrap(x[d], n[d]) : std::max(0, std::min(x[d], n[d] - 1)); return s.at(a, x[0], x[1], x[2]); };
        for (int q = 0; q < H; ++q) { long double t = 0; each([&](int i, int j, int k) { double u = s.at(a, i, j, k);
            if (f == "structure_base") { int d = int(num(p, "direction")); t += std::pow(std::fabs(u - val(i + q * (d == 0), j + q * (d == 1), k + q * (d == 2))), pw); return; }
            if (q == 0) return;
            for (int z = D > 2 ? -q : 0; z <= (D > 2 ? q : 0); ++z) for (int y = D > 1 ? -q : 0; y <= (D > 1 ? q : 0); ++y) for (int x = -q; x <= q; ++x) if (std::max(std::abs(x), std::max(std::abs(y), std::abs(z))) == q) t += std::pow(std::fabs(u - val(i + x, j + y, k + z)), pw); });
            r[a][q] = double(t / N); }
    }
    return r;
}
struct F { std::string name; Par p; };
static std::string show(const F& f) { std::string s = f.name; for (auto& x : f.p) s += " " + x.first + "=" + x.second; return s; }
static std::string S(double x) { return hx::cat(x); }
static std::vector<F> catalogue(const std::string& eq, I3 n, const std::vector<std::string>& names, double gamma, bool T) {
    std::vector<F> r; const int dim = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; r.push_back({"identity", {}});
    for (int d = 1; d <= (T ? 5 : 4); ++d) r.push_back({"moment", {{"degree", S(d)}}});
    if (dim == 2) for (int d = 0; d <= 4; ++d) for (int v = 0; v < 2; ++v) { Par p{{"degree", S(d)}, {"minValue", "-20"}, {"maxValue", "23.5"}}; if (v) p["variables"] = names[d % names.size()] + (names.size() > 1 ? " " + names[(d + 1) % names.size()] : ""); r.push_back({"legendre_pointwise", p}); }
    if (dim == 2) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) for (int m = 0; m < 3; ++m) { Par p{{"degree_k", S(k)}, {"degree_n", S(l)}, {"degree_m", S(m)}, {"minValue", "-21.5"}, {"maxValue", "22.5"}}; if ((k + l + m) % 2) p["variables"] = names.back(); r.push_back({"legendre", p}); }
    if (dim < 3) for (int d = 1; d <= 3; ++d) r.push_back({"bv", {{"degree", S(d)}}});
    for (double p : {1.0, 2.0, 3.0, 0.5}) for (int d = 0; d < dim; ++d) r.push_back({"structure_base", {{"p", S(p)}, {"direction", S(d)}, {"numberOfH", S(p == 1 ? n[d] + 1 : p == 2 ? 1 : 2)}}});
    if (n[1] > 1 || n[2] == 1) for (double p : {1.0, 2.0, 3.0, 4.0, 5.0, 2.5}) r.push_back({"structure_cube", {{"p", S(p)}, {"numberOfH", S(p == 1 ? 4 : p == 2 ? 1 : p == 3 ? 3 : 2)}}});
    if (eq.substr(0, 5) == "euler") r.push_back({"log_entropy", {{"gamma", S(gamma)}}});
    return r;
}
static const double letters1[] = {0.5, -1.25, 2};
static Vec letter(const std::string& eq, int l, double gamma) { if (eq.substr(0, 5) != "euler") return {letters1[l]}; int d = eq[5] - '0'; Vec w; w.push_back(l == 0 ? 1 : l == 1 ? 0.4 : 2.5); for (int i = 0; i < d; ++i) w.push_back((l - 0.7) * (i + 1) * 0.6); w.push_back(l == 0 ? 0.8 : l == 1 ? 3 : 1.1); return simx::eulerConserved(w, gamma); }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-12 * std::max(scale, std::fabs(b)); }
static std::string direct(const Parts& P, const F& f, const Place& pl, int ghost, const std::vector<std::array<Vol, 2>>&, Vol& in, const Pic& one, const Pic& two) {
    functional::FunctionalFactory ff; auto fn = ff.makeFunctional("cpu", f.name, functional::Functional::Parameters(f.p)); ivec3 size = fn->getFunctionalSize(*P.grid); auto g = fn->getGhostCellSizes(*P.grid, *in.v);
    auto d1 = define(f.name, f.p, one, pl), d2 = define(f.name, f.p, two, pl); if (size_t(size.x) * size.y * size.z != d1[0].size()) return hx::cat("size ", size.x, "x", size.y, "x", size.z);
    Vol out(P.vf->createConservedVolume(size.x, size.y, size.z, g.x)); out.fill(0.125); const double w1 = 0.75, w2 = 2.5;
    for (int t = 0; t < 2; ++t) { const Pic& s = t ? two : one; in.fill(ghost ? NAN : 0); in.eachInner([&](int i, int j, int k) { for (int a = 0; a < in.vars(); ++a) in.at(a, i, j, k) = s.at(a, i, j, k); }); (*fn)(*out.v, *in.v, t ? w2 : w1, *P.grid);
        std::string bad; in.eachAll([&](int i, int j, int k) { bool inner = i >= 0 && j >= 0 && k >= 0 && i < in.n[0] && j < in.n[1] && k < in.n[2]; for (int a = 0; a < in.vars(); ++a) { double x = in.at(a, i, j, k); if (inner ? x != s.at(a, i, j, k) : ghost && x == x) bad = "the solution was changed"; } }); if (!bad.empty()) return bad; }
    std::string bad; double scale = 1; for (auto& v : d1) scale = std::max(scale, maxAbs(v)); for (auto& v : d2) scale = std::max(scale, maxAbs(v));
    for (int a = 0; a < out.vars(); ++a) { size_t c = 0; out.eachInner([&](int i, int j, int k) { double want = 0.125 + w1 * d1[a][c] + w2 * d2[a][c]; if (bad.empty() && !near(out.at(a, i, j, k), want, 3 * scale)) bad = hx::cat("variable ", one.names[a], " value ", c, " is ", out.at(a, i, j, k), " instead of ", want); ++c; }); }
    return bad;
}
static Pic pic(const std::string& eq, I3 n, const std::vector<std::string>& names, const std::vector<int>& word, double gamma) { Pic p; p.n = n; p.names = names; const size_t N = size_t(n[0]) * n[1] * n[2]; for (size_t a = 0; a < names.size(); ++a) p.v.push_back(Vec(N)); for (size_t c = 0; c < N; ++c) { Vec s = letter(eq, word[c], gamma); for (size_t a = 0; a < names.size(); ++a) p.v[a][c] = s[a]; } return p; }
static bool threw(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return true; } return false; }
// whole runs: what is recorded for each functional equals its definition on the solution of that time
static std::string runs(const std::string& eq, I3 n, I3 proc, const std::string& bc) {
    const int R = proc[0] * proc[1] * proc[2]; simx::Cfg c; c.equation = eq; c.flux = eq == "burgers" ? "rusanov" : "hll"; c.n = {{n[0], n[1], n[2]}}; c.upper = {{1, 0.75, 1}}; c.boundary = bc; c.endTime = 0.05; c.cfl = "0.4"; c.recon = "mc"; c.integrator = "rungekutta2";
    Parts P(eq, n); std::vector<std::string> names; { auto v = P.vol(0); for (int a = 0; a < v.vars(); ++a) names.push_back(v.v->getName(a)); }
    auto all = catalogue(eq, n, names, 1.4, false); std::vector<F> fs; for (auto& f : all) { if (R > 1 && f.name.substr(0, 9) == "structure") continue; if (fs.size() && fs.back().name == f.name && fs.size() > 1 && fs[fs.size() - 2].name == f.name) continue; fs.push_back(f); }
    c.functionals = "<functionals>"; for (size_t i = 0; i < fs.size(); ++i) { c.functionals += "<functional><name>" + fs[i].name + "</name><numberOfSaves>3</numberOfSaves>"; for (auto& x : fs[i].p) if (fs[i].name != "log_entropy") c.functionals += "<" + x.first + ">" + x.second + "</" + x.first + ">"; c.functionals += hx::cat("<writer><type>RECORD</type><basename>f", i, "</basename></writer></functional>"); } c.functionals += "</functionals>";
    c.writer = "<writer><type>RECORD</type><basename>base</basename><numberOfSaves>3</numberOfSaves><writeInitialTimestep>true</writeInitialTimestep></writer>";
    std::string file = simx::writeFile("cfg.xml", c.xml()), bad; auto init = cfgs::data(c); std::vector<std::shared_ptr<simx::RecorderFactory>> wf(R);
    mc::Exec e = mc::run(R, mc::Policy(), {}, [&](int r) { wf[r] = std::make_shared<simx::RecorderFactory>(); auto sm = simx::makeMpi(file, MPI_COMM_WORLD, proc[0], proc[1], proc[2], wf[r]); alsfvm::shared_ptr<init::InitialData> d(new simx::CellData(init)); sm.sim->setInitialValue(d); sm.sim->callWriters(); while (!sm.sim->atEnd()) sm.sim->performStep(); sm.sim->finalize(); });
    hx::count("transitions", e.steps); hx::count("executions"); if (!e.clean()) return e.what();
    for (int r = 0; r < R; ++r) { auto base = wf[r]->find("base"); if (!base || base->snaps.size() != 4) return "no base output"; for (size_t i = 0; i < fs.size(); ++i) { auto rec = wf[r]->find(hx::cat("f", i)); if (!rec) return "no output for " + show(fs[i]); if (rec->snaps.size() != 4) return hx::cat(show(fs[i]), ": ", rec->snaps.size(), " outputs instead of 4");
        for (int t = 0; t < 4; ++t) { auto& b = base->snaps[t]; auto& s = rec->snaps[t]; Pic p; p.n = {{b.n[0], b.n[1], b.n[2]}}; p.names = b.names; p.v = b.v; Place pl{{{0, 0, 0}}, {{c.upper[0] / proc[0], c.upper[1] / proc[1], c.upper[2] / proc[2]}}, bc == "periodic", 1.4}; if (s.time != b.time) return show(fs[i]) + ": wrong time"; auto w = define(fs[i].name, fs[i].p, p, pl);
            I3 fn = w[0].size() == p.v[0].size() ? p.n : I3{{int(w[0].size()), 1, 1}}; for (int d = 0; d < 3; ++d) { if (s.n[d] != fn[d]) return hx::cat(show(fs[i]), ": output of size ", s.n[d], " instead of ", fn[d], " in direction ", d); int coord = b.pos[d] / b.n[d]; if (s.pos[d] != coord * fn[d] || s.global[d] != fn[d] * proc[d]) return hx::cat(show(fs[i]), ": process ", r, " puts its part at ", s.pos[d], " of ", s.global[d], " in direction ", d, " instead of ", coord * fn[d], " of ", fn[d] * proc[d]); }
            double scale = 1; for (auto& v : w) scale = std::max(scale, maxAbs(v)); for (size_t a = 0; a < w.size(); ++a) for (size_t q = 0; q < w[a].size(); ++q) if (!near(s.v[a][q], w[a][q], scale)) return hx::cat(show(fs[i]), " at time ", s.time, ": ", s.v[a][q], " instead of ", w[a][q]); } } }
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; struct C { std::string eq; I3 n; }; std::vector<C> cs;
    for (int n = 1; n <= (T ? 8 : 6); ++n) cs.push_back({"burgers", {{n, 1, 1}}});
    for (I3 n : {I3{{2, 2, 1}}, I3{{3, 2, 1}}, I3{{2, 3, 1}}, I3{{4, 2, 1}}, I3{{2, 4, 1}}, I3{{1, 5, 1}}, I3{{2, 2, 2}}}) if (T || n[0] * n[1] * n[2] < 8) cs.push_back({"burgers", n}); cs.push_back({"burgers", {{3, 1, 2}}}); cs.push_back({"burgers", {{1, 3, 2}}}); cs.push_back({"burgers", {{1, 1, 5}}});
    for (int n = 2; n <= 4; ++n) cs.push_back({"euler1", {{n, 1, 1}}}); cs.push_back({"euler2", {{2, 2, 1}}}); cs.push_back({"euler2", {{3, 2, 1}}}); cs.push_back({"euler3", {{2, 1, 2}}}); cs.push_back({"euler3", {{3, 1, 1}}}); cs.push_back({"euler3", {{2, 2, 1}}}); if (T) cs.push_back({"euler3", {{2, 2, 2}}});
    for (auto& c : cs) for (int ghost = 0; ghost <= 3; ++ghost) for (int geo = 0; geo < 3; ++geo) {
        if (!T && (ghost + geo + c.n[0]) % 2) continue; if (!hx::begin(hx::cat("direct-", c.eq, "-", c.n[0], "x", c.n[1], "x", c.n[2], "-ghost", ghost, "-geometry", geo))) continue; if (hx::timeUp()) { hx::count("cap_cases"); continue; }
        const double gamma = geo == 1 ? 1.67 : 1.4; Place pl{{{0, 0, 0}}, {{1, 1, 1}}, geo != 1, gamma}; if (geo == 1) { pl.lo = {{-0.5, 2, 1}}; pl.len = {{2.5, double(c.n[1]), 4.5}}; } if (geo == 2) { pl.lo = {{1, -3, 0.25}}; pl.len = {{0.5, 0.125 * c.n[1], 3.0 * c.n[2]}}; }
        Parts P(c.eq, c.n, gamma, pl.len, pl.periodic ? boundary::allPeriodic() : boundary::allNeumann(), pl.lo); Vol in = P.vol(ghost); std::vector<std::string> names; for (int a = 0; a < in.vars(); ++a) names.push_back(in.v->getName(a)); auto fs = catalogue(c.eq, c.n, names, gamma, T);
        const int N = c.n[0] * c.n[1] * c.n[2]; bool stop = false; for (long x = 0; x < power(3, N) && !stop; ++x) { auto w = digits(x, 3, N), w2 = w; std::reverse(w2.begin(), w2.end()); for (auto& q : w2) q = (q + 1) % 3; auto p1 = pic(c.eq, c.n, names, w, gamma), p2 = pic(c.eq, c.n, names, w2, gamma); hx::count("states"); if (hx::timeUp()) { hx::count("cap_cases"); break; }
            for (auto& f : fs) { hx::count("transitions", 2); auto bad = direct(P, f, pl, ghost, {}, in, p1, p2); if (!bad.empty()) { hx::viol("functional:" + f.name, show(f) + ", state " + showDigits(w) + ": " + bad); stop = true; break; } } }
        hx::count("executions", 1); hx::sample(hx::current());
    }
    if (hx::begin("refusals")) {
        Parts one("burgers", {{4, 1, 1}}), cube("burgers", {{3, 3, 3}}); std::array<boundary::Type, 6> mpi; mpi.fill(boundary::MPI_BC); Parts part("burgers", {{4, 1, 1}}, 1.4, {{1, 1, 1}}, mpi); functional::FunctionalFactory ff;
        auto call = [&](Parts& P, const F& f) { return threw([&] { auto fn = ff.makeFunctional("cpu", f.name, functional::Functional::Parameters(f.p)); auto s = fn->getFunctionalSize(*P.grid); Vol out(P.vf->createConservedVolume(s.x, s.y, s.z, 0)), in = P.vol(0); out.fill(0); in.fill(1); (*fn)(*out.v, *in.v, 1, *P.grid); }); };
        for (auto* P : {&one, &cube}) { if (!call(*P, {"legendre", {{"degree_k", "1"}, {"degree_n", "1"}, {"degree_m", "1"}, {"minValue", "0"}, {"maxValue", "1"}}})) hx::viol("functional:refusal", "legendre is not refused outside two dimensions"); if (!call(*P, {"legendre_pointwise", {{"degree", "1"}, {"minValue", "0"}, {"maxValue", "1"}}})) hx::viol("functional:refusal", "legendre_pointwise is not refused outside two dimensions"); }
        if (!call(cube, {"bv", {{"degree", "1"}}})) hx::viol("functional:refusal", "bv is not refused in three dimensions"); for (auto s : {"structure_base", "structure_cube"}) if (!call(part, {s, {{"p", "2"}, {"direction", "0"}, {"numberOfH", "2"}}})) hx::viol("functional:refusal", std::string(s) + " is not refused on a part of the domain");
        Parts P2("burgers", {{2, 2, 1}}); if (!call(P2, {"legendre", {{"degree_k", "1"}, {"degree_n", "1"}, {"degree_m", "1"}, {"minValue", "0"}, {"maxValue", "1"}, {"variables", "v"}}})) hx::viol("functional:refusal", "an unknown variable is not refused"); for (auto d : {"-1", "3"}) if (!call(one, {"structure_base", {{"p", "2"}, {"direction", d}, {"numberOfH", "2"}}})) hx::viol("functional:refusal", std::string("direction ") + d + " is not refused"); if (!call(one, {"nosuch", {}})) hx::viol("functional:refusal", "an unknown functional is not refused");
        hx::count("states", 8); hx::count("transitions", 8);
    }
    struct W { std::string eq; I3 n, proc; const char* bc; }; std::vector<W> ws{{"burgers", {{12, 1, 1}}, {{1, 1, 1}}, "periodic"}, {"burgers", {{12, 1, 1}}, {{3, 1, 1}}, "periodic"}, {"euler2", {{8, 6, 1}}, {{1, 1, 1}}, "neumann"}, {"euler2", {{8, 6, 1}}, {{2, 1, 1}}, "periodic"}, {"euler2", {{8, 6, 1}}, {{1, 2, 1}}, "neumann"}, {"burgers", {{6, 6, 1}}, {{2, 2, 1}}, "neumann"}, {"euler3", {{6, 4, 4}}, {{1, 1, 1}}, "periodic"}, {"euler3", {{4, 4, 4}}, {{1, 2, 2}}, "periodic"}, {"euler1", {{10, 1, 1}}, {{2, 1, 1}}, "neumann"}};
    for (auto& w : ws) { if (!hx::begin(hx::cat("run-", w.eq, "-", w.bc, "-", w.proc[0], "x", w.proc[1], "x", w.proc[2], "-on-", w.n[0]))) continue; auto bad = runs(w.eq, w.n, w.proc, w.bc); if (!bad.empty()) hx::viol("functional:run", bad); hx::count("states"); hx::sample(hx::current()); }
    return hx::finish();
}
