// C28: every cell of every part of the domain starts with what the user's script gives for its midpoint, its place in the whole grid
// and the parameters in force; scripts that fail are reported.
#include "mcx.hpp"
#include "cfgs.hpp"
#include "rig.hpp"
#include "alsfvm/init/PythonInitialData.hpp"
#include <mpi.h>
using namespace simx;
typedef std::vector<double> Vec;
typedef std::map<std::string, Vec> Par;
struct At { double x, y, z; int i, j, k; };
struct Script { std::string name, text; bool global = false; std::function<double(int var, const At&, const Par&)> value; };
static const double XM = 0.31;
// one-line expressions; V stands for the variable
struct Ex { std::string py; std::function<double(const At&, const Par&)> f; };
static double sc(const Par& p, const char* n) { return p.at(n)[0]; }
static std::vector<Ex> expressions(int dim, bool euler) {
    std::vector<Ex> e;
    e.push_back({"V = 1.25", [](const At&, const Par&) { return 1.25; }});
    e.push_back({"V = 2 + 0.5*x", [](const At& a, const Par&) { return 2 + 0.5 * a.x; }});
    if (dim > 1) e.push_back({"V = 2 + 0.25*y + 0.03125*x", [](const At& a, const Par&) { return 2 + 0.25 * a.y + 0.03125 * a.x; }});
    if (dim > 2) e.push_back({"V = 2 + 0.125*z - 0.25*y", [](const At& a, const Par&) { return 2 + 0.125 * a.z - 0.25 * a.y; }});
    e.push_back({"V = 1 + 0.0625*i + 0.5*j + 0.0078125*k", [](const At& a, const Par&) { return 1 + 0.0625 * a.i + 0.5 * a.j + 0.0078125 * a.k; }});
    e.push_back({"V = a + 0.5*abs(x)", [](const At& a, const Par& p) { return sc(p, "a") + 0.5 * std::fabs(a.x); }});
    e.push_back({"V = A[1] + 0.25*A[len(A)-1] + 0.125*A[i % len(A)]", [](const At& a, const Par& p) { auto& A = p.at("A"); return A[1] + 0.25 * A.back() + 0.125 * A[a.i % A.size()]; }});
    e.push_back({"if x < xm:\n    V = 2.0\nelse:\n    V = 1.0", [](const At& a, const Par& p) { return a.x < sc(p, "xm") ? 2.0 : 1.0; }});
    e.push_back({"V = 1\nfor q in range(i + 2):\n\n    V = V + 0.125\n    if q == 1:\n        V += a", [](const At& a, const Par& p) { return 1 + 0.125 * (a.i + 2) + sc(p, "a"); }});
    e.push_back({"V = 1.5 + 0.25*sin(3*x) + 0.125*cos(pi*x)", [](const At& a, const Par&) { return 1.5 + 0.25 * std::sin(3 * a.x) + 0.125 * std::cos(M_PI * a.x); }});
    e.push_back({"V = 1 + sum(A)*0.125   # comment\n# V = 7", [](const At&, const Par& p) { double s = 0; for (double q : p.at("A")) s += q; return 1 + s * 0.125; }});
    if (euler) e.push_back({"V = gamma + x*x", [](const At& a, const Par& p) { return sc(p, "gamma") + a.x * a.x; }});
    return e;
}
static std::string put(std::string s, const std::string& v) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 'V' && (i == 0 || !isalnum(s[i - 1])) && (i + 1 == s.size() || !isalnum(s[i + 1]))) r += v; else r += s[i]; } return r; }
static std::vector<std::string> prims(const std::string& eq) { if (eq.substr(0, 5) != "euler") return {"u"}; std::vector<std::string> r{"rho", "ux", "uy", "uz"}; r.resize(1 + (eq[5] - '0')); r.push_back("p"); return r; }
static std::vector<Script> scripts(const std::string& eq, int dim, bool few) {
    std::vector<Script> out; const auto vs = prims(eq); const auto ex = expressions(dim, eq.substr(0, 5) == "euler");
    for (size_t o = 0; o < ex.size(); ++o) { Script s; s.name = hx::cat("expr", o); for (size_t v = 0; v < vs.size(); ++v) s.text += put(ex[(o + v) % ex.size()].py, vs[v]) + "\n"; s.value = [ex, o](int v, const At& a, const Par& p) { return ex[(o + v) % ex.size()].f(a, p); }; if (!few || o % 3 == 1) out.push_back(s); }
    std::string args; for (auto& v : vs) args += v + ", ";
    const std::string head = "def init_global(" + args + "nx, ny, nz, ax, ay, az, bx, by, bz):\n";
    auto mid = [](char c) { return hx::cat("    ", c, " = a", c, " + (q", c, " + 0.5)*(b", c, "-a", c, ")/n", c, "\n"); };
    { Script s; s.name = "loops"; s.global = true; s.text = head + "  for qx in range(nx):\n   for qy in range(ny):\n    for qz in range(nz):\n" ; std::string in; for (char c : {'x', 'y', 'z'}) in += mid(c); for (size_t v = 0; v < vs.size(); ++v) in += "    " + vs[v] + hx::cat("[qx, qy, qz] = ", v + 2, " + 0.25*a*x", dim > 1 ? " + 0.125*y" : "", dim > 2 ? " - 0.0625*z" : "", "\n"); std::string t; std::istringstream is(in); for (std::string l; std::getline(is, l);) t += " " + l + "\n"; s.text += t;
        s.value = [dim](int v, const At& a, const Par& p) { return v + 2 + 0.25 * sc(p, "a") * a.x + (dim > 1) * 0.125 * a.y - (dim > 2) * 0.0625 * a.z; }; out.push_back(s); }
    { Script s; s.name = "slices"; s.global = true; s.text = head + "  x = ax + (arange(nx) + 0.5)*(bx-ax)/nx\n"; if (dim > 1) s.text += "  y = ay + (arange(ny) + 0.5)*(by-ay)/ny\n"; for (size_t v = 0; v < vs.size(); ++v) { s.text += "  " + vs[v] + hx::cat("[:,:,:] = ", v + 1, " + A[0]\n"); if (dim < 2) s.text += "  " + vs[v] + "[:,0,0] += 0.5*x\n"; else s.text += "  for k in range(nz):\n    " + vs[v] + "[:,:,k] += outer(0.5*x, ones(ny)) + outer(ones(nx), 0.25*y)\n"; }
        s.value = [dim](int v, const At& a, const Par& p) { return v + 1 + p.at("A")[0] + 0.5 * a.x + (dim > 1) * 0.25 * a.y; }; out.push_back(s); }
    // velocities (scalar equations: the value) that the script does not set, or sets in some cells only, are zero
    auto quiet = [vs](int v) { return vs.size() == 1 || (v > 0 && v + 1 < int(vs.size())); };
    { Script s; s.name = "unset"; for (size_t v = 0; v < vs.size(); ++v) s.text += quiet(int(v)) ? "if i % 2 == 1:\n    " + vs[v] + " = 0.5*a\n" : vs[v] + " = 1.5\n"; s.value = [quiet](int v, const At& a, const Par& p) { return quiet(v) ? a.i % 2 == 1 ? 0.5 * sc(p, "a") : 0.0 : 1.5; }; out.push_back(s); }
    { Script s; s.name = "unsetarray"; s.global = true; s.text = head; for (size_t v = 0; v < vs.size(); ++v) s.text += quiet(int(v)) ? "  for q in range(nx):\n    if ax + (q + 0.5)*(bx-ax)/nx < xm:\n      " + vs[v] + "[q,:,:] = 0.5*a\n" : "  " + vs[v] + "[:,:,:] = 1.5\n"; s.value = [quiet](int v, const At& a, const Par& p) { return quiet(v) ? a.x < sc(p, "xm") ? 0.5 * sc(p, "a") : 0.0 : 1.5; }; out.push_back(s); }
    { Script s; s.name = "helpers"; s.global = true; s.text = "import math\ndef helper(q):\n    return 1 + 0.125*q*a\n\n" + head; for (size_t v = 0; v < vs.size(); ++v) s.text += "  " + vs[v] + hx::cat("[...] = helper(", v, ")\n"); s.value = [](int v, const At&, const Par& p) { return 1 + 0.125 * v * sc(p, "a"); }; out.push_back(s); }
    return out;
}
static std::string xmlOf(const Cfg& c, const std::string& script, const Par& par) {
    std::string s = c.xml(), pr; for (auto& p : par) { if (p.first == "gamma") continue; pr += "<parameter><name>" + p.first + hx::cat("</name><length>", p.second.size(), "</length>"); if (p.second.size() == 1) pr += hx::cat("<value>", p.second[0], "</value>"); else { pr += "<values>"; for (double v : p.second) pr += hx::cat("<value>", v, "</value>"); pr += "</values>"; } pr += "</parameter>"; }
    const std::string old = "<python>init.py</python>"; s.replace(s.find(old), old.size(), "<python>" + script + "</python><parameters>" + pr + "</parameters>"); return s;
}
static int serial = 0;
static std::string program(const std::string& text) { const std::string n = hx::cat("script", serial++, ".py"); writeFile(n, text); return n; }
// the parts of the configured run, built by the real set-up code on their processes
static std::vector<Sim> parts(const std::string& file, std::array<int, 3> pr, bool alone, std::string& bad) {
    if (alone) return {make(file)};
    const int n = pr[0] * pr[1] * pr[2]; if (n == 1) return {makeMpi(file, MPI_COMM_WORLD, 1, 1, 1, std::make_shared<RecorderFactory>())};
    std::vector<Sim> s(n); auto e = mc::run(n, mc::Policy(), {}, [&](int r) { s[r] = makeMpi(file, MPI_COMM_WORLD, pr[0], pr[1], pr[2], std::make_shared<RecorderFactory>()); }); if (!e.clean()) bad = e.what(); return s;
}
static std::string check(const Cfg& c, const Script& sc, const Par& par, std::vector<Sim>& sims, const Par* later = nullptr) {
    Par now = par; if (later) for (auto& p : *later) now[p.first] = p.second;
    std::vector<Snapshot> snaps; std::vector<const Snapshot*> ptr;
    for (auto& s : sims) {
        if (later) { alsfvm::init::Parameters q; for (auto& p : *later) q.addParameter(p.first, std::vector<alsfvm::real>(p.second.begin(), p.second.end())); s.init->setParameters(q); }
        auto rec = std::make_shared<Recorder>(); s.sim->setInitialValue(s.init); s.sim->addWriter(rec); s.sim->callWriters(); snaps.push_back(rec->snaps.at(0)); hx::count("transitions");
    }
    for (auto& s : snaps) ptr.push_back(&s); Snapshot w; auto j = join(ptr, w); if (!j.empty()) return j;
    const int nv = int(prims(c.equation).size()); double lo[3], h[3]; for (int d = 0; d < 3; ++d) { lo[d] = c.lower[d]; h[d] = (c.upper[d] - c.lower[d]) / c.n[d]; }
    for (int k = 0; k < c.n[2]; ++k) for (int jj = 0; jj < c.n[1]; ++jj) for (int i = 0; i < c.n[0]; ++i) {
        At a{lo[0] + (i + 0.5) * h[0], lo[1] + (jj + 0.5) * h[1], lo[2] + (k + 0.5) * h[2], i, jj, k}; Vec want; for (int v = 0; v < nv; ++v) want.push_back(sc.value(v, a, now)); if (nv > 1) want = eulerConserved(want, c.gamma);
        hx::count("states"); for (int v = 0; v < nv; ++v) { const double got = w.v[v][i + size_t(c.n[0]) * (jj + size_t(c.n[1]) * k)]; if (!(std::fabs(got - want[v]) <= 1e-12 * (1 + std::fabs(want[v])))) return hx::cat("cell (", i, ", ", jj, ", ", k, ") variable ", w.names[v], " starts with ", got, " instead of ", want[v]); }
    }
    return "";
}
static std::string failing(const std::function<void()>& f, const std::string& what) { try { f(); } catch (std::runtime_error& e) { return std::string(e.what()).empty() ? what + ": refused without a message" : ""; } catch (std::exception& e) { return ""; } catch (...) { return what + ": something other than an exception of the standard library"; } return what + " is accepted"; }

int main(int argc, char** argv) {
    hx::init(argc, argv); hx::quietLog(); const bool T = hx::thorough;
    const Par base{{"a", {0.75}}, {"A", {0.5, 1.25, 0.25}}, {"xm", {XM}}};
    struct Shape { rig::I3 n; std::vector<std::array<int, 3>> procs; };
    std::vector<Shape> shapes{{{{6, 1, 1}}, {{{1, 1, 1}}, {{2, 1, 1}}, {{3, 1, 1}}}}, {{{5, 1, 1}}, {{{1, 1, 1}}}}, {{{9, 1, 1}}, {{{3, 1, 1}}}}, {{{4, 6, 1}}, {{{1, 1, 1}}, {{2, 1, 1}}, {{1, 3, 1}}, {{2, 2, 1}}}}, {{{5, 3, 1}}, {{{1, 1, 1}}}}, {{{4, 6, 2}}, {{{1, 1, 1}}, {{2, 3, 1}}}}, {{{2, 3, 4}}, {{{1, 1, 1}}, {{1, 1, 2}}}}, {{{4, 4, 4}}, {{{2, 2, 2}}}}};
    if (T) { for (int a = 1; a <= 5; ++a) for (int b = 1; b <= 5; ++b) for (int e = 1; e <= 4; ++e) if (!(b == 1 && e > 1) && a > 1) shapes.push_back({{{a, b, e}}, {{{1, 1, 1}}}}); shapes.push_back({{{12, 1, 1}}, {{{4, 1, 1}}, {{6, 1, 1}}, {{2, 1, 1}}}}); shapes.push_back({{{6, 8, 1}}, {{{3, 4, 1}}, {{3, 2, 1}}}}); shapes.push_back({{{6, 4, 4}}, {{{3, 2, 1}}, {{3, 1, 2}}}}); }
    struct Place { std::array<double, 3> lo, up; };
    const std::vector<Place> places{{{{0, 0, 0}}, {{1, 1, 1}}}, {{{-0.5, 0.25, 1}}, {{1.5, 0.75, 3}}}};
    int id = 0;
    for (auto& sh : shapes) for (auto& pr : sh.procs) for (size_t pl = 0; pl < places.size(); ++pl) {
        const int dim = sh.n[2] > 1 ? 3 : sh.n[1] > 1 ? 2 : 1;
        for (std::string eq : {"burgers", "linear", "cubic", "buckleyleverett", "euler"}) { if (eq == "euler") eq = cfgs::spatialDims(dim);
            const bool main = eq == "burgers" || eq[0] == 'e';
            for (auto& sc : scripts(eq, dim, !main || (pl && !T))) {
                if (!hx::begin(hx::cat("script-", id++, "-", eq, "-", sh.n[0], "x", sh.n[1], "x", sh.n[2], "-procs", pr[0], pr[1], pr[2], "-place", pl, "-", sc.name))) continue;
                if (hx::timeUp()) break;
                Cfg c = cfgs::mk(dim, eq, "central", "none"); c.n = sh.n; c.lower = places[pl].lo; c.upper = places[pl].up; for (int d = dim; d < 3; ++d) c.lower[d] = c.upper[d] = 0; c.gamma = pl ? 1.6 : 1.4; Par par = base; par["gamma"] = {c.gamma};
                const bool alone = pr[0] * pr[1] * pr[2] == 1 && (id % 2); std::string bad; const auto file = writeFile("cfg.xml", xmlOf(c, program(sc.text), base));
                try { auto s = parts(file, pr, alone, bad); if (bad.empty()) bad = check(c, sc, par, s); if (bad.empty() && (sc.name == "loops" || sc.name.substr(0, 5) == "unset")) { Par l{{"a", {2.5}}, {"xm", {0.45}}}; auto w = check(c, sc, par, s, &l); if (!w.empty()) bad = "after a parameter was set again: " + w; } }
                catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
                if (!bad.empty()) hx::viol("init-" + sc.name, bad); hx::count("executions"); hx::sample(hx::current());
            }
        }
    }
    // ---- reconstructions with other widths of the ghost layer
    for (auto& fr : {std::make_pair("central", "weno3"), std::make_pair("tecno6", "none"), std::make_pair("hll", "eno4"), std::make_pair("hll3", "weno2")}) for (int dim = 1; dim <= 3; ++dim) for (auto& sc : scripts(cfgs::spatialDims(dim), dim, true)) {
        if (!hx::begin(hx::cat("ghost-", fr.first, "-", fr.second, "-", dim, "-", sc.name))) continue;
        Cfg c = cfgs::mk(dim, cfgs::spatialDims(dim), fr.first, fr.second); c.n = {{7, dim > 1 ? 6 : 1, dim > 2 ? 8 : 1}}; for (int d = dim; d < 3; ++d) c.upper[d] = 0; Par par = base; par["gamma"] = {c.gamma}; std::string bad;
        try { auto s = parts(writeFile("cfg.xml", xmlOf(c, program(sc.text), base)), {{1, 1, 1}}, true, bad); bad = check(c, sc, par, s); } catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
        if (!bad.empty()) hx::viol("init-ghost", bad); hx::count("executions");
    }
    // ---- histories: two scripts, parameters set again and again; every sequence of up to L operations
    {
        const int L = T ? 5 : 4; const std::vector<Par> sets{{{"a", {0.5}}}, {{"a", {1.5}}, {"A", {1, 2}}}, {{"A", {0.25, 0.5, 0.75, 1}}, {"xm", {0.7}}}};
        for (std::string eq : {"burgers", "euler2"}) for (int kinds = 0; kinds < 3; ++kinds) for (int len = 1; len <= L; ++len) for (long w = 0; w < long(std::pow(6, len)); ++w) {
            if (!hx::begin(hx::cat("history-", eq, "-", kinds, "-", len, "-", w))) continue;
            if (hx::timeUp()) break;
            const int dim = eq == "burgers" ? 1 : 2; auto all = scripts(eq, dim, false); auto find = [&](const std::string& n) -> Script& { for (auto& s : all) if (s.name == n) return s; return all[0]; };
            Script sc[2] = {find(kinds == 0 ? "expr4" : kinds == 1 ? "loops" : "expr5"), find(kinds == 0 ? "expr6" : kinds == 1 ? "slices" : "helpers")};
            static std::map<std::string, std::pair<Cfg, std::array<std::string, 2>>> files; auto key = hx::cat(eq, kinds); if (!files.count(key)) { Cfg c = cfgs::mk(dim, eq, "central"); c.n = {{3, dim > 1 ? 2 : 1, 1}}; if (dim < 2) c.upper[1] = 0; c.upper[2] = 0; std::array<std::string, 2> f; for (int o = 0; o < 2; ++o) f[o] = writeFile("cfg.xml", xmlOf(c, program(sc[o].text), base)); files[key] = {c, f}; }
            Cfg c = files[key].first; std::string bad; std::vector<Sim> s[2]; Par par[2] = {base, base}; for (auto& p : par) p["gamma"] = {c.gamma};
            try { for (int o = 0; o < 2; ++o) s[o] = parts(files[key].second[o], {{1, 1, 1}}, true, bad); long q = w; for (int t = 0; t < len && bad.empty(); ++t) { const int op = int(q % 6); q /= 6; const int o = op % 2; std::vector<Sim> one = s[o]; bad = check(c, sc[o], par[o], one, &sets[op / 2]); for (auto& p : sets[op / 2]) par[o][p.first] = p.second; if (!bad.empty()) bad = hx::cat("operation ", t + 1, ": ", bad); } } catch (std::exception& e) { bad = e.what(); }
            if (!bad.empty()) hx::viol("init-history", bad); hx::count("executions");
        }
    }
    // ---- scripts and parameters that are wrong, before and after good ones
    {
        struct Wrong { std::string name, text; }; std::vector<Wrong> ws{{"a syntax error", "u = = 1\n"}, {"an unknown name", "u = unknown_name\n"}, {"a raised exception", "raise ValueError('no')\n"}, {"an exception in some cells", "u = 1\nif i == 2:\n    u = A[99]\n"}, {"a value that is no number", "u = 'text'\n"}, {"a missing value", "u = None\n"}, {"a wrong indentation", "u = 1\n   u = 2\n"}, {"a global function that raises", "def init_global(u, nx, ny, nz, ax, ay, az, bx, by, bz):\n    raise RuntimeError('x')\n"}, {"a global function with too few arguments", "def init_global(u, nx, ny, nz):\n    u[:,:,:] = 1\n"}, {"a global function that leaves the array", "def init_global(u, nx, ny, nz, ax, ay, az, bx, by, bz):\n    u[nx, 0, 0] = 1\n"}, {"a global function with a wrong shape", "def init_global(u, nx, ny, nz, ax, ay, az, bx, by, bz):\n    u[:,:,:] = zeros((nx+1, 2, 2))\n"}, {"a global script with a syntax error", "def init_global(u, nx, ny, nz, ax, ay, az, bx, by, bz)\n    u[:] = 1\n"}};
        for (size_t k = 0; k < ws.size(); ++k) for (int when = 0; when < 3; ++when) {
            if (!hx::begin(hx::cat("wrong-", k, "-", when))) continue;
            Cfg c = cfgs::mk(1, "burgers", "rusanov"); c.n = {{4, 1, 1}}; c.upper[1] = c.upper[2] = 0; auto good = scripts("burgers", 1, false); std::string bad; auto runGood = [&](size_t g) { std::string b; auto s = parts(writeFile("cfg.xml", xmlOf(c, program(good[g].text), base)), {{1, 1, 1}}, true, b); return check(c, good[g], base, s); };
            try { if (when >= 1) bad = runGood(1); if (bad.empty()) { auto s = parts(writeFile("cfg.xml", xmlOf(c, program(ws[k].text), base)), {{1, 1, 1}}, true, bad); bad = failing([&] { s[0].sim->setInitialValue(s[0].init); }, ws[k].name); } for (size_t g = 0; when == 2 && bad.empty() && g < good.size(); ++g) { bad = runGood(g); if (!bad.empty()) bad = "after " + ws[k].name + ": " + bad; } } catch (std::exception& e) { bad = e.what(); }
            if (!bad.empty()) hx::viol("init-wrong", bad); hx::count("executions"); hx::count("states"); hx::count("transitions");
        }
        auto withParams = [&](const std::string& p) { Cfg c = cfgs::mk(1, "burgers", "rusanov"); c.n = {{4, 1, 1}}; c.upper[1] = c.upper[2] = 0; std::string s = c.xml(); const std::string old = "<python>init.py</python>"; s.replace(s.find(old), old.size(), "<python>" + program("u = 1 + A[0] + 0.5*A[len(A)-1] + 0.25*len(A)\n") + "</python><parameters>" + p + "</parameters>"); return std::make_pair(c, writeFile("cfg.xml", s)); };
        struct PV { std::string xml; bool ok; Vec a; }; std::vector<PV> pv{{"<parameter><name>A</name><length>2</length><values><value>1</value><value>2</value></values></parameter>", true, {1, 2}}, {"<parameter><name>A</name><length>4</length><values><value>0.5</value></values></parameter>", true, {0.5, 0.5, 0.5, 0.5}}, {"<parameter><name>A</name><length>2</length><values><value>1</value><value>2</value><value>3</value></values></parameter>", false, {}}, {"<parameter><name>A</name><length>4</length><values><value>1</value><value>2</value></values></parameter>", false, {}}, {"<parameter><name>A</name><length>2</length></parameter>", false, {}}, {"<parameter><name>A</name><length>0</length><values></values></parameter>", false, {}}, {"<parameter><name>A</name><length>2</length><values><value>1</value><value>x</value></values></parameter>", false, {}}, {"<parameter><length>2</length><values><value>1</value><value>2</value></values></parameter>", false, {}}, {"<parameter><name>A</name><length>1</length></parameter>", false, {}}, {"<parameter><name>A</name><length>2</length><values><value>1</value><value>2</value></values></parameter><parameter><name>A</name><length>2</length><values><value>1</value><value>3</value></values></parameter>", false, {}}};
        for (size_t k = 0; k < pv.size(); ++k) {
            if (!hx::begin(hx::cat("parameters-", k))) continue;
            auto cf = withParams(pv[k].xml); std::string bad; auto go = [&] { std::string b; auto s = parts(cf.second, {{1, 1, 1}}, true, b); Script q; q.value = [&](int, const At&, const Par&) { auto& A = pv[k].a; return 1 + A[0] + 0.5 * A.back() + 0.25 * A.size(); }; if (pv[k].ok) { bad = check(cf.first, q, base, s); } else s[0].sim->setInitialValue(s[0].init); };
            if (pv[k].ok) { try { go(); } catch (std::exception& e) { bad = std::string("refused: ") + e.what(); } } else bad = failing(go, pv[k].xml); if (!bad.empty()) hx::viol("init-parameters", bad); hx::count("executions"); hx::count("states"); hx::count("transitions");
        }
        if (hx::begin("missing-file")) { Cfg c = cfgs::mk(1, "burgers", "rusanov"); c.upper[1] = c.upper[2] = 0; auto bad = failing([&] { std::string b; auto s = parts(writeFile("cfg.xml", xmlOf(c, "no_such_script.py", base)), {{1, 1, 1}}, true, b); s[0].sim->setInitialValue(s[0].init); }, "a missing script"); if (!bad.empty()) hx::viol("init-missing", bad); hx::count("executions"); hx::count("states"); hx::count("transitions"); }
    }
    return hx::finish();
}
