// C14: operations on real volumes and memory areas against a model of plain arrays.
// Part "ops": explicit-state search over sequences of operations on three volumes (and views of parts of them); a state is
// the content of all cells, ghost cells included. Part "query": everything that reads, iterates, fills, interpolates or refuses.
#include "rig.hpp"
#include "alsfvm/volume/volume_foreach.hpp"
#include "alsfvm/equation/euler/Euler.hpp"
#include "alsfvm/equation/burgers/Burgers.hpp"
#include <unordered_set>
using namespace rig;
typedef std::vector<Vec> Arr;                              // [variable][cell]
struct World { std::shared_ptr<volume::Volume> A, B, C, part; };
static std::shared_ptr<memory::MemoryFactory> factory() { static auto dev = std::make_shared<DeviceConfiguration>("cpu"); static auto f = std::make_shared<memory::MemoryFactory>(dev); return f; }
static std::shared_ptr<volume::Volume> mk(I3 n, int g, int nv = 2, const char* prefix = "q") { std::vector<std::string> names; for (int i = 0; i < nv; ++i) names.push_back(prefix + std::to_string(i)); return std::make_shared<volume::Volume>(names, factory(), n[0], n[1], n[2], g); }
static Arr read(const volume::Volume& v) { Arr a; for (size_t k = 0; k < v.getNumberOfVariables(); ++k) { auto m = v.getScalarMemoryArea(k); Vec x(m->getSize()); for (size_t i = 0; i < x.size(); ++i) x[i] = m->getPointer()[i]; a.push_back(x); } return a; }
static void put(volume::Volume& v, const Arr& a) { for (size_t k = 0; k < a.size(); ++k) std::copy(a[k].begin(), a[k].end(), v.getScalarMemoryArea(k)->getPointer()); }
static Arr labels(const volume::Volume& v, int which) { Arr a = read(v); for (size_t k = 0; k < a.size(); ++k) for (size_t i = 0; i < a[k].size(); ++i) a[k][i] = 0.5 + 0.37 * which + 0.11 * k + 0.001 * ((i * 7 + which * 3) % 101) + 1e-6 * i; return a; }
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * (1 + std::max(std::fabs(a), std::fabs(b))) || (std::isnan(a) && std::isnan(b)); }
static std::string differ(const Arr& got, const Arr& want, const char* who) { for (size_t k = 0; k < want.size(); ++k) for (size_t i = 0; i < want[k].size(); ++i) if (!close(got[k][i], want[k][i])) return hx::cat(who, " variable ", k, " cell ", i, " is ", got[k][i], ", should be ", want[k][i]); return ""; }
static void hash(size_t& h, const Arr& a) { for (auto& x : a) h = hx::hash(x.data(), x.size() * sizeof(double), h); }
struct State { Arr a[3]; size_t key() const { size_t h = 1469598103934665603ull; for (auto& x : a) hash(h, x); return h; } };
struct Op { std::string name; std::function<void(World&)> real; std::function<void(State&)> model; };
template<class F> static void each(Arr& x, const Arr& y, F f) { for (size_t k = 0; k < x.size(); ++k) for (size_t i = 0; i < x[k].size(); ++i) x[k][i] = f(x[k][i], y[k][i]); }
static std::vector<Op> operations() {
    std::vector<Op> o; auto P = [](double x, double p) { return std::pow(x, p); };
    o.push_back({"A+=B", [](World& w) { *w.A += *w.B; }, [](State& s) { each(s.a[0], s.a[1], [](double x, double y) { return x + y; }); }});
    o.push_back({"B+=A", [](World& w) { *w.B += *w.A; }, [](State& s) { each(s.a[1], s.a[0], [](double x, double y) { return x + y; }); }});
    o.push_back({"A+=A", [](World& w) { *w.A += *w.A; }, [](State& s) { each(s.a[0], s.a[0], [](double x, double) { return x + x; }); }});
    o.push_back({"A*=-0.5", [](World& w) { *w.A *= -0.5; }, [](State& s) { each(s.a[0], s.a[0], [](double x, double) { return -0.5 * x; }); }});
    o.push_back({"B*=3", [](World& w) { *w.B *= 3; }, [](State& s) { each(s.a[1], s.a[1], [](double x, double) { return 3 * x; }); }});
    for (int p : {1, 2, 3}) o.push_back({"A.addPower(B," + std::to_string(p) + ")", [p](World& w) { w.A->addPower(*w.B, p); }, [p, P](State& s) { each(s.a[0], s.a[1], [&](double x, double y) { return x + P(y, p); }); }});
    o.push_back({"A.addPower(A,2)", [](World& w) { w.A->addPower(*w.A, 2); }, [P](State& s) { each(s.a[0], s.a[0], [&](double x, double y) { return x + P(y, 2); }); }});
    o.push_back({"A.addPower(B,2,0.25)", [](World& w) { w.A->addPower(*w.B, 2, 0.25); }, [P](State& s) { each(s.a[0], s.a[1], [&](double x, double y) { return x + 0.25 * P(y, 2); }); }});
    for (int p : {1, 2}) o.push_back({"A.subtractPower(B," + std::to_string(p) + ")", [p](World& w) { w.A->subtractPower(*w.B, p); }, [p, P](State& s) { each(s.a[0], s.a[1], [&](double x, double y) { return x - P(y, p); }); }});
    o.push_back({"A.addLinearCombination(0.5,2B,-1C,0.25B,3C)", [](World& w) { w.A->addLinearCombination(0.5, 2, *w.B, -1, *w.C, 0.25, *w.B, 3, *w.C); }, [](State& s) { Arr c = s.a[2]; Arr b = s.a[1]; for (size_t k = 0; k < b.size(); ++k) for (size_t i = 0; i < b[k].size(); ++i) s.a[0][k][i] = 0.5 * s.a[0][k][i] + 2 * b[k][i] - c[k][i] + 0.25 * b[k][i] + 3 * c[k][i]; }});
    o.push_back({"A.addLinearCombination(0,1A,2B,3A,-1C)", [](World& w) { w.A->addLinearCombination(0, 1, *w.A, 2, *w.B, 3, *w.A, -1, *w.C); }, [](State& s) { for (size_t k = 0; k < s.a[0].size(); ++k) for (size_t i = 0; i < s.a[0][k].size(); ++i) s.a[0][k][i] = 4 * s.a[0][k][i] + 2 * s.a[1][k][i] - s.a[2][k][i]; }});
    o.push_back({"C.makeZero", [](World& w) { w.C->makeZero(); }, [](State& s) { each(s.a[2], s.a[2], [](double, double) { return 0.0; }); }});
    o.push_back({"B.copyTo(C)", [](World& w) { w.B->copyTo(*w.C); }, [](State& s) { s.a[2] = s.a[1]; }});
    o.push_back({"A.setVolume(C)", [](World& w) { w.A->setVolume(*w.C); }, [](State& s) { s.a[0] = s.a[2]; }});
    o.push_back({"C+=A.makeInstance copy", [](World& w) { auto n = w.A->makeInstance(); w.A->copyTo(*n); *n *= 2; *w.C += *n; }, [](State& s) { each(s.a[2], s.a[0], [](double x, double y) { return x + 2 * y; }); }});
    o.push_back({"part(A,1)*=2", [](World& w) { *w.part *= 2; }, [](State& s) { for (auto& x : s.a[0][1]) x *= 2; }});
    o.push_back({"part(A,1).makeZero", [](World& w) { w.part->makeZero(); }, [](State& s) { for (auto& x : s.a[0][1]) x = 0; }});
    // single memory areas
    auto mem = [&](const std::string& n, std::function<void(memory::Memory<real>&, memory::Memory<real>&)> r, std::function<double(double, double)> m) {
        o.push_back({n + " of A0,B1", [r](World& w) { r(*w.A->getScalarMemoryArea(0), *w.B->getScalarMemoryArea(1)); }, [m](State& s) { for (size_t i = 0; i < s.a[0][0].size(); ++i) s.a[0][0][i] = m(s.a[0][0][i], s.a[1][1][i]); }}); };
    typedef memory::Memory<real> M;
    mem("+=", [](M& a, M& b) { a += b; }, [](double x, double y) { return x + y; }); mem("-=", [](M& a, M& b) { a -= b; }, [](double x, double y) { return x - y; });
    mem("*=", [](M& a, M& b) { a *= b; }, [](double x, double y) { return x * y; }); mem("/=", [](M& a, M& b) { a /= b; }, [](double x, double y) { return x / y; });
    mem("+=s", [](M& a, M&) { a += 1.5; }, [](double x, double) { return x + 1.5; }); mem("-=s", [](M& a, M&) { a -= 1.5; }, [](double x, double) { return x - 1.5; });
    mem("*=s", [](M& a, M&) { a *= 1.5; }, [](double x, double) { return x * 1.5; }); mem("/=s", [](M& a, M&) { a /= 1.5; }, [](double x, double) { return x / 1.5; });
    mem("copyFrom", [](M& a, M& b) { a.copyFrom(b); }, [](double, double y) { return y; });
    mem("copyToHost/copyFromHost", [](M& a, M& b) { std::vector<real> t(b.getSize()); b.copyToHost(t.data(), t.size()); a.copyFromHost(t.data(), t.size()); }, [](double, double y) { return y; });
    mem("makeInstance and copy", [](M& a, M& b) { auto n = b.makeInstance(); n->copyFrom(b); *n *= 2.0; a.copyFrom(*n); }, [](double, double y) { return 2 * y; });
    mem("getHostMemory", [](M& a, M&) { auto h = a.getHostMemory(); *h += 1.0; }, [](double x, double) { return x + 1; });
    mem("makeZero", [](M& a, M&) { a.makeZero(); }, [](double, double) { return 0.0; });
    mem("addPower", [](M& a, M& b) { a.addPower(b, 2); }, [P](double x, double y) { return x + P(y, 2); }); mem("addPower factor", [](M& a, M& b) { a.addPower(b, 3, -0.5); }, [P](double x, double y) { return x - 0.5 * P(y, 3); });
    mem("subtractPower", [](M& a, M& b) { a.subtractPower(b, 2); }, [P](double x, double y) { return x - P(y, 2); });
    mem("addLinearCombination", [](M& a, M& b) { a.addLinearCombination(2, 1, b, 0.5, a, -1, b, 0.25, b); }, [](double x, double y) { return 2.5 * x + 0.25 * y; });
    o.push_back({"copyFromHost of half of A0", [](World& w) { auto m = w.A->getScalarMemoryArea(0); size_t h = m->getSize() / 2; std::vector<real> t(h, 7.25); m->copyFromHost(t.data(), t.size()); }, [](State& s) { auto& x = s.a[0][0]; for (size_t i = 0; i < x.size() / 2; ++i) x[i] = 7.25; }});
    return o;
}
static bool finite(const State& s) { for (auto& a : s.a) for (auto& v : a) for (double x : v) if (!(std::fabs(x) < 1e60)) return false; return true; }
static void ops(const std::string& name, I3 n, int g, int depth) {
    if (!hx::begin(name)) return;
    World w; w.A = mk(n, g); w.B = mk(n, g); w.C = mk(n, g); w.part = std::make_shared<volume::Volume>(*w.A, std::vector<size_t>{1}, std::vector<std::string>{"p"});
    State s0; s0.a[0] = labels(*w.A, 0); s0.a[1] = labels(*w.B, 1); s0.a[2] = labels(*w.C, 2);
    static const auto O = operations(); std::vector<std::pair<State, std::string>> front{{s0, ""}}, next; std::unordered_set<size_t> seen{s0.key()}; hx::count("states");
    for (int d = 0; d < depth; ++d) { next.clear();
        for (auto& st : front) { if (hx::timeUp()) { hx::count("cap_states"); return; }
            for (auto& o : O) {
                put(*w.A, st.first.a[0]); put(*w.B, st.first.a[1]); put(*w.C, st.first.a[2]); State m = st.first; std::string bad;
                try { o.real(w); } catch (std::exception& e) { bad = std::string("refused: ") + e.what(); }
                o.model(m); hx::count("transitions");
                if (bad.empty()) { bad = differ(read(*w.A), m.a[0], "A"); if (bad.empty()) bad = differ(read(*w.B), m.a[1], "B"); if (bad.empty()) bad = differ(read(*w.C), m.a[2], "C"); }
                if (!bad.empty()) { hx::viol("operation " + o.name, hx::cat(n[0], "x", n[1], "x", n[2], " ghosts ", g, " after ", st.second, " ", o.name, ": ", bad)); return; }
                if (finite(m) && seen.insert(m.key()).second) { hx::count("states"); if (d + 1 < depth) next.push_back({m, st.second + " " + o.name}); }
            } }
        front.swap(next);
    }
    hx::count("executions"); hx::sample(hx::cat(name, ": ", seen.size(), " states"));
}
static std::string threw(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return ""; } return "accepted"; }
template<class S> static void structs(const std::string& eq, I3 n, int g, std::string& bad) {      // fill, transform, for_each on structs of equation eq
    Parts P(eq, n); Vol a = P.vol(g), b = P.vol(g); const int nv = a.vars(); a.fill(-3); b.fill(-5);
    auto f = [&](int v, double x, double y, double z) { if (P.dim < 2) y = 0; if (P.dim < 3) z = 0; return 1 + v + 2 * x + 3 * y * y - 0.5 * z * x; };
    auto mid = [&](int d, int i) { return d < P.dim ? (i + 0.5) / n[d] : 0.0; };
    volume::fill_volume<S>(*a.v, *P.grid, [&](real x, real y, real z, S& s) { real* p = (real*)&s; for (int v = 0; v < nv; ++v) p[v] = f(v, x, y, z); });
    a.eachAll([&](int i, int j, int k) { bool in = i >= 0 && j >= 0 && k >= 0 && i < n[0] && j < n[1] && k < n[2]; for (int v = 0; v < nv; ++v) { double want = in ? f(v, mid(0, i), mid(1, j), mid(2, k)) : -3; if (bad.empty() && !close(a.at(v, i, j, k), want)) bad = hx::cat("fill_volume: variable ", v, " cell (", i, ",", j, ",", k, ") is ", a.at(v, i, j, k), ", should be ", want); } });
    volume::fill_volume<S, S>(*b.v, *a.v, *P.grid, [&](real x, real y, real z, S& s, S& t) { real* p = (real*)&s; real* q = (real*)&t; for (int v = 0; v < nv; ++v) { p[v] = f(v, x, y, z); q[v] = -p[v]; } });
    a.eachInner([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) { double want = f(v, mid(0, i), mid(1, j), mid(2, k)); if (bad.empty() && (!close(a.at(v, i, j, k), -want) || !close(b.at(v, i, j, k), want))) bad = hx::cat("fill_volume of two volumes: variable ", v, " cell (", i, ",", j, ",", k, ") is ", b.at(v, i, j, k), " and ", a.at(v, i, j, k)); } });
    for (int v = 0; v < nv; ++v) a.eachAll([&](int i, int j, int k) { a.at(v, i, j, k) = v + 0.1 * i + 0.01 * j + 0.001 * k; });
    volume::transform_volume<S, S>(*a.v, *b.v, [&](const S& s) { S t; const real* p = (const real*)&s; real* q = (real*)&t; for (int v = 0; v < nv; ++v) q[v] = 2 * p[(v + 1) % nv] + 1; return t; });
    b.eachAll([&](int i, int j, int k) { for (int v = 0; v < nv; ++v) if (bad.empty() && !close(b.at(v, i, j, k), 2 * a.at((v + 1) % nv, i, j, k) + 1)) bad = hx::cat("transform_volume: variable ", v, " cell (", i, ",", j, ",", k, ")"); });
    std::vector<int> hits(a.v->getScalarMemoryArea(0)->getSize(), 0); volume::for_each_cell<S>(*a.v, [&](const S& s, size_t at) { hits[at]++; for (int v = 0; v < nv; ++v) if (((const real*)&s)[v] != a.p[v][at] && bad.empty()) bad = "for_each_cell hands over wrong values"; });
    for (int h : hits) if (h != 1 && bad.empty()) bad = "for_each_cell does not visit each cell once";
    std::fill(hits.begin(), hits.end(), 0); volume::for_each_cell<S, S>(*a.v, *b.v, [&](const S& s, const S& t, size_t at) { hits[at]++; for (int v = 0; v < nv; ++v) if ((((const real*)&s)[v] != a.p[v][at] || ((const real*)&t)[v] != b.p[v][at]) && bad.empty()) bad = "for_each_cell of two volumes hands over wrong values"; });
    for (int h : hits) if (h != 1 && bad.empty()) bad = "for_each_cell of two volumes does not visit each cell once";
    // wrong number of variables or cells is refused
    auto w = mk(n, g, nv + 1), s = mk({{n[0] + 1, n[1], n[2]}}, g, nv); auto id = [](const S& x) { return x; };
    if (bad.empty() && !threw([&] { volume::transform_volume<S, S>(*a.v, *w, id); }).empty()) bad = "transform_volume accepts an output with too many variables";
    if (bad.empty() && !threw([&] { volume::transform_volume<S, S>(*w, *a.v, id); }).empty()) bad = "transform_volume accepts an input with too many variables";
    if (bad.empty() && !threw([&] { volume::transform_volume<S, S>(*s, *a.v, id); }).empty()) bad = "transform_volume accepts volumes of different size";
    if (bad.empty() && !threw([&] { volume::fill_volume<S>(*w, *P.grid, [](real, real, real, S&) {}); }).empty()) bad = "fill_volume accepts too many variables";
    if (bad.empty() && !threw([&] { volume::for_each_cell<S>(*w, [](const S&, size_t) {}); }).empty()) bad = "for_each_cell accepts too many variables";
}
static void query(const std::string& name, I3 n, int g) {
    if (!hx::begin(name)) return;
    hx::count("executions"); hx::count("states"); std::string bad; const int dim = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; I3 G{{g, dim > 1 ? g : 0, dim > 2 ? g : 0}};
    if (n[1] > 1) G[1] = g; else G[1] = 0; if (n[2] > 1) G[2] = g; else G[2] = 0;
    auto V = mk(n, g); Vol v(V); put(*V, labels(*V, 0)); const I3 T{{n[0] + 2 * G[0], n[1] + 2 * G[1], n[2] + 2 * G[2]}};
    auto fail = [&](const std::string& s) { if (bad.empty()) bad = s; }; auto tick = [&] { hx::count("transitions"); };
    auto eq3 = [](ivec3 a, I3 b) { return a.x == b[0] && a.y == b[1] && a.z == b[2]; };
    // shapes and names
    if (!eq3(V->getInnerSize(), n) || !eq3(V->getSize(), T) || !eq3(V->getTotalDimensions(), T) || !eq3(V->getNumberOfGhostCells(), G) || int(V->getDimensions()) != dim || V->getNumberOfVariables() != 2) fail("sizes are wrong");
    if (V->getName(0) != "q0" || V->getName(1) != "q1" || V->getIndexFromName("q1") != 1 || !V->hasVariable("q0") || V->hasVariable("x")) fail("names are wrong"); if (!threw([&] { V->getIndexFromName("nix"); }).empty()) fail("an unknown variable name is accepted");
    if (V->getScalarMemoryArea("q1").get() != V->getScalarMemoryArea(1).get() || &(*V)["q0"] != (*V)[0].get()) fail("access by name and by index differ");
    for (size_t k = 0; k < 2; ++k) { auto m = V->getScalarMemoryArea(k); auto view = m->getView(); if (m->getSize() != size_t(T[0]) * T[1] * T[2] || int(m->getSizeX()) != T[0] || int(m->getSizeY()) != T[1] || int(m->getSizeZ()) != T[2] || view.size() != m->getSize()) fail("memory sizes are wrong");
        for (int z = 0; z < T[2]; ++z) for (int y = 0; y < T[1]; ++y) for (int x = 0; x < T[0]; ++x) if (&view.at(x, y, z) != &v.at(int(k), x - G[0], y - G[1], z - G[2]) || (*m)(x, y, z) != v.at(int(k), x - G[0], y - G[1], z - G[2]) || view.index(x, y, z) != size_t(x) + size_t(T[0]) * (y + size_t(T[1]) * z)) fail("views do not address (x, y, z)"); }
    tick();
    // copies of the interior
    for (size_t k = 0; k < 2; ++k) { size_t c = size_t(n[0]) * n[1] * n[2]; std::vector<real> out(c + 2, -99); V->copyInternalCells(k, out.data() + 1, c); size_t q = 1; v.eachInner([&](int i, int j, int l) { if (out[q++] != v.at(int(k), i, j, l)) fail("copyInternalCells"); }); if (out[0] != -99 || out[c + 1] != -99) fail("copyInternalCells writes outside"); tick(); }
    // total variation
    if (dim < 3) for (int p : {1, 2, 3}) for (int cut = 0; cut < 3; ++cut) {
        I3 lo{{G[0], G[1], 0}}, hi{{T[0] - G[0], T[1] - G[1], 1}}; if (cut == 1) { lo = {{0, 0, 0}}; hi = {{T[0], T[1], 1}}; } if (cut == 2) { lo[0]++; if (dim > 1) hi[1]--; }
        long double s = 0; for (int y = lo[1] + (dim > 1); y < hi[1]; ++y) for (int x = lo[0] + 1; x < hi[0]; ++x) { double c = v.at(0, x - G[0], y - G[1]), l = v.at(0, x - 1 - G[0], y - G[1]), b = dim > 1 ? v.at(0, x - G[0], y - 1 - G[1]) : c; s += std::pow(std::sqrt((c - l) * (c - l) + (c - b) * (c - b)), p); }
        double got = V->getScalarMemoryArea(0)->getTotalVariation(p, ivec3(lo[0], lo[1], lo[2]), ivec3(hi[0], hi[1], hi[2])); if (std::fabs(got - double(s)) > 1e-12 * (1 + std::fabs(double(s)))) fail(hx::cat("total variation with exponent ", p, " is ", got, ", should be ", double(s))); tick();
    }
    for (int d = 0; d < dim; ++d) for (int p : {1, 2, 3}) for (int cut = 0; cut < 2; ++cut) {
        I3 lo = G, hi{{T[0] - G[0], T[1] - G[1], T[2] - G[2]}}; if (cut) { lo = {{0, 0, 0}}; hi = T; } I3 e{{d == 0, d == 1, d == 2}};
        long double s = 0; for (int z = lo[2] + e[2]; z < hi[2]; ++z) for (int y = lo[1] + e[1]; y < hi[1]; ++y) for (int x = lo[0] + e[0]; x < hi[0]; ++x) s += std::pow(std::fabs(v.at(1, x - G[0], y - G[1], z - G[2]) - v.at(1, x - e[0] - G[0], y - e[1] - G[1], z - e[2] - G[2])), p);
        double got = V->getScalarMemoryArea(1)->getTotalVariation(d, p, ivec3(lo[0], lo[1], lo[2]), ivec3(hi[0], hi[1], hi[2])); if (std::fabs(got - double(s)) > 1e-12 * (1 + std::fabs(double(s)))) fail(hx::cat("total variation along direction ", d, " with exponent ", p, " is ", got, ", should be ", double(s))); tick();
    }
    for (int d = dim; d < 4; ++d) if (!threw([&] { V->getScalarMemoryArea(0)->getTotalVariation(d, 1, ivec3(0, 0, 0), ivec3(T[0], T[1], T[2])); }).empty()) fail(hx::cat("a total variation along direction ", d, " of a ", dim, "-dimensional volume is accepted"));
    // iteration
    auto idx = [&](int x, int y, int z) { return size_t(x) + size_t(T[0]) * (y + size_t(T[1]) * z); };
    auto compare = [&](const std::map<size_t, int>& hits, I3 lo, I3 hi, const char* what) { size_t want = 0; for (int z = lo[2]; z < hi[2]; ++z) for (int y = lo[1]; y < hi[1]; ++y) for (int x = lo[0]; x < hi[0]; ++x) { want++; auto it = hits.find(idx(x, y, z)); if (it == hits.end() || it->second != 1) fail(hx::cat(what, " does not visit (", x, ",", y, ",", z, ") once")); } if (hits.size() != want) fail(hx::cat(what, " visits ", hits.size(), " cells instead of ", want)); tick(); };
    for (int o = 0; o < 4; ++o) { ivec3 s(o & 1, dim > 1 ? o >> 1 : 0, dim > 2 ? o & 1 : 0), e(o >> 1, dim > 1 ? o & 1 : 0, dim > 2 ? o >> 1 : 0); if (s.x + e.x > T[0] || s.y + e.y > T[1] || s.z + e.z > T[2]) continue; std::map<size_t, int> h; volume::for_each_cell_index(*V, [&](size_t i) { h[i]++; }, s, e); compare(h, {{s.x, s.y, s.z}}, {{T[0] - e.x, T[1] - e.y, T[2] - e.z}}, "for_each_cell_index");
        for (int d = 0; d < dim; ++d) { ivec3 s2 = s, e2 = e; s2[d] = 1; e2[d] = 1; if (s2.x + e2.x > T[0] || s2.y + e2.y > T[1] || s2.z + e2.z > T[2]) continue; std::map<size_t, int> q; size_t step = d == 0 ? 1 : d == 1 ? T[0] : size_t(T[0]) * T[1]; volume::for_each_cell_index_with_neighbours(d, *V, [&](size_t l, size_t m, size_t r) { q[m]++; if (m - l != step || r - m != step) fail("neighbours are wrong"); }, s2, e2); compare(q, {{s2.x, s2.y, s2.z}}, {{T[0] - e2.x, T[1] - e2.y, T[2] - e2.z}}, "for_each_cell_index_with_neighbours"); } }
    { std::map<size_t, int> h; volume::for_each_internal_volume_index(*V, [&](size_t i) { h[i]++; }); compare(h, G, {{T[0] - G[0], T[1] - G[1], T[2] - G[2]}}, "for_each_internal_volume_index"); }
    for (int d = 0; d < dim; ++d) for (int l = 0; l <= g; ++l) { size_t step = d == 0 ? 1 : d == 1 ? T[0] : size_t(T[0]) * T[1]; I3 lo{{0, 0, 0}}, hi = T; lo[d] = l; hi[d] -= l; if (lo[d] > hi[d]) continue; std::map<size_t, int> h; auto f = [&](size_t a, size_t m, size_t b) { h[m]++; if (m - a != step || b - m != step) fail("neighbours of internal cells are wrong"); }; volume::for_each_internal_volume_index(*V, size_t(d), f, size_t(l)); compare(h, lo, hi, "for_each_internal_volume_index along a direction"); if (l == g) { h.clear(); volume::for_each_internal_volume_index(*V, size_t(d), f); compare(h, lo, hi, "for_each_internal_volume_index with the default layer"); } }
    if (!threw([&] { volume::for_each_internal_volume_index(*V, size_t(3), [](size_t, size_t, size_t) {}, size_t(0)); }).empty()) fail("direction 3 is accepted");
    { alsfvm::grid::Grid gr(rvec3(1, 2, 3), rvec3(2, dim > 1 ? 5 : 2, dim > 2 ? 4 : 3), ivec3(n[0], n[1], n[2])); std::map<size_t, int> h;
      volume::for_each_midpoint(*V, gr, [&](real x, real y, real z, size_t at, size_t i, size_t j, size_t k) { h[at]++; if (at != idx(int(i) + G[0], int(j) + G[1], int(k) + G[2])) fail("for_each_midpoint: index and position differ"); double wx = 1 + (i + 0.5) / n[0], wy = 2 + (dim > 1 ? 3 * (j + 0.5) / n[1] : 0), wz = 3 + (dim > 2 ? (k + 0.5) / n[2] : 0); if (!close(x, wx) || (dim > 1 && !close(y, wy)) || (dim > 2 && !close(z, wz))) fail(hx::cat("for_each_midpoint: midpoint of (", i, ",", j, ",", k, ") is (", x, ",", y, ",", z, ")")); });
      compare(h, G, {{T[0] - G[0], T[1] - G[1], T[2] - G[2]}}, "for_each_midpoint"); }
    if (bad.empty()) structs<equation::burgers::ConservedVariables>("burgers", n, g, bad);
    if (bad.empty() && dim == 1) structs<equation::euler::ConservedVariables<1>>("euler1", n, g, bad); if (bad.empty() && dim == 2) structs<equation::euler::ConservedVariables<2>>("euler2", n, g, bad); if (bad.empty() && dim == 3) structs<equation::euler::ConservedVariables<3>>("euler3", n, g, bad);
    tick();
    // instances, parts
    { auto a = V->makeInstance(); if (a->getName(1) != "q1" || !(a->getTotalDimensions() == V->getTotalDimensions()) || !(a->getNumberOfGhostCells() == V->getNumberOfGhostCells()) || a->getScalarMemoryArea(0).get() == V->getScalarMemoryArea(0).get()) fail("makeInstance");
      auto b = V->makeInstance(2, 1, 1); if (b->getTotalNumberOfXCells() != 2 || b->getNumberOfVariables() != 2) fail("makeInstance of another size"); auto c = V->getCopyOnCPU(); if (!differ(read(*c), read(*V), "").empty()) fail("getCopyOnCPU");
      volume::Volume p(*V, {1, 0}, {"a", "b"}); if (p.getScalarMemoryArea(0).get() != V->getScalarMemoryArea(1).get() || p.getScalarMemoryArea(1).get() != V->getScalarMemoryArea(0).get() || p.getName(0) != "a" || !eq3(p.getTotalDimensions(), T) || !eq3(p.getNumberOfGhostCells(), G)) fail("a volume made of components of another"); }
    // volumes of the same interior and other ghost widths, and of twice the resolution
    for (int g2 = 0; g2 <= 3; ++g2) { auto W = mk(n, g2); Vol w(W); put(*W, labels(*W, 1)); auto D = mk(n, g); put(*D, labels(*D, 2)); Vol d(D); D->setVolume(*W); d.eachInner([&](int i, int j, int k) { for (int a = 0; a < 2; ++a) if (d.at(a, i, j, k) != w.at(a, i, j, k)) fail(hx::cat("setVolume from ghost width ", g2, ": variable ", a, " cell (", i, ",", j, ",", k, ")")); });
        if (!differ(read(*W), labels(*W, 1), "").empty()) fail("setVolume changes its argument"); tick();
        I3 n2{{2 * n[0], dim > 1 ? 2 * n[1] : 1, dim > 2 ? 2 * n[2] : 1}}; if (dim == 3 || (dim == 2) || dim == 1) { auto F = mk(n2, g2); Vol f(F); put(*F, labels(*F, 3)); put(*D, labels(*D, 2)); auto before = read(*D); D->setVolume(*F);
            d.eachAll([&](int i, int j, int k) { bool in = i >= 0 && j >= 0 && k >= 0 && i < n[0] && j < n[1] && k < n[2]; for (int a = 0; a < 2; ++a) { double want; if (in) { long double s = 0; int c = 0; for (int z = 0; z <= (dim > 2); ++z) for (int y = 0; y <= (dim > 1); ++y) for (int x = 0; x < 2; ++x) { s += f.at(a, 2 * i + x, dim > 1 ? 2 * j + y : 0, dim > 2 ? 2 * k + z : 0); c++; } want = double(s / c); } else want = before[a][idx(i + G[0], j + G[1], k + G[2])]; if (!close(d.at(a, i, j, k), want)) fail(hx::cat("interpolation from ghost width ", g2, ": variable ", a, " cell (", i, ",", j, ",", k, ") is ", d.at(a, i, j, k), ", should be ", want)); } }); tick(); } }
    // operands that do not fit are refused and leave the target as it was
    std::vector<std::pair<std::string, std::shared_ptr<volume::Volume>>> other;
    other.push_back({"one cell more in x", mk({{n[0] + 1, n[1], n[2]}}, g)}); if (n[0] > 1) other.push_back({"one cell less in x", mk({{n[0] - 1, n[1], n[2]}}, g)});
    if (n[0] != n[1] && dim == 2) other.push_back({"transposed", mk({{n[1], n[0], 1}}, g)}); if (dim > 1) other.push_back({"one cell more in y", mk({{n[0], n[1] + 1, n[2]}}, g)}); if (dim == 3) other.push_back({"one cell more in z", mk({{n[0], n[1], n[2] + 1}}, g)}); if (dim == 2) other.push_back({"a third dimension", mk({{n[0], n[1], 2}}, g)}); if (dim == 1) other.push_back({"a second dimension", mk({{n[0], 2, 1}}, g)});
    other.push_back({"other ghost width", mk(n, g + 1)}); other.push_back({"three variables", mk(n, g, 3)}); other.push_back({"one variable", mk(n, g, 1)});
    for (auto& o : other) { put(*o.second, labels(*o.second, 1)); auto before = read(*V); auto& W = *o.second; auto same = mk(n, g);
        auto must = [&](const char* what, const std::function<void()>& f) { tick(); if (!threw(f).empty()) fail(hx::cat(what, " accepts an operand with ", o.first)); else if (!differ(read(*V), before, "").empty()) fail(hx::cat(what, " refuses an operand with ", o.first, " but changes the target")); if (!bad.empty()) put(*V, before); };
        must("+=", [&] { *V += W; }); must("addPower", [&] { V->addPower(W, 2); }); must("addPower with a factor", [&] { V->addPower(W, 2, 0.5); }); must("subtractPower", [&] { V->subtractPower(W, 2); });
        for (int q = 0; q < 4; ++q) { volume::Volume* a[4] = {same.get(), same.get(), same.get(), same.get()}; a[q] = &W; must("addLinearCombination", [&] { V->addLinearCombination(1, 1, *a[0], 1, *a[1], 1, *a[2], 1, *a[3]); }); }
        must("copyTo", [&] { W.copyTo(*V); });
        if (o.first != "other ghost width" && !(n[0] == 1 && false)) { auto w = W.getInnerSize(); bool twice = w.x == 2 * n[0] && w.y == (dim > 1 ? 2 : 1) * n[1] && w.z == (dim > 2 ? 2 : 1) * n[2] && W.getNumberOfVariables() == 2; if (!twice) must("setVolume", [&] { V->setVolume(W); }); }
        auto m = V->getScalarMemoryArea(0); auto x = W.getScalarMemoryArea(0); if (x->getSize() != m->getSize()) { must("memory +=", [&] { *m += *x; }); must("memory -=", [&] { *m -= *x; }); must("memory *=", [&] { *m *= *x; }); must("memory /=", [&] { *m /= *x; }); must("memory copyFrom", [&] { m->copyFrom(*x); }); must("memory addPower", [&] { m->addPower(*x, 2); }); must("memory addPower with a factor", [&] { m->addPower(*x, 2, 2); }); must("memory subtractPower", [&] { m->subtractPower(*x, 2); }); must("memory addLinearCombination", [&] { m->addLinearCombination(1, 1, *m, 1, *m, 1, *x, 1, *m); }); }
    }
    if (!bad.empty()) hx::viol("query " + bad.substr(0, bad.find_first_of("(:0123456789")), hx::cat(n[0], "x", n[1], "x", n[2], " ghosts ", g, ": ", bad));
}
int main(int argc, char** argv) {
    hx::init(argc, argv);
    for (int nz = 1; nz <= 3; ++nz) for (int ny = 1; ny <= 4; ++ny) for (int nx = 1; nx <= 4; ++nx) { if (nz > 1 && ny == 1) continue; for (int g = 0; g <= 3; ++g) query(hx::cat("query ", nx, "x", ny, "x", nz, " g", g), {{nx, ny, nz}}, g); }
    struct S { I3 n; int g; }; std::vector<S> deep{{{{3, 1, 1}}, 0}, {{{2, 1, 1}}, 1}, {{{2, 2, 1}}, 1}, {{{2, 2, 2}}, 1}, {{{3, 2, 2}}, 0}};
    for (int nz = 1; nz <= 2; ++nz) for (int ny = 1; ny <= 3; ++ny) for (int nx = 1; nx <= 4; ++nx) { if (nz > 1 && ny == 1) continue; for (int g = 0; g <= 3; ++g) ops(hx::cat("ops ", nx, "x", ny, "x", nz, " g", g), {{nx, ny, nz}}, g, hx::thorough ? 3 : 2); }
    for (auto& d : deep) ops(hx::cat("deep ", d.n[0], "x", d.n[1], "x", d.n[2], " g", d.g), d.n, d.g, hx::thorough ? 4 : 3);
    return hx::finish();
}
