// C26: every parallel loop run by teams of 1 to 4 (thorough: 8) members in every order of the members: no two members touch the same
// bytes with one of them writing and no synchronisation, and the results are those of one member.
#include "mcx.hpp"
#include "race.hpp"
#include "omprt.hpp"
#include "cfgs.hpp"
#include "rig.hpp"
#include "alsfvm/functional/FunctionalFactory.hpp"
#include "alsuq/stats/StatisticsFactory.hpp"
#include "alsuq/mpi/Configuration.hpp"
#include <mpi.h>
using namespace simx;
typedef std::vector<double> Vec;
struct TeamPlan { int size, order, dealing; };
static std::vector<TeamPlan> plans() {
    std::vector<TeamPlan> p; for (int o = 0; o < 2; ++o) p.push_back({2, o, 0}); for (int o = 0; o < 6; ++o) p.push_back({3, o, o % 4});
    for (int o = 0; o < 24; ++o) if (hx::thorough || o % 23 == 0) p.push_back({4, o, o % 4});
    if (hx::thorough) for (int s : {5, 6, 7, 8}) for (int o = 0, f = s == 5 ? 120 : s == 6 ? 720 : s == 7 ? 5040 : 40320; o < f; o += f / 12 + 1) p.push_back({s, o, o % 4});
    return p;
}
static std::string far(const std::vector<Vec>& a, const std::vector<Vec>& b) {
    if (a.size() != b.size()) return hx::cat(b.size(), " results instead of ", a.size());
    for (size_t r = 0; r < a.size(); ++r) { if (a[r].size() != b[r].size()) return hx::cat(b[r].size(), " numbers instead of ", a[r].size()); double scale = 1e-3; for (double x : a[r]) scale = std::max(scale, std::min(1e6, std::fabs(x)));
        for (size_t i = 0; i < a[r].size(); ++i) if (!(std::fabs(a[r][i] - b[r][i]) <= 1e-11 * scale) && !(std::isnan(a[r][i]) && std::isnan(b[r][i]))) return hx::cat("number ", i, " of part ", r, " is ", b[r][i], " instead of ", a[r][i]); }
    return "";
}
// body(rank) puts its results into out[rank]
static void go(const std::string& key, int ranks, const std::vector<TeamPlan>& ps, std::vector<Vec>& out, const std::function<void(int)>& body) {
    std::vector<Vec> want;
    for (int k = -2; k < int(ps.size()); ++k) {       // twice alone first: use of function-local statics
        if (k > 0 && hx::timeUp()) return;
        ompx::teamSize = k < 0 ? 1 : ps[k].size; ompx::order = k < 0 ? 0 : ps[k].order; ompx::dealing = k < 0 ? 0 : ps[k].dealing;
        out.assign(ranks, Vec()); auto e = mc::run(ranks, mc::Policy::all(false)[0], {}, body); ompx::teamSize = 1;
        if (k < 0) { want = out; if (!e.clean()) { hx::viol(key, "alone: " + e.what()); return; } continue; }
        const std::string how = hx::cat("team of ", ps[k].size, ", order ", ps[k].order, ", dealing ", ps[k].dealing, ": "); auto rep = race::reports();
        if (!rep.empty()) { hx::viol(key, how + "members of a team conflict: " + rep[0].where); return; }
        if (!e.clean()) { hx::viol(key, how + e.what()); return; }
        auto s = far(want, out); if (!s.empty()) { hx::viol(key, how + s); return; }
        hx::count("executions"); hx::count("states", long(e.steps) + 1);
    }
}

int main(int argc, char** argv) {
    hx::init(argc, argv); mc::quietLocksIn(nullptr, 0); hx::quietLog();
    using cfgs::mk; const auto ps = plans(); std::vector<Vec> out;
    // ---- element-wise operations of memory areas and volumes
    for (int n = 1; n <= (hx::thorough ? 40 : 19); ++n) for (int shape = 0; shape < 3; ++shape) {
        if (!hx::begin(hx::cat("memory-", n, "-", shape))) continue;
        if (hx::timeUp()) break;
        rig::I3 d = shape == 0 ? rig::I3{{n, 1, 1}} : shape == 1 ? rig::I3{{2, n, 1}} : rig::I3{{2, 2, n}};
        go("threads-memory", 1, ps, out, [&](int) {
            std::unique_ptr<mc::Quiet> q(new mc::Quiet); rig::Parts P("euler1", {{4, 1, 1}});
            auto make = [&](int s) { auto m = P.mf->createScalarMemory(d[0], d[1], d[2]); for (size_t i = 0; i < m->getSize(); ++i) m->getPointer()[i] = 0.7 + std::sin(0.37 * s + 1.3 * i) * 0.5; return m; };
            auto a = make(1), b = make(2), c = make(3), e = make(4), f = make(5); q.reset();
            auto keep = [&] { for (size_t i = 0; i < a->getSize(); ++i) out[0].push_back(a->getPointer()[i]); };
            *a += *b; keep(); *a *= *c; keep(); *a -= *e; keep(); *a /= *f; keep(); *a += 0.3; keep(); *a *= 1.5; keep(); *a -= 0.1; keep(); *a /= 0.7; keep();
            a->addLinearCombination(0.5, 0.25, *b, -0.75, *c, 1.25, *e, 0.125, *f); keep(); a->addPower(*b, 2); keep(); a->addPower(*b, 3, 0.4); keep(); a->subtractPower(*c, 2.5); keep();
            if (shape < 2) out[0].push_back(a->getTotalVariation(1, alsfvm::ivec3(0, 0, 0), alsfvm::ivec3(d[0], d[1], d[2]))); auto h = a->makeInstance(); h->copyFrom(*a); *a += *h; keep();
            a->copyFromHost(b->getPointer(), b->getSize()); keep(); a->makeZero(); keep();
        });
        hx::count("configurations");
    }
    for (int dim = 1; dim <= 3; ++dim) for (int ghost = 0; ghost <= 2; ++ghost) {
        if (!hx::begin(hx::cat("volume-", dim, "-", ghost))) continue;
        const std::string eq = hx::cat("euler", dim); const rig::I3 n{{5, dim > 1 ? 4 : 1, dim > 2 ? 3 : 1}};
        go("threads-volume", 1, ps, out, [&](int) {
            std::unique_ptr<mc::Quiet> q(new mc::Quiet); rig::Parts P(eq, n);
            auto make = [&](int s) { rig::Vol v = P.vol(ghost); v.eachAll([&](int i, int j, int k) { for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = 0.7 + 0.5 * std::sin(0.37 * s + 1.3 * i + 0.9 * j + 2.1 * k + a); }); return v; };
            auto a = make(1), b = make(2), c = make(3), e = make(4), f = make(5); q.reset();
            auto keep = [&] { a.eachAll([&](int i, int j, int k) { for (int v = 0; v < a.vars(); ++v) out[0].push_back(a.at(v, i, j, k)); }); };
            *a.v += *b.v; keep(); *a.v *= 1.25; keep(); a.v->addLinearCombination(0.5, 0.25, *b.v, -0.75, *c.v, 1.25, *e.v, 0.125, *f.v); keep(); a.v->addPower(*b.v, 2); keep(); a.v->addPower(*c.v, 3, 0.5); keep(); a.v->subtractPower(*b.v, 2); keep(); b.v->copyTo(*a.v); keep(); a.v->makeZero(); keep();
        });
        hx::count("configurations");
    }
    // ---- time steps
    struct Item { Cfg c; std::array<int, 3> p; int steps; };
    std::vector<Item> items;
    auto add = [&](Cfg c, std::array<int, 3> p, rig::I3 local, int steps) { int dim = c.dim(); for (int d = 0; d < dim; ++d) c.n[d] = std::max(1, p[d]) * local[d]; if (dim < 2) c.upper[1] = 0; if (dim < 3) c.upper[2] = 0; items.push_back({c, p, steps}); };
    const std::array<int, 3> one{{0, 1, 1}}, single{{1, 1, 1}};
    for (auto bc : {"periodic", "neumann"}) {
        const bool per = std::string(bc) == "periodic";
        for (int dim = 1; dim <= 3; ++dim) for (std::string eq : {"burgers", "cubic", "linear", "buckleyleverett", "euler"}) {
            if (eq == "euler") eq = cfgs::spatialDims(dim);
            const rig::I3 loc{{dim == 3 ? 6 : hx::thorough ? 13 : 7, dim == 3 ? 6 : hx::thorough ? 11 : 9, hx::thorough ? 9 : 6}};
            auto fl = cfgs::fluxesOf(eq); if (eq == "burgers") { fl.push_back("godunov4"); fl.push_back("godunov6"); }
            for (auto& f : fl) if (per || dim == 2 || hx::thorough) add(mk(dim, eq, f, "none", dim == 3 ? "forwardeuler" : "rungekutta2", bc), one, loc, 2 - (dim == 3));
            if (!per && dim != 2 && !hx::thorough) continue;
            std::vector<std::string> rs{"eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"}; if (eq.substr(0, 5) == "euler") rs.push_back("wenof2");
            if (eq == "cubic" || eq == "linear" || eq == "buckleyleverett") { if (dim != 2) rs = {"weno2"}; else rs = {"eno2", "weno2", "mc"}; }
            for (auto& r : rs) add(mk(dim, eq, eq.substr(0, 5) == "euler" ? "hll" : "rusanov", r, "forwardeuler", bc), one, loc, 1);
            if (eq == "burgers" || eq.substr(0, 5) == "euler") for (auto dn : {"tecnoroe", "tecnorusanov"}) for (auto dr : {"none", "eno2", "eno3"}) add(mk(dim, eq, "tecno1", "none", "forwardeuler", bc, dn, dr), one, loc, 1);
        }
        for (auto in : {"forwardeuler", "rungekutta3", "rungekutta4"}) add(mk(2, "euler2", "hll3", "mc", in, bc), one, {{5, 8, 1}}, 2);
        for (auto& r : {"none", "eno2", "weno2", "mc"}) { add(mk(1, "burgers", "rusanov", r, "rungekutta2", bc), single, {{7, 1, 1}}, 1); add(mk(2, "burgers", "godunov", r, "forwardeuler", bc), single, {{6, 9, 1}}, 1); add(mk(2, "euler2", "hll3", r, "forwardeuler", bc), {{1, 2, 1}}, {{6, 7, 1}}, 1); add(mk(3, "burgers", "rusanov", r, "forwardeuler", bc), single, {{6, 6, 7}}, 1); }
    }
    int id = 0;
    for (auto& it : items) {
        if (!hx::begin(hx::cat("step-", id++, "-", it.c.str(), "-procs", it.p[0], "x", it.p[1], "x", it.p[2]))) continue;
        if (hx::timeUp()) break;
        Cfg c = it.c; c.endTime = 1e6; const bool mpi = it.p[0] > 0; const int ranks = mpi ? it.p[0] * it.p[1] * it.p[2] : 1;
        const auto file = writeFile("cfg.xml", c.xml()); const auto init = cfgs::data(c);
        auto few = ps; if (!hx::thorough && c.dim() == 3) few = {ps[1], ps[6], ps.back()};
        go("threads-step", ranks, few, out, [&](int r) {
            std::unique_ptr<mc::Quiet> quiet(new mc::Quiet);
            auto s = mpi ? makeMpi(file, MPI_COMM_WORLD, it.p[0], it.p[1], it.p[2], std::make_shared<RecorderFactory>()) : make(file);
            auto each = std::make_shared<Recorder>(); s.sim->addWriter(each); alsfvm::shared_ptr<alsfvm::init::InitialData> d(new CellData(init));
            quiet.reset(); s.sim->setInitialValue(d); s.sim->callWriters();
            for (int k = 0; k < it.steps; ++k) s.sim->performStep();
            for (auto& sn : each->snaps) { out[r].push_back(sn.time); for (auto& v : sn.v) out[r].insert(out[r].end(), v.begin(), v.end()); }
        });
        hx::count("configurations"); hx::sample(hx::current());
    }
    // ---- functionals and statistics
    struct F { std::string name; std::map<std::string, std::string> p; };
    for (int dim = 1; dim <= 3; ++dim) {
        std::vector<F> fs{{"identity", {}}, {"moment", {{"degree", "2"}}}, {"structure_base", {{"p", "2"}, {"direction", hx::cat(dim - 1)}, {"numberOfH", "3"}}}, {"log_entropy", {{"gamma", "1.4"}}}};
        if (dim == 2) { fs.push_back({"legendre", {{"degree_k", "1"}, {"degree_n", "2"}, {"degree_m", "1"}, {"minValue", "-20"}, {"maxValue", "20"}}}); fs.push_back({"legendre_pointwise", {{"degree", "3"}, {"minValue", "-20"}, {"maxValue", "20"}}}); }
        if (dim < 3) fs.push_back({"bv", {{"degree", "1"}}}); fs.push_back({"structure_cube", {{"p", "2"}, {"numberOfH", "3"}}});
        std::vector<F> ss{{"meanvar", {}}, {"onepointmoment", {{"p", "3"}}}, {"bv_direction", {{"p", "1"}}}, {"structure_basic", {{"p", "2"}, {"direction", hx::cat(dim - 1)}, {"numberOfH", "3"}}}, {"structure_cube", {{"p", "2"}, {"numberOfH", "3"}}}, {"structure_2pt", {{"direction1", "0"}, {"direction2", hx::cat(dim - 1)}, {"numberOfH", "2"}}}};
        if (dim < 3) ss.push_back({"bv", {{"p", "2"}}});
        const rig::I3 n{{5, dim > 1 ? 6 : 1, dim > 2 ? 4 : 1}}; const std::string eq = hx::cat("euler", dim);
        auto value = [=](int s, int a, int i, int j, int k) { const int V = dim + 2; Vec w; for (int b = 0; b < V; ++b) w.push_back((b == 0 || b == V - 1 ? 1.5 : 0) + 0.6 * std::sin(0.9 * s + 1.1 * i + 0.7 * j + 1.9 * k + b)); return eulerConserved(w, 1.4)[a]; };
        for (auto& f : fs) {
            if (!hx::begin(hx::cat("functional-", dim, "-", f.name))) continue;
            if (hx::timeUp()) break;
            go("threads-functional", 1, ps, out, [&](int) {
                std::unique_ptr<mc::Quiet> q(new mc::Quiet); rig::Parts P(eq, n); alsfvm::functional::FunctionalFactory ff; auto fn = ff.makeFunctional("cpu", f.name, alsfvm::functional::Functional::Parameters(f.p)); auto in = P.vol(1);
                in.periodic([&](int a, int i, int j, int k) { return value(1, a, i, j, k); }); auto sz = fn->getFunctionalSize(*P.grid); auto g = fn->getGhostCellSizes(*P.grid, *in.v);
                rig::Vol o(P.vf->createConservedVolume(sz.x, sz.y, sz.z, g.x)); o.fill(0); q.reset();
                (*fn)(*o.v, *in.v, 0.75, *P.grid); (*fn)(*o.v, *in.v, 1.5, *P.grid); o.eachInner([&](int i, int j, int k) { for (int a = 0; a < o.vars(); ++a) out[0].push_back(o.at(a, i, j, k)); });
            });
            hx::count("configurations");
        }
        for (auto& f : ss) {
            if (!hx::begin(hx::cat("statistics-", dim, "-", f.name))) continue;
            if (hx::timeUp()) break;
            go("threads-statistics", 1, ps, out, [&](int r) {
                std::unique_ptr<mc::Quiet> q(new mc::Quiet); rig::Parts P(eq, n); boost::property_tree::ptree t; for (auto& x : f.p) t.put(x.first, x.second); alsuq::stats::StatisticsParameters sp(t); sp.setMpiConfiguration(alsfvm::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD, "cpu")); sp.setNumberOfSamples(3); sp.setPlatform("cpu");
                auto st = alsuq::stats::StatisticsFactory().makeStatistics("cpu", f.name, sp); std::vector<std::shared_ptr<Recorder>> rec; for (auto& nm : st->getStatisticsNames()) { auto w = std::make_shared<Recorder>(); rec.push_back(w); std::shared_ptr<alsfvm::io::Writer> ww = w; st->addWriter(nm, ww); }
                auto in = P.vol(1); std::vector<alsfvm::simulator::TimestepInformation> ti{alsfvm::simulator::TimestepInformation(0, 0), alsfvm::simulator::TimestepInformation(0.5, 1)}; q.reset();
                for (int s = 0; s < 3; ++s) { for (auto& tm : ti) { in.periodic([&](int a, int i, int j, int k) { return value(s, a, i, j, k); }); st->computeStatistics(*in.v, *P.grid, tm); } }
                st->combineStatistics(); st->finalizeStatistics(); st->writeStatistics(*P.grid);
                for (auto& w : rec) for (auto& sn : w->snaps) for (auto& v : sn.v) out[r].insert(out[r].end(), v.begin(), v.end());
            });
            hx::count("configurations");
        }
    }
    hx::count("transitions", race::accesses()); hx::count("ordered_pairs", race::sharedPairs()); hx::count("parallel_regions", ompx::regions()); hx::count("team_members", ompx::members());
    return hx::finish();
}
