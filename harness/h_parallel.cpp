// C01: decomposed runs against the single-process run, over configurations and schedules.
#include "mcx.hpp"
#include "cfgs.hpp"
#include <mpi.h>
#include <algorithm>
using namespace simx;
struct Out { Snapshots steps, saves; int finalized = 0; };
static Out runOne(const std::string& xml, const Init& init, int px, int py, int pz, int maxSteps) {
    std::unique_ptr<mc::Quiet> quiet(new mc::Quiet);
    auto wf = std::make_shared<RecorderFactory>();
    auto s = makeMpi(xml, MPI_COMM_WORLD, px, py, pz, wf);
    auto each = std::make_shared<Recorder>(); s.sim->addWriter(each);
    alsfvm::shared_ptr<alsfvm::init::InitialData> d(new CellData(init));
    s.sim->setInitialValue(d); s.sim->callWriters();
    quiet.reset();
    for (int k = 0; k < maxSteps && !s.sim->atEnd(); ++k) s.sim->performStep();
    quiet.reset(new mc::Quiet);
    s.sim->finalize();
    Out o; o.steps = each->snaps; if (auto r = wf->find("out")) { o.saves = r->snaps; o.finalized = r->finalized; }
    return o;
}
static std::string compare(const std::vector<Out>& parts, const Out& ref) {
    for (int which = 0; which < 2; ++which) {
        auto& want = which ? ref.saves : ref.steps;
        for (size_t r = 0; r < parts.size(); ++r) { auto& got = which ? parts[r].saves : parts[r].steps; if (got.size() != want.size()) return hx::cat("rank ", r, which ? " saves " : " takes ", got.size(), which ? " times" : " steps", " instead of ", want.size()); }
        for (size_t t = 0; t < want.size(); ++t) {
            std::vector<const Snapshot*> p; for (auto& o : parts) p.push_back(which ? &o.saves[t] : &o.steps[t]);
            Snapshot whole; auto bad = join(p, whole); if (!bad.empty()) return bad;
            if (relDiff(whole.time, want[t].time, 1e-300) > 1e-10) return hx::cat(which ? "save " : "step ", t, " is at time ", whole.time, " instead of ", want[t].time);
            if (whole.steps != want[t].steps) return hx::cat("step count differs at ", which ? "save " : "step ", t);
            double d = diff(whole, want[t]);
            if (!(d < 1e-9)) { for (size_t v = 0; v < whole.v.size(); ++v) for (size_t i = 0; i < whole.v[v].size(); ++i) if (!(relDiff(whole.v[v][i], want[t].v[v][i]) < 1e-9)) return hx::cat(which ? "save " : "step ", t, " variable ", v, " cell ", i, " is ", whole.v[v][i], " instead of ", want[t].v[v][i]); return "differs"; }
        }
    }
    for (auto& o : parts) if (o.finalized != ref.finalized) return "writers finished a different number of times";
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv);
    using cfgs::mk;
    struct Item { Cfg c; std::array<int, 3> p; int dev; std::array<int, 3> spike; int steps; double scale = 1; bool rest = false; };
    std::vector<Item> items;
    const std::array<int, 3> none{{-1, -1, -1}};
    auto add = [&](Cfg c, std::vector<std::array<int, 3>> procs, int local, int dev = 0, int steps = 3) {
        const int dim = c.n[2] > 1 ? 3 : c.n[1] > 1 ? 2 : 1;
        for (auto p : procs) { Cfg q = c; for (int d = 0; d < dim; ++d) q.n[d] = p[d] * (local + (d == 1) * 1); q.upper = {{1.0 * p[0], 1.3, 0.9}}; if (dim < 2) q.upper[1] = 0; if (dim < 3) q.upper[2] = 0; items.push_back({q, p, dev, none, steps}); }
    };
    typedef std::vector<std::array<int, 3>> V;
    const V one{{{2, 1, 1}}, {{3, 1, 1}}}, two{{{2, 1, 1}}, {{1, 2, 1}}, {{2, 2, 1}}}, three{{{1, 1, 2}}, {{2, 1, 2}}, {{2, 2, 2}}};
    const char* recs[] = {"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"};
    auto width = [](const std::string& r) { return r == "tecno6" ? 6 : 4; };
    // small configurations with scheduling departures first
    for (auto bc : {"periodic", "neumann"}) { add(mk(1, "burgers", "rusanov", "none", "forwardeuler", bc), V{{{2, 1, 1}}}, 2, hx::thorough ? 3 : 2, 1); add(mk(1, "burgers", "rusanov", "none", "forwardeuler", bc), V{{{2, 1, 1}}}, 2, hx::thorough ? 2 : 1, 2); add(mk(1, "burgers", "rusanov", "none", "rungekutta2", bc), V{{{2, 1, 1}}}, 3, hx::thorough ? 2 : 1, 2); }
    add(mk(2, "burgers", "rusanov", "none", "forwardeuler"), V{{{2, 1, 1}}, {{1, 2, 1}}}, 2, 1, 1);
    add(mk(1, "euler1", "hll3", "eno2", "rungekutta2"), V{{{2, 1, 1}}}, 3, 1, 1);
    add(mk(1, "euler1", "hll3", "none", "forwardeuler"), V{{{3, 1, 1}}}, 2, 1, 2);
    add(mk(1, "burgers", "rusanov", "none", "forwardeuler", "periodic", "tecnorusanov", "eno2"), V{{{2, 1, 1}}}, 3, 1, 1);
    for (auto bc : {"periodic", "neumann"}) {
        for (auto eq : {"burgers", "cubic", "linear", "buckleyleverett"}) for (auto& f : cfgs::fluxesOf(eq)) { add(mk(1, eq, f, "none", "forwardeuler", bc), V{{{2, 1, 1}}}, width(f)); if (std::string(bc) == "periodic") add(mk(2, eq, f, "none", "forwardeuler", bc), V{{{2, 2, 1}}}, width(f), 0, 2); }
        for (auto& r : recs) add(mk(1, "burgers", "rusanov", r, "rungekutta2", bc), one, width(r));
        for (auto i : {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) { add(mk(1, "burgers", "rusanov", "mc", i, bc), one, 3); add(mk(2, "euler2", "hll3", "none", i, bc), V{{{2, 2, 1}}}, 2, 0, 2); }
        for (auto& f : cfgs::fluxesOf("euler1")) { add(mk(1, "euler1", f, "none", "rungekutta2", bc), one, width(f)); add(mk(2, "euler2", f, "none", "forwardeuler", bc), two, width(f), 0, 2); add(mk(3, "euler3", f, "none", "forwardeuler", bc), hx::thorough ? three : V{{{1, 2, 2}}}, width(f), 0, 2); }
        for (auto& r : recs) { add(mk(2, "euler2", "hll3", r, "rungekutta2", bc), hx::thorough ? two : V{{{2, 2, 1}}}, 4, 0, 2); }
        for (auto eq : {"euler1", "euler2"}) add(mk(eq[5] - '0', eq, "hll3", "wenof2", "rungekutta2", bc), V{{{2, 1, 1}}}, 4, 0, 2);
        for (auto dn : {"tecnoroe", "tecnorusanov"}) for (auto dr : {"none", "eno2", "eno3", "eno4"}) {
            if (std::string(dn) == "tecnorusanov") add(mk(1, "burgers", "tecno1", "none", "rungekutta2", bc, dn, dr), V{{{2, 1, 1}}}, 4, 0, 2);
            add(mk(1, "euler1", "tecno4", "none", "rungekutta2", bc, dn, dr), V{{{2, 1, 1}}}, 5, 0, 2);
            add(mk(2, "euler2", "tecno1", "none", "forwardeuler", bc, dn, dr), V{{{2, 1, 1}}, {{1, 2, 1}}}, 5, 0, 2);
        }
    }
    add(mk(3, "euler3", "hll3", "eno2", "rungekutta2"), V{{{2, 1, 1}}, {{1, 2, 1}}, {{1, 1, 2}}}, 3, 0, 1);
    add(mk(3, "burgers", "rusanov", "mc", "rungekutta2", "neumann"), three, 3, 0, 2);
    // the fastest wave in each rank in turn
    for (int dim = 1; dim <= 3; ++dim) { const std::array<int, 3> p{{2, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; for (auto eq : {std::string("burgers"), std::string(cfgs::spatialDims(dim))}) {
        Cfg c = mk(dim, eq, eq == "burgers" ? "godunov" : "hll3"); for (int d = 0; d < dim; ++d) c.n[d] = 2 * p[d] + 2 * (d == 0);
        for (int z = 0; z < c.n[2]; z += 3 - (dim < 3) * 2) for (int y = 0; y < c.n[1]; y += 3) for (int x = 0; x < c.n[0]; x += dim == 1 ? 1 : 5) items.push_back({c, p, 0, {{x, y, z}}, 2}); } }
    // slow waves: many large steps, so that anything left in unused ghost cells has time to grow
    for (auto bc : {"periodic", "neumann"}) for (auto in : {"forwardeuler", "rungekutta2"}) { Cfg c = mk(2, "burgers", "rusanov", "none", in, bc); c.n = {{4, 4, 1}}; items.push_back({c, {{2, 2, 1}}, 0, none, 400, 0.02}); }
    // nothing moves except near one cell: processes at rest take part in every step all the same
    for (auto bc : {"periodic", "neumann"}) for (auto eq : {"burgers", "cubic", "buckleyleverett"}) for (auto& f : cfgs::fluxesOf(eq)) {
        if (f == "tecno1" || f == "tecno4" || f == "tecno6") continue;
        for (int x : {1, 5, 10}) { Cfg c = mk(1, eq, f, "none", "forwardeuler", bc); c.n = {{12, 1, 1}}; items.push_back({c, {{3, 1, 1}}, 0, {{x, 0, 0}}, 3, 1, true}); }
        for (int x : {1, 6}) for (int y : {1, 4}) { Cfg c = mk(2, eq, f, "none", "rungekutta2", bc); c.n = {{8, 6, 1}}; items.push_back({c, {{2, 2, 1}}, 0, {{x, y, 0}}, 2, 1, true}); } }
    int id = 0;
    for (auto& it : items) {
        Cfg c = it.c;
        const std::string name = hx::cat(id++, "-", c.str(), "-procs", it.p[0], "x", it.p[1], "x", it.p[2], it.spike[0] >= 0 ? hx::cat("-spike", it.spike[0], ".", it.spike[1], ".", it.spike[2]) : "", it.rest ? "-rest" : "");
        if (!hx::begin(name)) continue;
        if (hx::timeUp()) break;
        const auto init0 = cfgs::data(c, it.spike); const double scale = it.scale; const Init init = [=, &it](int v, int i, int j, int k) { if (it.rest) { int d = std::abs(i - it.spike[0]) + std::abs(j - it.spike[1]) + std::abs(k - it.spike[2]); return d == 0 ? 0.8 : d == 1 ? 0.3 : 0.0; } return scale * init0(v, i, j, k); };
        const std::string wr = "<writer><type>x</type><basename>out</basename><numberOfSaves>2</numberOfSaves><writeInitialTimestep>true</writeInitialTimestep></writer>";
        std::string file; Out ref;
        try {
            c.endTime = 1e6; file = writeFile("cfg.xml", c.xml());
            Out probe = runOne(file, init, 1, 1, 1, 1);
            const double dt = probe.steps.at(1).time;
            c.endTime = dt * (it.steps - 0.4); const int most = it.steps * 3 + 20; c.writer = wr; file = writeFile("cfg.xml", c.xml());
            ref = runOne(file, init, 1, 1, 1, most);
        } catch (std::exception& e) { hx::viol("reference-" + c.str(), hx::cat("the single-process run fails: ", e.what())); continue; }
        hx::count("configurations"); hx::sample(name);
        if (ref.steps.size() < 2) { hx::viol("reference", "no step taken"); continue; }
        for (auto& v : ref.steps.back().v) for (double x : v) if (!std::isfinite(x)) { hx::viol("reference", "invalid values in the single-process run"); break; }
        double moved = diff(ref.steps.front(), ref.steps.back()); if (moved > 1e-6) hx::count("configurations_that_move");
        if (getenv("HX_DEBUG")) { for (auto& x : ref.steps) printf("t=%.17g end=%.17g\n", x.time, c.endTime); }
        const int ranks = it.p[0] * it.p[1] * it.p[2];
        std::vector<Out> parts(ranks);
        auto pol = mc::Policy::all(hx::thorough); if (it.steps > 50) pol.resize(1);
        mcx::exploreCase(ranks, pol, it.dev, hx::thorough ? 300000 : 20000, [&] { for (auto& q : parts) q = Out(); },
            [&](int r) { parts[r] = runOne(file, init, it.p[0], it.p[1], it.p[2], it.steps * 3 + 20); },
            [&](const mc::Exec&) { return compare(parts, ref); }, "decomposed");
    }
    return hx::finish();
}
