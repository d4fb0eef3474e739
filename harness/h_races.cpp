// C16: shared services used from several threads of one process: access-by-access happens-before check of
// real decomposed time steps (halo exchange thread), of the timing statistics, the file cache and the HDF5
// writer on every explored schedule; time totals compared with those of a sequential order.
#include "mcx.hpp"
#include "race.hpp"
#include "cfgs.hpp"
#include "rig.hpp"
#include "alsutils/timer/Timer.hpp"
#include "alsutils/io/TextFileCache.hpp"
#include "alsutils/log.hpp"
#include "alsfvm/io/HDF5Writer.hpp"
#include <hdf5.h>
#include <mpi.h>
#include <dlfcn.h>
#include <fstream>
#include <thread>
#include <time.h>
using namespace simx;

// Managed threads see a clock that advances by one microsecond at every look, thread by thread: durations do not
// depend on the schedule.
extern "C" int clock_gettime(clockid_t id, timespec* ts) {
    static auto real = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    if (!mc::managed()) return real(id, ts);
    static thread_local long ticks = 0; ++ticks; ts->tv_sec = 1000000 + ticks / 1000000; ts->tv_nsec = ticks % 1000000 * 1000; return 0;
}
// The HDF5 library keeps state of its own and is not thread safe: every call counts as a write to it.
static double h5state;
#define H5(name, ret, decl, args) extern "C" ret name decl { static auto real = (ret (*) decl)dlsym(RTLD_NEXT, #name); if (mc_acc) mc_acc(&h5state, 8, 1); mc::point(); mc::Quiet quiet; return real args; }
H5(H5Fcreate, hid_t, (const char* n, unsigned f, hid_t a, hid_t b), (n, f, a, b))
H5(H5Fclose, herr_t, (hid_t a), (a))
H5(H5Gcreate2, hid_t, (hid_t o, const char* n, hid_t a, hid_t b, hid_t c), (o, n, a, b, c))
H5(H5Gclose, herr_t, (hid_t a), (a))
H5(H5Screate_simple, hid_t, (int n, const hsize_t* a, const hsize_t* b), (n, a, b))
H5(H5Screate, hid_t, (H5S_class_t n), (n))
H5(H5Sclose, herr_t, (hid_t a), (a))
H5(H5Dcreate2, hid_t, (hid_t o, const char* n, hid_t t, hid_t s, hid_t a, hid_t b, hid_t c), (o, n, t, s, a, b, c))
H5(H5Dwrite, herr_t, (hid_t d, hid_t t, hid_t a, hid_t b, hid_t c, const void* p), (d, t, a, b, c, p))
H5(H5Dclose, herr_t, (hid_t a), (a))
H5(H5Acreate2, hid_t, (hid_t o, const char* n, hid_t t, hid_t s, hid_t a, hid_t b), (o, n, t, s, a, b))
H5(H5Awrite, herr_t, (hid_t d, hid_t t, const void* p), (d, t, p))
H5(H5Aclose, herr_t, (hid_t a), (a))
H5(H5Tcopy, hid_t, (hid_t a), (a))
H5(H5Tset_size, herr_t, (hid_t a, size_t n), (a, n))
H5(H5Tclose, herr_t, (hid_t a), (a))
H5(H5Pcreate, hid_t, (hid_t a), (a))
H5(H5Pclose, herr_t, (hid_t a), (a))

typedef std::map<std::string, double> Totals;
static void flat(const boost::property_tree::ptree& t, const std::string& path, Totals& out) {
    for (auto& c : t) { const std::string p = path + "/" + c.first; if (c.first == "totalTime") out[p] = t.get<double>("totalTime"); else flat(c.second, p, out); }
}
static Totals totals() { race::Off off; Totals t; flat(alsutils::timer::TimerDatabase::getInstance().getTimesAsPropertyTree(), "", t); return t; }
static Totals minus(const Totals& a, const Totals& b) { Totals r; for (auto& x : a) { auto it = b.find(x.first); double d = x.second - (it == b.end() ? 0 : it->second); if (std::abs(d) > 2e-7) r[x.first] = d; } return r; }
static std::string show(const Totals& a, const Totals& b) { std::string s; for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || std::abs(it->second - x.second) > 2e-7) s += hx::cat(" ", x.first, " is ", x.second * 1e6, " ticks instead of ", it == b.end() ? 0 : it->second * 1e6); } for (auto& x : b) if (!a.count(x.first)) s += " " + x.first + " is missing"; return s; }

// Explores one case; the increments of all time totals must be those of the first execution.
static void go(const std::string& key, int ranks, const std::vector<mc::Policy>& pol, int dev, long maxExec, const std::function<void(int)>& body, const std::function<std::string()>& verify = nullptr, bool times = true, const Totals* want = nullptr) {
    mc::run(ranks, pol[0], {}, body);      // first use of function-local statics
    Totals ref, before; bool have = false;
    if (want) { ref = *want; have = true; }
    mcx::exploreCase(ranks, pol, dev, maxExec, [&] { if (times) before = totals(); }, body, [&](const mc::Exec&) -> std::string {
        auto r = race::reports(); if (!r.empty()) return "data race: " + r[0].where;
        if (times) { auto t = minus(totals(), before); if (!have) { ref = t; have = true; } else { auto s = show(t, ref); if (!s.empty()) return "time totals depend on the schedule:" + s; } }
        return verify ? verify() : "";
    }, key);
}
static void startThreads(const std::vector<std::function<void()>>& f) { std::vector<std::thread> t; for (auto& g : f) t.emplace_back(g); for (auto& x : t) x.join(); }

int main(int argc, char** argv) {
    hx::init(argc, argv); mc::quietLocksIn(nullptr, 0);
    hx::quietLog();
    using cfgs::mk;
    auto pols = mc::Policy::all(hx::thorough);
    const int D = hx::thorough ? 3 : 2;
    // ---- real time steps
    struct Item { Cfg c; std::array<int, 3> p; int dev, steps; };
    std::vector<Item> items;
    auto add = [&](Cfg c, std::array<int, 3> p, int local, int dev, int steps) { int dim = c.dim(); for (int d = 0; d < dim; ++d) c.n[d] = p[d] * (local + (d == 1)); if (dim < 2) c.upper[1] = 0; if (dim < 3) c.upper[2] = 0; items.push_back({c, p, dev, steps}); };
    for (auto bc : {"periodic", "neumann"}) {
        for (int n = 1; n <= 2; ++n) add(mk(1, "burgers", "rusanov", "none", "forwardeuler", bc), {{n, 1, 1}}, 4, hx::thorough ? 4 - n : 2 - (n - 1), 1);
        add(mk(1, "burgers", "godunov", "mc", "rungekutta2", bc), {{2, 1, 1}}, 4, hx::thorough, 1);
        add(mk(1, "euler1", "hll3", "eno2", "rungekutta2", bc), {{1, 1, 1}}, 8, 1, 2);
        add(mk(2, "burgers", "rusanov", "none", "forwardeuler", bc), {{1, 1, 1}}, 5, 1, 1);
        for (auto in : {"forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"}) for (auto& re : {"none", "eno2", "eno3", "eno4", "weno2", "weno3", "mc", "mm"}) { add(mk(1, "burgers", "rusanov", re, in, bc), {{2, 1, 1}}, 5, 0, 3); add(mk(2, "euler2", "hll3", re, in, bc), {{2, 1, 1}}, 5, 0, 2); }
        for (auto& f : cfgs::fluxesOf("euler1")) { add(mk(2, "euler2", f, "none", "rungekutta2", bc), {{2, 2, 1}}, 4 + 2 * (f == "tecno6"), 0, 1); add(mk(3, "euler3", f, "none", "forwardeuler", bc), {{1, 2, 1}}, 4 + 2 * (f == "tecno6"), 0, 1); }
        for (auto eq : {"burgers", "cubic", "linear", "buckleyleverett"}) for (auto& f : cfgs::fluxesOf(eq)) add(mk(1, eq, f, "none", "rungekutta2", bc), {{1, 1, 1}}, 8, 0, 2);
        for (auto dn : {"tecnoroe", "tecnorusanov"}) { add(mk(1, "euler1", "tecno4", "none", "rungekutta2", bc, dn, "eno2"), {{2, 1, 1}}, 5, 0, 2); add(mk(2, "euler2", "tecno1", "none", "forwardeuler", bc, dn, "eno3"), {{1, 2, 1}}, 5, 0, 1); }
        add(mk(3, "euler3", "hll3", "weno2", "rungekutta3", bc), {{2, 1, 1}}, 4, 0, 1);
        for (auto& re : {"none", "eno2", "eno3", "weno2", "weno3", "mc", "mm"}) { add(mk(2, "burgers", "godunov", re, "forwardeuler", bc), {{1, 2, 1}}, 6, 0, 1); add(mk(3, "burgers", "rusanov", re, "forwardeuler", bc), {{1, 1, 2}}, 6, 0, 1); }
        add(mk(2, "euler2", "hll", "wenof2", "forwardeuler", bc), {{1, 2, 1}}, 5, 0, 1);
    }
    int id = 0;
    for (auto& it : items) {
        if (!hx::begin(hx::cat("step-", id++, "-", it.c.str(), "-procs", it.p[0], "x", it.p[1], "x", it.p[2]))) continue;
        if (hx::timeUp()) break;
        Cfg c = it.c; c.endTime = 1e6; const auto file = writeFile("cfg.xml", c.xml()); const auto init = cfgs::data(c); const int ranks = it.p[0] * it.p[1] * it.p[2];
        std::vector<size_t> done(ranks);
        go("race-step", ranks, pols, it.dev, hx::thorough ? 200000 : 1000, [&](int r) {
            std::unique_ptr<mc::Quiet> quiet(new mc::Quiet);
            auto s = makeMpi(file, MPI_COMM_WORLD, it.p[0], it.p[1], it.p[2], std::make_shared<RecorderFactory>());
            auto each = std::make_shared<Recorder>(); s.sim->addWriter(each);
            alsfvm::shared_ptr<alsfvm::init::InitialData> d(new CellData(init)); s.sim->setInitialValue(d); s.sim->callWriters();
            quiet.reset();
            for (int k = 0; k < it.steps; ++k) s.sim->performStep();
            done[r] = each->snaps.size();
        }, [&] { for (auto n : done) if (n != size_t(it.steps) + 1) return std::string("a step is missing"); return std::string(); });
        hx::count("configurations"); hx::sample(hx::current());
    }
    // ---- timers by themselves: names known and new, nested, read while others run
    for (int nt = 2; nt <= 3; ++nt) for (int shape = 0; shape < 6; ++shape) {
        if (!hx::begin(hx::cat("timers-", nt, "-", shape))) continue;
        if (hx::timeUp()) break;
        long serial = 0; Totals seen;
        auto block = [&](int t) {
            switch (shape) {
            case 0: { ALSVINN_TIME_BLOCK(h, same); } { ALSVINN_TIME_BLOCK(h, same); } break;
            case 1: { ALSVINN_TIME_BLOCK(h, outer); { ALSVINN_TIME_BLOCK(h, outer, inner); } } break;
            case 2: { alsutils::timer::Timer x("h", "own" + std::to_string(t)); } break;
            case 3: { alsutils::timer::Timer x("h", hx::cat("new", serial, "-", t)); } break;
            case 4: if (t) { ALSVINN_TIME_BLOCK(h, reader); } else { mc::point(); mc::Quiet q; auto p = alsutils::timer::TimerDatabase::getInstance().getTimesAsPropertyTree(); (void)p; } break;
            case 5: if (t) { alsutils::timer::Timer x("h", hx::cat("neu", serial)); } else { mc::point(); mc::Quiet q; auto p = alsutils::timer::TimerDatabase::getInstance().getTimesAsPropertyTree(); (void)p; } break;
            }
        };
        // what each block adds by the clock above: from entry to exit, one look per timer started in between plus its own end
        Totals want; auto pl = [&](const std::string& n, double v) { want["/allTimedEvents/h/" + n + "/totalTime"] = v * 1e-6; };
        if (shape == 0) pl("same", 2 * nt); if (shape == 1) { pl("outer", 3 * nt); pl("outer/inner", nt); } if (shape == 2) for (int t = 0; t < nt; ++t) pl("own" + std::to_string(t), 1); if (shape == 4) pl("reader", nt - 1);
        double sum = 0; for (auto& w : want) if (w.first.find("inner") == std::string::npos) sum += w.second;
        want["/allTimedEvents/h/totalTime"] = sum; want["/allTimedEvents/totalTime"] = sum;
        const bool fixed = shape != 3 && shape != 5;
        go("race-timers", 1, fixed ? pols : std::vector<mc::Policy>(pols.begin(), pols.begin() + 1), fixed ? D - (nt == 3 && !hx::thorough) : 1, fixed ? hx::thorough ? 100000 : 1500 : hx::thorough ? 3000 : 400, [&](int) { ++serial; std::vector<std::function<void()>> f; for (int t = 0; t < nt; ++t) f.push_back([&, t] { block(t); }); startThreads(f); }, nullptr, fixed, fixed ? &want : nullptr);
    }
    // ---- the cache of text files
    for (int nt = 2; nt <= 3; ++nt) for (int shape = 0; shape < 4; ++shape) {
        if (!hx::begin(hx::cat("cache-", nt, "-", shape))) continue;
        if (hx::timeUp()) break;
        long serial = 0; std::string bad;
        const std::string base = hx::scratch() + "/t" + std::to_string(nt) + std::to_string(shape) + "_";
        auto name = [&](int t) { return base + std::to_string(serial) + (shape == 0 || shape == 3 ? "" : "_" + std::to_string(t)) + ".txt"; };
        go("race-cache", 1, pols, hx::thorough ? 2 : 1, hx::thorough ? 100000 : 2000, [&](int) {
            { mc::Quiet q; race::Off off; ++serial; for (int t = 0; t < nt; ++t) { std::ofstream(name(t)) << "content of " << name(t); } }
            std::vector<std::function<void()>> f;
            for (int t = 0; t < nt; ++t) f.push_back([&, t] {
                auto& c = alsutils::io::TextFileCache::getInstance(); mc::point();
                for (int k = 0; k < 2; ++k) { auto s = c.loadTextFile(name(t)); race::Off off; if (s != "content of " + name(t)) bad = "file content is '" + s + "'"; }
                if (shape >= 2) { mc::point(); auto l = c.getAllLoadedFiles(); race::Off off; bool in = false; for (auto& x : l) in |= x == name(t); if (!in) bad = "a loaded file is not listed"; } });
            startThreads(f);
            { mc::Quiet q; race::Off off; for (int t = 0; t < nt; ++t) std::remove(name(t).c_str()); }
        }, [&] { return bad; }, false);
    }
    // ---- writers of the library that is not thread safe
    for (int nt = 2; nt <= 3; ++nt) for (int dim = 1; dim <= 3; ++dim) {
        if (!hx::begin(hx::cat("hdf5-", nt, "-", dim))) continue;
        if (hx::timeUp()) break;
        Cfg c = mk(dim, dim == 1 ? "euler1" : "burgers", dim == 1 ? "hll" : "rusanov"); c.n = {{3, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1}}; rig::Parts parts(c.equation, c.n, 1);
        go("race-hdf5", 1, std::vector<mc::Policy>(pols.begin(), pols.begin() + 3), 1, hx::thorough ? 20000 : 600, [&](int) {
            std::vector<std::function<void()>> f; std::vector<std::shared_ptr<alsfvm::io::HDF5Writer>> w; std::vector<alsfvm::shared_ptr<alsfvm::volume::Volume>> v;
            { mc::Quiet q; for (int t = 0; t < nt; ++t) { w.emplace_back(new alsfvm::io::HDF5Writer(hx::scratch() + "/h5_" + std::to_string(t))); v.push_back(parts.vf->createConservedVolume(c.n[0], c.n[1], c.n[2], 1)); v.back()->makeZero(); } }
            for (int t = 0; t < nt; ++t) f.push_back([&, t] { w[t]->write(*v[t], *parts.grid, alsfvm::simulator::TimestepInformation()); });
            startThreads(f);
            { mc::Quiet q; race::Off off; for (int t = 0; t < nt; ++t) std::remove((hx::scratch() + "/h5_" + std::to_string(t) + "_0.h5").c_str()); }
        }, nullptr, false);
    }
    // ---- logging
    for (int nt = 2; nt <= 3; ++nt) {
        if (!hx::begin(hx::cat("log-", nt))) continue;
        go("race-log", 1, pols, 1, hx::thorough ? 20000 : 500, [&](int) { std::vector<std::function<void()>> f; for (int t = 0; t < nt; ++t) f.push_back([t] { ALSVINN_LOG(INFO, "message of thread " << t); }); startThreads(f); }, nullptr, false);
    }
    hx::count("accesses", race::accesses()); hx::count("ordered_pairs", race::sharedPairs());
    return hx::finish();
}
