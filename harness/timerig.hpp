// Runs of real simulators whose sequence of time steps is proposed by the harness.
#pragma once
#include "rig.hpp"
#include "alsfvm/integrator/TimestepAdjuster.hpp"
#include <mpi.h>
namespace rig {
// letters of a proposed step, relative to the time still missing to the next time of interest
struct Letter { const char* name; double gapFactor, absolute; };      // step = gap * gapFactor, or absolute * endTime
inline const std::vector<Letter>& stepLetters() { static const std::vector<Letter> l{{"small", 0, 0.037}, {"hit", 1, 0}, {"just-before", 1 - 0x1p-53, 0}, {"short", 1 - 1e-9, 0}, {"third", 1 / 3., 0}, {"beyond", 1.5, 0}, {"huge", 0, 10}, {"mid", 0, 0.21}}; return l; }
struct Propose : integrator::TimestepAdjuster {
    std::vector<int> word; std::vector<double> targets; double endTime; mutable size_t at = 0; mutable double lastDt = 0; mutable std::string bad;
    real adjustTimestep(real d, const simulator::TimestepInformation& t) const override {
        const double now = t.getCurrentTime(); if (!(d > 0) && bad.empty()) bad = hx::cat("time step ", d, " at time ", now);
        double gap = 1e300; for (double x : targets) if (x > now) gap = std::min(gap, x - now);
        auto& l = stepLetters()[word[at++ % word.size()]]; double p = l.gapFactor > 0 ? (gap < 1e299 ? gap * l.gapFactor : endTime) : l.absolute * endTime; p = std::max(p, 1e-4 * endTime);
        lastDt = std::min<double>(d, p); return lastDt;
    }
};
struct TimedRun {
    std::shared_ptr<simx::RecorderFactory> wf = std::make_shared<simx::RecorderFactory>(); std::shared_ptr<simx::Recorder> each = std::make_shared<simx::Recorder>(); std::shared_ptr<Propose> prop = std::make_shared<Propose>(); std::string bad; bool threw = false; double finalTime = 0; long steps = 0;
    TimedRun(const simx::Cfg& c, const simx::Init& init, const std::vector<int>& word, const std::vector<double>& targets, long maxSteps = 4000) {
        prop->word = word; prop->targets = targets; prop->endTime = c.endTime;
        try {
            auto sm = simx::makeMpi(simx::writeFile("cfg.xml", c.xml()), MPI_COMM_WORLD, 1, 1, 1, wf); sm.sim->addWriter(each); std::shared_ptr<integrator::TimestepAdjuster> a = prop; sm.sim->addTimestepAdjuster(a);
            alsfvm::shared_ptr<init::InitialData> d(new simx::CellData(init)); sm.sim->setInitialValue(d); sm.sim->callWriters();
            while (!sm.sim->atEnd() && bad.empty()) { if (++steps > maxSteps) bad = "the run does not reach its end time"; sm.sim->performStep(); if (!prop->bad.empty()) bad = prop->bad; }
            sm.sim->finalize(); finalTime = sm.sim->getCurrentTime();
        } catch (std::exception& e) { threw = true; bad = std::string("error: ") + e.what(); }
        for (size_t i = 1; i < each->snaps.size() && bad.empty(); ++i) if (!(each->snaps[i].time > each->snaps[i - 1].time)) bad = hx::cat("time does not increase after ", each->snaps[i - 1].time);
    }
};
}
