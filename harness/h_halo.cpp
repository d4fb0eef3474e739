// C02: halo exchange on every process grid, ghost width and message schedule.
#include "mcx.hpp"
#include "alsfvm/mpi/domain/CartesianDecomposition.hpp"
#include "alsfvm/mpi/CellExchanger.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
#include "alsfvm/volume/VolumeFactory.hpp"
#include "alsfvm/volume/Volume.hpp"
#include "alsfvm/memory/MemoryFactory.hpp"
#include <mpi.h>
#include <array>
#include <cmath>
using namespace alsfvm;
typedef std::array<int, 3> I3;
static const double GHOST = -7e5;
struct Case { int dim; I3 procs, local; int ghost; std::string eq; bool periodic; bool twoVolumes; };
static double ident(const Case& c, int round, int var, I3 g) { return 1 + g[0] + 50.0 * g[1] + 2500.0 * g[2] + 125000.0 * var + 1e6 * round; (void)c; }

static std::string rankBody(const Case& c, int rank) {
    auto conf = std::make_shared<alsfvm::mpi::Configuration>(MPI_COMM_WORLD, "cpu");
    I3 n; rvec3 top(0, 0, 0); for (int d = 0; d < 3; ++d) n[d] = c.procs[d] * c.local[d];
    for (int d = 0; d < c.dim; ++d) top[d] = 1.0 + d;
    auto g = grid::Grid(rvec3(0, 0, 0), top, ivec3(n[0], n[1], n[2]), c.periodic ? boundary::allPeriodic() : boundary::allNeumann());
    alsfvm::mpi::domain::CartesianDecomposition dec(c.procs[0], c.procs[1], c.procs[2]);
    auto info = dec.decompose(conf, g); auto lg = info->getGrid(); auto ex = info->getCellExchanger();
    auto dev = alsfvm::make_shared<DeviceConfiguration>("cpu"); auto mf = alsfvm::make_shared<memory::MemoryFactory>(dev);
    volume::VolumeFactory vf(c.eq, mf);
    auto va = vf.createConservedVolume(c.local[0], c.local[1], c.local[2], c.ghost), vb = vf.createConservedVolume(c.local[0], c.local[1], c.local[2], c.ghost);
    auto bc = boundary::BoundaryFactory(c.periodic ? "periodic" : "neumann", dev).createBoundary(c.ghost);
    I3 pos{{rank % c.procs[0], rank / c.procs[0] % c.procs[1], rank / (c.procs[0] * c.procs[1])}}, off, gh{{0, 0, 0}}, tot;
    for (int d = 0; d < 3; ++d) { off[d] = pos[d] * c.local[d]; if (d < c.dim) gh[d] = c.ghost; tot[d] = c.local[d] + 2 * gh[d]; }
    for (int round = 0; round < 2; ++round) {
        auto& in = *va; auto& out = c.twoVolumes ? *vb : *va;
        const int nv = int(in.getNumberOfVariables());
        auto at = [&](volume::Volume& v, int var, int i, int j, int k) -> real& { return v.getScalarMemoryArea(var)->getPointer()[i + size_t(tot[0]) * (j + size_t(tot[1]) * k)]; };
        auto each = [&](auto f) { for (int var = 0; var < nv; ++var) for (int k = 0; k < tot[2]; ++k) for (int j = 0; j < tot[1]; ++j) for (int i = 0; i < tot[0]; ++i) {
            I3 x{{i - gh[0], j - gh[1], k - gh[2]}}; int outside = 0, dir = -1; for (int d = 0; d < 3; ++d) if (x[d] < 0 || x[d] >= c.local[d]) { outside++; dir = d; }
            f(var, i, j, k, x, outside, dir); } };
        for (auto* v : {va.get(), vb.get()})
            each([&](int var, int i, int j, int k, I3 x, int outside, int) { at(*v, var, i, j, k) = outside ? GHOST : ident(c, round, var, I3{{off[0] + x[0], off[1] + x[1], off[2] + x[2]}}); });
        bc->applyBoundaryConditions(out, *lg);
        ex->exchangeCells(out, in).waitForAll();
        std::string bad;
        each([&](int var, int i, int j, int k, I3 x, int outside, int dir) {
            if (outside > 1 || !bad.empty()) return;
            I3 s{{off[0] + x[0], off[1] + x[1], off[2] + x[2]}};
            if (outside) { if (c.periodic) s[dir] = (s[dir] + n[dir]) % n[dir]; else if (s[dir] < 0) s[dir] = -1 - s[dir]; else if (s[dir] >= n[dir]) s[dir] = 2 * n[dir] - 1 - s[dir]; }
            const double want = ident(c, round, var, s), got = at(out, var, i, j, k);
            if (!(got == want)) bad = hx::cat("round ", round, " rank ", rank, " variable ", var, " local cell (", x[0], ",", x[1], ",", x[2], ")", outside ? " (ghost)" : " (interior)", " is ", got, " instead of ", want);
        });
        if (!bad.empty()) return bad;
        const double loc = 3.0 + ((rank * 7 + round * 3) % 5), m = ex->max(loc); double want = 0;
        for (int r = 0; r < c.procs[0] * c.procs[1] * c.procs[2]; ++r) want = std::max(want, 3.0 + ((r * 7 + round * 3) % 5));
        if (m != want) return hx::cat("global maximum on rank ", rank, " is ", m, " instead of ", want);
        const double neg = ex->max(-5.0 - rank); if (neg != -5.0) return hx::cat("global maximum of negative values on rank ", rank, " is ", neg);
    }
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv);
    const int maxRanks = hx::thorough ? 12 : 8;
    std::vector<Case> cases;
    for (int dim = 1; dim <= 3; ++dim) for (int pz = 1; pz <= (dim > 2 ? maxRanks : 1); ++pz) for (int py = 1; py <= (dim > 1 ? maxRanks : 1); ++py) for (int px = 1; px <= maxRanks; ++px) {
        if (px * py * pz > maxRanks || (!hx::thorough && px * py * pz > 6 && px != 8 && !(px == 2 && py == 2 && pz == 2))) continue;
        for (int g = 1; g <= (dim == 3 && !hx::thorough ? 3 : 4); ++g) for (int per = 0; per < 2; ++per) {
            I3 l{{g, dim > 1 ? g + 1 : 1, dim > 2 ? g + 2 : 1}};   // at least two in y and z: one cell marks an unused direction
            const char* eqs[] = {"euler1", "euler2", "euler3"};
            for (int s = 0; s < 2; ++s) {
                if (s == 1) { l = I3{{g + 2, dim > 1 ? std::max(2, g) : 1, dim > 2 ? g + 1 : 1}}; }
                cases.push_back({dim, I3{{px, py, pz}}, l, g, s ? "burgers" : eqs[dim - 1], per == 1, s == 1});
            }
        }
    }
    for (auto& c : cases) {
        const int ranks = c.procs[0] * c.procs[1] * c.procs[2];
        const std::string name = hx::cat("halo-", c.dim, "d-procs", c.procs[0], "x", c.procs[1], "x", c.procs[2], "-local", c.local[0], "x", c.local[1], "x", c.local[2], "-ghost", c.ghost, "-", c.eq, c.periodic ? "-periodic" : "-neumann", c.twoVolumes ? "-two" : "-one");
        if (!hx::begin(name)) continue;
        if (hx::timeUp()) break;
        std::vector<std::string> bad(ranks);
        // deviations: all schedules one step away from each policy's default for the small shapes
        int dev = 0; if (c.ghost == 1 && c.eq == "burgers" && ranks <= 3) dev = c.dim == 1 ? 2 : 1; if (c.ghost == 1 && ranks <= 4 && hx::thorough) dev = 2;
        if (c.ghost == 2 && ranks == 2 && c.eq == "euler2") dev = 1;
        if (dev == 2 && ranks > 2 && !hx::thorough) dev = 1;
        hx::count("configurations"); hx::sample(name);
        if (dev) hx::count("configurations_with_deviations");
        mcx::exploreCase(ranks, mc::Policy::all(hx::thorough || dev == 0), dev, hx::thorough ? 200000 : 20000, [&] { for (auto& b : bad) b.clear(); },
            [&](int r) { bad[r] = rankBody(c, r); },
            [&](const mc::Exec&) { for (auto& b : bad) if (!b.empty()) return b; return std::string(); }, "halo");
    }
    return hx::finish();
}
