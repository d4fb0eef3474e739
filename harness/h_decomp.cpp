// C03: decompositions tile the grid.  Every global size x process grid up to the bound.
#include "mcx.hpp"
#include "alsfvm/mpi/domain/CartesianDecomposition.hpp"
#include "alsfvm/mpi/CellExchanger.hpp"
#include <mpi.h>
#include <array>
#include <cmath>
using namespace alsfvm;
typedef std::array<int, 3> I3;
struct Piece { bool thrown = false; I3 n, pos, global; double origin[3], top[3], len[3]; std::array<int, 6> bc; std::array<int, 6> nb; std::vector<rvec3> mid; size_t active = 0; };
int main(int argc, char** argv) {
    hx::init(argc, argv);
    const int maxP = hx::thorough ? 8 : 6, maxN = hx::thorough ? 9 : 6;
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)); };
    for (int dim = 1; dim <= 3; ++dim) for (int pz = 1; pz <= (dim > 2 ? maxP : 1); ++pz) for (int py = 1; py <= (dim > 1 ? maxP : 1); ++py) for (int px = 1; px <= maxP; ++px) {
        if (px * py * pz > maxP) continue;
        for (int bcs = 0; bcs < 3; ++bcs) {
            if (!hx::begin(hx::cat("decomp-", dim, "d-", px, "x", py, "x", pz, "-bc", bcs))) continue;
            const I3 p{{px, py, pz}}; const int ranks = px * py * pz;
            const int ny1 = dim > 1 ? 2 : 1, ny2 = dim > 1 ? maxN : 1, nz1 = dim > 2 ? 2 : 1, nz2 = dim > 2 ? maxN : 1;
            const int nx2 = dim == 1 ? 2 * maxN : maxN;
            // all sizes of this process grid in one execution: one decomposition per size, no communication needed
            std::vector<I3> sizes; for (int nz = nz1; nz <= nz2; ++nz) for (int ny = ny1; ny <= ny2; ++ny) for (int nx = 1; nx <= nx2; ++nx) sizes.push_back(I3{{nx, ny, nz}});
            const double lo[3] = {-1.25, 0.5, 3}, ext[3] = {1.5, 4, 0.75};
            std::array<boundary::Type, 6> bc; for (int s = 0; s < 6; ++s) bc[s] = bcs == 0 ? boundary::PERIODIC : bcs == 1 ? boundary::NEUMANN : (s / 2 == 1 ? boundary::PERIODIC : boundary::NEUMANN);
            for (auto& n : sizes) {
                std::vector<Piece> pc(ranks);
                rvec3 a(0, 0, 0), b(0, 0, 0); for (int d = 0; d < dim; ++d) { a[d] = lo[d]; b[d] = lo[d] + ext[d]; }
                auto body = [&](int r) {
                    auto conf = std::make_shared<alsfvm::mpi::Configuration>(MPI_COMM_WORLD, "cpu");
                    grid::Grid g(a, b, ivec3(n[0], n[1], n[2]), bc);
                    alsfvm::mpi::domain::CartesianDecomposition dec(px, py, pz);
                    Piece& q = pc[r];
                    try {
                        auto i = dec.decompose(conf, g); auto l = i->getGrid();
                        for (int d = 0; d < 3; ++d) { q.n[d] = l->getDimensions()[d]; q.pos[d] = l->getGlobalPosition()[d]; q.global[d] = l->getGlobalSize()[d]; q.origin[d] = l->getOrigin()[d]; q.top[d] = l->getTop()[d]; q.len[d] = l->getCellLengths()[d]; }
                        for (int s = 0; s < 6; ++s) { q.bc[s] = int(l->getBoundaryCondition(s)); q.nb[s] = i->getCellExchanger()->getNeighbours()[s]; }
                        q.mid = l->getCellMidpoints(); q.active = l->getActiveDimension();
                    } catch (std::exception&) { q.thrown = true; }
                };
                auto verify = [&](const mc::Exec&) -> std::string {
                    bool divides = true; for (int d = 0; d < 3; ++d) divides &= n[d] % p[d] == 0 && (d == 0 || n[d] == 1 || n[d] > p[d]);
                    const std::string sz = hx::cat("grid ", n[0], "x", n[1], "x", n[2], ": ");
                    for (int r = 0; r < ranks; ++r) if (pc[r].thrown == divides) return sz + hx::cat("rank ", r, divides ? " refuses a grid that divides evenly" : " accepts a grid that does not divide evenly (or leaves one cell per process in y or z)");
                    if (!divides) return "";
                    std::vector<int> owner(n[0] * n[1] * n[2], -1);
                    grid::Grid g(a, b, ivec3(n[0], n[1], n[2]), bc);
                    for (int r = 0; r < ranks; ++r) { auto& q = pc[r];
                        if (q.active != size_t(dim)) return sz + hx::cat("rank ", r, " has dimension ", q.active);
                        for (int d = 0; d < 3; ++d) {
                            if (q.n[d] != n[d] / p[d]) return sz + hx::cat("rank ", r, " has ", q.n[d], " cells in direction ", d);
                            if (q.global[d] != n[d]) return sz + hx::cat("rank ", r, " thinks the global size is ", q.global[d], " in direction ", d);
                            if (q.pos[d] < 0 || q.pos[d] + q.n[d] > n[d]) return sz + hx::cat("rank ", r, " lies outside the grid in direction ", d);
                            if (d < dim) {
                                const double h = ext[d] / n[d];
                                if (!near(q.len[d], h)) return sz + hx::cat("rank ", r, " has cell length ", q.len[d], " in direction ", d, " instead of ", h);
                                if (!near(q.origin[d], lo[d] + h * q.pos[d])) return sz + hx::cat("rank ", r, " has origin ", q.origin[d], " in direction ", d);
                                if (!near(q.top[d], lo[d] + h * (q.pos[d] + q.n[d]))) return sz + hx::cat("rank ", r, " has top ", q.top[d], " in direction ", d);
                            } else if (!near(q.len[d], g.getCellLengths()[d])) return sz + hx::cat("rank ", r, " has cell length ", q.len[d], " in unused direction ", d);
                        }
                        if (q.mid.size() != size_t(q.n[0]) * q.n[1] * q.n[2]) return sz + hx::cat("rank ", r, " has ", q.mid.size(), " cell midpoints");
                        for (int k = 0; k < q.n[2]; ++k) for (int j = 0; j < q.n[1]; ++j) for (int i = 0; i < q.n[0]; ++i) {
                            const I3 x{{i + q.pos[0], j + q.pos[1], k + q.pos[2]}}; int& o = owner[x[0] + n[0] * (x[1] + n[1] * x[2])];
                            if (o != -1) return sz + hx::cat("cell owned by ranks ", o, " and ", r); o = r;
                            const rvec3 m = q.mid[i + q.n[0] * (j + q.n[1] * k)], w = g.getCellMidpoints()[x[0] + n[0] * (x[1] + n[1] * x[2])];
                            for (int d = 0; d < dim; ++d) { if (!near(m[d], lo[d] + ext[d] / n[d] * (x[d] + 0.5))) return sz + hx::cat("rank ", r, " cell midpoint ", m[d], " in direction ", d, " of cell ", x[d]); if (!near(w[d], lo[d] + ext[d] / n[d] * (x[d] + 0.5))) return sz + hx::cat("undivided grid: cell midpoint ", w[d], " in direction ", d); }
                        }
                    }
                    for (int o : owner) if (o < 0) return sz + "a cell belongs to no rank";
                    for (int r = 0; r < ranks; ++r) { auto& q = pc[r];
                        for (int s = 0; s < 2 * dim; ++s) { const int d = s / 2; const bool hi = s % 2;
                            const bool edge = hi ? q.pos[d] + q.n[d] == n[d] : q.pos[d] == 0;
                            const bool talk = !edge || (bc[s] == boundary::PERIODIC && p[d] > 1);
                            if (!talk) { if (q.nb[s] != -1) return sz + hx::cat("rank ", r, " side ", s, " has neighbour ", q.nb[s], " beyond the domain"); if (q.bc[s] != bc[s]) return sz + hx::cat("rank ", r, " side ", s, " has the wrong boundary condition"); }
                            else {
                                if (q.bc[s] != boundary::MPI_BC) return sz + hx::cat("rank ", r, " side ", s, " applies a boundary condition inside the domain");
                                I3 x = q.pos; x[d] = hi ? (q.pos[d] + q.n[d]) % n[d] : (q.pos[d] + n[d] - 1) % n[d];
                                const int want = owner[x[0] + n[0] * (x[1] + n[1] * x[2])];
                                if (q.nb[s] != want) return sz + hx::cat("rank ", r, " side ", s, " has neighbour ", q.nb[s], " instead of ", want);
                            } } }
                    return "";
                };
                hx::count("grids");
                std::vector<mc::Policy> pol(1);
                if (!mcx::exploreCase(ranks, pol, 0, 10, [&] { for (auto& q : pc) q = Piece(); }, body, verify, "decomposition")) break;
                hx::count("evaluations"); if (ranks > 1) hx::count("nontrivial");
                if (ranks > 2) hx::sample(hx::cat("grid ", n[0], "x", n[1], "x", n[2], " over ", px, "x", py, "x", pz));
            }
        }
    }
    return hx::finish();
}
