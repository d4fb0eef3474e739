// C12: every grid shape, ghost width and combination of physical and neighbour-process sides; the cells carry unique
// labels, so one application decides the copy for every possible content.
#include "rig.hpp"
#include "alsfvm/boundary/BoundaryFactory.hpp"
using namespace rig;
int main(int argc, char** argv) {
    hx::init(argc, argv); const int most = hx::thorough ? 10 : 7;
    for (std::string type : {"periodic", "neumann"}) for (int dim = 1; dim <= 3; ++dim) for (std::string eq : {std::string("burgers"), "euler" + std::to_string(dim)}) for (int g = 1; g <= (hx::thorough ? 6 : 5); ++g)
    for (int nx = 2; nx <= (dim == 3 ? most - 1 : most + 3); ++nx) {
        const std::string name = hx::cat(type, "-", eq, "-dim", dim, "-ghost", g, "-nx", nx); if (!hx::begin(name)) continue; if (hx::timeUp()) break; bool shown = false;
        for (int ny = dim > 1 ? 2 : 1; ny <= (dim > 1 ? most : 1); ++ny) for (int nz = dim > 2 ? 2 : 1; nz <= (dim > 2 ? most - 1 : 1) && !shown; ++nz) for (int mpi = 0; mpi < (1 << (2 * dim)); ++mpi) {
            // a neighbour process on a side of a periodic direction implies one on the other side too
            std::array<boundary::Type, 6> bt; bt.fill(type == "periodic" ? boundary::PERIODIC : boundary::NEUMANN); bool skip = false;
            for (int s = 0; s < 2 * dim; ++s) if (mpi >> s & 1) bt[s] = boundary::MPI_BC;
            if (type == "periodic") for (int d = 0; d < dim; ++d) skip |= (mpi >> (2 * d) & 1) != (mpi >> (2 * d + 1) & 1);
            if (skip) continue; if (dim == 3 && eq != "burgers" && !hx::thorough && (mpi & 21) != (mpi >> 1 & 21)) continue;
            hx::count("evaluations"); hx::count("nontrivial"); const I3 n{{nx, ny, nz}}; Parts P(eq, n, 1.4, {{1, 1, 1}}, bt); Vol v = P.vol(g); std::string bad;
            auto label = [&](int a, int i, int j, int k) { return 1.0 + (i + g) + 64.0 * ((j + g) + 64.0 * ((k + g) + 64.0 * a)); };
            v.eachAll([&](int i, int j, int k) { for (int a = 0; a < v.vars(); ++a) v.at(a, i, j, k) = label(a, i, j, k); });
            boundary::BoundaryFactory f(type, P.dev); auto b = f.createBoundary(g); bool narrow = nx < g || (dim > 1 && ny < g) || (dim > 2 && nz < g), threw = false;
            try { b->applyBoundaryConditions(*v.v, *P.grid); } catch (std::exception&) { threw = true; }
            if (threw != narrow) bad = narrow ? "a grid narrower than the ghost layer is accepted" : "a valid grid is refused";
            if (narrow) hx::count("refused");
            auto src = [&](int x, int m) { return x >= 0 && x < m ? x : type == "periodic" ? wrap(x, m) : x < 0 ? -1 - x : 2 * m - 1 - x; };
            if (bad.empty() && !threw) v.eachAll([&](int i, int j, int k) {
                if (!bad.empty()) return; const int x[3] = {i, j, k}; int out = 0, side = -1; bool allPhysical = true; for (int d = 0; d < dim; ++d) if (x[d] < 0 || x[d] >= n[d]) { out++; side = 2 * d + (x[d] >= n[d]); allPhysical &= bt[side] != boundary::MPI_BC; }
                for (int a = 0; a < v.vars(); ++a) { double want;
                    if (out == 0 || (out == 1 && bt[side] == boundary::MPI_BC)) want = label(a, i, j, k);               // interior and neighbour sides are left alone
                    else if (out == 1 || mpi == 0) want = label(a, src(i, nx), dim > 1 ? src(j, ny) : j, dim > 2 ? src(k, nz) : k);
                    else continue;                                                                                      // edges and corners next to a neighbour process
                    if (v.at(a, i, j, k) != want) { bad = hx::cat("size ", nx, "x", ny, "x", nz, " sides of other processes ", mpi, ": variable ", a, " cell (", i, ",", j, ",", k, ") is cell label ", v.at(a, i, j, k), " instead of ", want); return; } }
            });
            if (!bad.empty()) { hx::viol("boundary-" + type, bad); shown = true; break; }
        }
        hx::sample(name);
    }
    return hx::finish();
}
