// Writes snapshots with the real writer: p_write nx ny nz lx ly lz ux uy uz BASENAME SAVES ENDTIME NAME...
// variable v of cell (i, j, k) in snapshot s holds 1000000 v + 100000 s + 10000 i + 100 j + k
#include "sim.hpp"
#include "hx.hpp"
#include "alsfvm/io/NetCDFWriter.hpp"
int main(int argc, char** argv) {
    hx::quietLog();
    auto n = [&](int i) { return atof(argv[i]); };
    int nx = n(1), ny = n(2), nz = n(3), dim = nz > 1 ? 3 : ny > 1 ? 2 : 1;
    alsfvm::grid::Grid g({alsfvm::real(n(4)), alsfvm::real(n(5)), alsfvm::real(n(6))}, {alsfvm::real(n(7)), alsfvm::real(n(8)), alsfvm::real(n(9))}, {nx, ny, nz});
    std::string base = argv[10]; int saves = n(11); double T = n(12);
    std::vector<std::string> names(argv + 13, argv + argc);
    auto dc = std::make_shared<alsfvm::DeviceConfiguration>("cpu"); auto mf = std::make_shared<alsfvm::memory::MemoryFactory>(dc);
    int gh = 2; alsfvm::volume::Volume v(names, mf, nx, ny, nz, gh);
    alsfvm::io::NetCDFWriter w(base);
    for (int s = 0; s <= saves; ++s) {
        for (size_t q = 0; q < names.size(); ++q) {
            auto* p = v.getScalarMemoryArea(q)->getPointer(); int X = nx + 2 * gh, Y = ny + (dim > 1 ? 2 * gh : 0), Z = nz + (dim > 2 ? 2 * gh : 0);
            for (int k = 0; k < Z; ++k) for (int j = 0; j < Y; ++j) for (int i = 0; i < X; ++i)
                p[(size_t(k) * Y + j) * X + i] = 1000000. * q + 100000. * s + 10000. * (i - gh) + 100. * (j - (dim > 1 ? gh : 0)) + (k - (dim > 2 ? gh : 0));
        }
        alsfvm::simulator::TimestepInformation t; t.incrementTime(T * s / (saves ? saves : 1));
        w.write(v, g, t);
    }
    return 0;
}
