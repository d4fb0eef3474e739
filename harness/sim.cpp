#include "sim.hpp"
#include "alsfvm/volume/Volume.hpp"
#include <mpi.h>
#include <fstream>
#include <algorithm>
#include "mcrt.hpp"
#include "alsutils/timer/TimerDatabase.hpp"
// The timers are entered everywhere; their own interleavings are the subject of C16
static bool quietTimers = (mc::quietLocksIn(&alsutils::timer::TimerDatabase::getInstance(), sizeof(alsutils::timer::TimerDatabase)), true);
namespace simx {
using namespace alsfvm;
std::string Cfg::xml() const {
    std::ostringstream s; s.precision(17);
    const int d = dim(); auto up = upper, lo = lower; for (int i = d; i < 3; ++i) { lo[i] = 0; up[i] = 0; }
    s << "<config><fvm><name>run</name><platform>cpu</platform><boundary>" << boundary << "</boundary><flux>" << flux << "</flux><endTime>" << endTime << "</endTime><equation>" << equation << "</equation>";
    if (euler()) s << "<equationParameters><gamma>" << gamma << "</gamma></equationParameters>";
    s << equationExtra << "<reconstruction>" << recon << "</reconstruction><cfl>" << cfl << "</cfl><integrator>" << integrator << "</integrator>";
    s << "<initialData><python>init.py</python></initialData>";
    s << "<grid><lowerCorner>" << lo[0] << " " << lo[1] << " " << lo[2] << "</lowerCorner><upperCorner>" << up[0] << " " << up[1] << " " << up[2] << "</upperCorner><dimension>" << n[0] << " " << n[1] << " " << n[2] << "</dimension></grid>";
    if (diffusion != "none") s << "<diffusion><name>" << diffusion << "</name><reconstruction>" << diffRecon << "</reconstruction></diffusion>";
    s << writer << functionals << "</fvm></config>\n";
    return s.str();
}
std::string Cfg::str() const {
    std::ostringstream s; s << equation << "/" << flux << "/" << recon << "/" << integrator << "/" << boundary << (diffusion != "none" ? "/" + diffusion + "-" + diffRecon : "") << "/" << n[0] << "x" << n[1] << "x" << n[2];
    return s.str();
}
Snapshot take(const volume::Volume& v, const grid::Grid& g, double time, size_t steps) {
    Snapshot s; s.time = time; s.steps = steps;
    auto p = g.getGlobalPosition(); auto gs = g.getGlobalSize();
    s.n = {{int(v.getNumberOfXCells()), int(v.getNumberOfYCells()), int(v.getNumberOfZCells())}};
    for (int i = 0; i < 3; ++i) { s.pos[i] = p[i]; s.global[i] = gs[i]; }
    for (size_t k = 0; k < v.getNumberOfVariables(); ++k) {
        std::vector<real> t(size_t(s.n[0]) * s.n[1] * s.n[2]); v.copyInternalCells(k, t.data(), t.size());
        s.v.push_back(std::vector<double>(t.begin(), t.end())); s.names.push_back(v.getName(k));
    }
    return s;
}
void Recorder::write(const volume::Volume& v, const grid::Grid& g, const simulator::TimestepInformation& t) { snaps.push_back(take(v, g, t.getCurrentTime(), t.getNumberOfStepsPerformed())); }
void CellData::setInitialData(volume::Volume& c, volume::Volume&, equation::CellComputer&, grid::Grid& g) {
    auto pos = g.getGlobalPosition();
    const int gx = c.getNumberOfXGhostCells(), gy = c.getNumberOfYGhostCells(), gz = c.getNumberOfZGhostCells();
    const int nx = c.getNumberOfXCells(), ny = c.getNumberOfYCells(), nz = c.getNumberOfZCells();
    const size_t tx = c.getTotalNumberOfXCells(), ty = c.getTotalNumberOfYCells();
    const size_t nv = c.getNumberOfVariables();
    for (size_t v = 0; v < nv; ++v) {
        real* p = c.getScalarMemoryArea(v)->getPointer();
        // ghost cells start admissible, as they do after the usual initial data; their values must not matter
        const double fill = nv == 1 ? 0.42 : eulerConserved(std::vector<double>(nv, 42.0), 1.4)[v];
        for (size_t q = 0; q < tx * ty * c.getTotalNumberOfZCells(); ++q) p[q] = fill;
        for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
            p[size_t(i + gx) + tx * (size_t(j + gy) + ty * size_t(k + gz))] = f(int(v), pos[0] + i, pos[1] + j, pos[2] + k);
    }
}
std::vector<double> eulerConserved(const std::vector<double>& w, double gamma) {
    const size_t d = w.size() - 2; std::vector<double> c(w.size()); double q = 0; c[0] = w[0];
    for (size_t i = 1; i <= d; ++i) { c[i] = w[0] * w[i]; q += w[i] * w[i]; }
    c[d + 1] = w[d + 1] / (gamma - 1) + 0.5 * w[0] * q; return c;
}
std::string writeFile(const std::string& name0, const std::string& text) { static int serial = 0; const std::string name = name0.find(".xml") != std::string::npos ? std::to_string(serial++) + "_" + name0 : name0;   /* file contents are cached by name */ std::string p = hx::scratch() + "/" + name; std::ofstream f(p, std::ios::trunc); f << text; f.close(); return p; }
static void initPy() { static bool done = false; if (!done) { writeFile("init.py", "u = 0\n"); done = true; } }
Sim makeWith(const std::string& f, std::shared_ptr<io::WriterFactory> wf) {
    initPy(); config::SimulatorSetup s; if (wf) s.setWriterFactory(wf); else s.setWriterFactory(std::make_shared<io::WriterFactory>());
    auto p = s.readSetupFromFile(f); return {p.first, p.second};
}
Sim make(const std::string& f) { return makeWith(f, nullptr); }
Sim makeMpi(const std::string& f, void* comm, int px, int py, int pz, std::shared_ptr<io::WriterFactory> wf) {
    initPy(); config::SimulatorSetup s; s.enableMPI((MPI_Comm)comm, px, py, pz); if (wf) s.setWriterFactory(wf);
    auto p = s.readSetupFromFile(f); return {p.first, p.second};
}
shared_ptr<io::Writer> RecorderFactory::createWriter(const std::string&, const std::string& base, const io::Parameters&) { auto r = std::make_shared<Recorder>(); made.push_back({base, r}); return r; }

std::string join(const std::vector<const Snapshot*>& parts, Snapshot& w) {
    if (parts.empty()) return "no parts";
    w = Snapshot(); w.time = parts[0]->time; w.steps = parts[0]->steps; w.global = w.n = parts[0]->global; w.names = parts[0]->names;
    size_t tot = size_t(w.n[0]) * w.n[1] * w.n[2];
    w.v.assign(w.names.size(), std::vector<double>(tot, std::nan(""))); std::vector<int> seen(tot, 0);
    for (auto* p : parts) {
        if (p->names != w.names || p->global != w.global) return "parts disagree on their shape";
        if (p->time != w.time) return hx::cat("parts disagree on the time: ", p->time, " and ", w.time);
        for (int k = 0; k < p->n[2]; ++k) for (int j = 0; j < p->n[1]; ++j) for (int i = 0; i < p->n[0]; ++i) {
            int a = i + p->pos[0], b = j + p->pos[1], c = k + p->pos[2];
            if (a < 0 || b < 0 || c < 0 || a >= w.n[0] || b >= w.n[1] || c >= w.n[2]) return "part outside the grid";
            size_t at = a + size_t(w.n[0]) * (b + size_t(w.n[1]) * c); seen[at]++;
            for (size_t v = 0; v < w.v.size(); ++v) w.v[v][at] = p->v[v][i + size_t(p->n[0]) * (j + size_t(p->n[1]) * k)];
        }
    }
    for (int s : seen) if (s != 1) return "a cell is owned by " + std::to_string(s) + " parts";
    return "";
}
double relDiff(double a, double b, double scale) { if (a == b) return 0; double d = std::fabs(a - b) / std::max(scale, std::max(std::fabs(a), std::fabs(b))); return std::isnan(d) ? 1e300 : d; }
double diff(const Snapshot& a, const Snapshot& b) {
    if (a.v.size() != b.v.size()) return 1e300; double m = 0;
    for (size_t v = 0; v < a.v.size(); ++v) { if (a.v[v].size() != b.v[v].size()) return 1e300; for (size_t i = 0; i < a.v[v].size(); ++i) m = std::max(m, relDiff(a.v[v][i], b.v[v][i])); }
    return m;
}
}
