// Builds and runs real simulators from XML text, with initial data set cell by
// cell, and records what they write.
#pragma once
#include "hx.hpp"
#include "alsfvm/config/SimulatorSetup.hpp"
#include "alsfvm/init/InitialData.hpp"
#include "alsfvm/io/Writer.hpp"
#include "alsfvm/equation/CellComputer.hpp"
#include <array>
#include <memory>
#include <cmath>

namespace simx {
struct Cfg {
    std::string equation = "burgers", flux = "rusanov", recon = "none", integrator = "forwardeuler", boundary = "periodic";
    std::string diffusion = "none", diffRecon = "none", cfl = "0.4", writer, functionals, equationExtra;
    std::array<int, 3> n{{8, 1, 1}};
    std::array<double, 3> lower{{0, 0, 0}}, upper{{1, 1, 1}};   // inactive directions are set to zero extent by xml()
    double endTime = 1, gamma = 1.4;
    int dim() const { return n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; }
    int nvar() const { return equation == "euler1" ? 3 : equation == "euler2" ? 4 : equation == "euler3" ? 5 : 1; }
    bool euler() const { return equation.substr(0, 5) == "euler"; }
    std::string xml() const;
    std::string str() const;
};
struct Snapshot { double time = 0; size_t steps = 0; std::array<int, 3> pos{{0, 0, 0}}, n{{0, 0, 0}}, global{{0, 0, 0}}; std::vector<std::string> names; std::vector<std::vector<double>> v; };  // v[var][cell], x fastest
typedef std::vector<Snapshot> Snapshots;

Snapshot take(const alsfvm::volume::Volume& v, const alsfvm::grid::Grid& g, double time, size_t steps);

class Recorder : public alsfvm::io::Writer {
public:
    Snapshots snaps; int finalized = 0;
    void write(const alsfvm::volume::Volume&, const alsfvm::grid::Grid&, const alsfvm::simulator::TimestepInformation&) override;
    void finalize(const alsfvm::grid::Grid&, const alsfvm::simulator::TimestepInformation&) override { finalized++; }
};

// value of conserved variable var in global cell (i, j, k)
typedef std::function<double(int var, int i, int j, int k)> Init;
class CellData : public alsfvm::init::InitialData {
public:
    Init f; CellData(const Init& f) : f(f) {}
    void setInitialData(alsfvm::volume::Volume&, alsfvm::volume::Volume&, alsfvm::equation::CellComputer&, alsfvm::grid::Grid&) override;
    void setParameters(const alsfvm::init::Parameters&) override {}
    boost::property_tree::ptree getDescription() const override { return boost::property_tree::ptree(); }
};
// primitive (rho, u.., p) to conserved
std::vector<double> eulerConserved(const std::vector<double>& prim, double gamma);

std::string writeFile(const std::string& name, const std::string& text);    // into the scratch directory
struct Sim { std::shared_ptr<alsfvm::simulator::Simulator> sim; std::shared_ptr<alsfvm::init::InitialData> init; };
Sim make(const std::string& xmlFile);                                       // no message passing
Sim makeMpi(const std::string& xmlFile, void* comm, int px, int py, int pz, std::shared_ptr<alsfvm::io::WriterFactory> wf = nullptr);

// A writer factory that hands out recorders, so that XML <writer> and <functionals> nodes can be observed.
class RecorderFactory : public alsfvm::io::WriterFactory {
public:
    std::vector<std::pair<std::string, std::shared_ptr<Recorder>>> made;   // basename, recorder
    alsfvm::shared_ptr<alsfvm::io::Writer> createWriter(const std::string& name, const std::string& base, const alsfvm::io::Parameters&) override;
    std::shared_ptr<Recorder> find(const std::string& base) { for (auto& m : made) if (m.first == base) return m.second; return nullptr; }
};
Sim makeWith(const std::string& xmlFile, std::shared_ptr<alsfvm::io::WriterFactory> wf);

// joins the parts written by all ranks into one global snapshot; empty string if they tile the grid
std::string join(const std::vector<const Snapshot*>& parts, Snapshot& whole);
// largest relative difference
double diff(const Snapshot& a, const Snapshot& b);
double relDiff(double a, double b, double scale = 1);
}
