// Configurations shared by the harnesses that run whole simulations.
#pragma once
#include "sim.hpp"
#include <vector>
namespace cfgs {
using simx::Cfg;
inline const char* spatialDims(int d) { return d == 1 ? "euler1" : d == 2 ? "euler2" : "euler3"; }
inline std::vector<std::string> fluxesOf(const std::string& eq) {
    if (eq.substr(0, 5) == "euler") return {"hll", "hll3", "central", "tecno1", "tecno4", "tecno6"};
    if (eq == "burgers") return {"central", "rusanov", "godunov", "roe", "tecno1", "tecno4", "tecno6"};
    if (eq == "cubic") return {"central", "roe", "rusanov"};
    if (eq == "linear") return {"central", "rusanov", "roe", "upwind"};
    return {"central", "godunov", "rusanov"};   // buckleyleverett
}
inline Cfg mk(int dim, std::string eq, std::string flux, std::string recon = "none", std::string integ = "forwardeuler", std::string bc = "periodic", std::string diff = "none", std::string drec = "none") {
    Cfg c; c.equation = eq; c.flux = flux; c.recon = recon; c.integrator = integ; c.boundary = bc; c.diffusion = diff; c.diffRecon = drec;
    c.n = {{8, dim > 1 ? 6 : 1, dim > 2 ? 6 : 1}}; c.upper = {{1.0, 1.0, 1.0}}; return c;
}
// Smooth admissible data with a local spike, so that the fastest wave sits in one chosen cell.
inline simx::Init data(const Cfg& c, std::array<int, 3> spike = {{-1, -1, -1}}, int seed = 0) {
    const bool eu = c.euler(); const int nv = c.nvar(); const double gamma = c.gamma; auto n = c.n;
    return [=](int var, int i, int j, int k) {
        auto wob = [&](int s) { return std::sin(2 * M_PI * (i + 0.3 * s + 0.13 * seed) / n[0]) + 0.7 * std::cos(2 * M_PI * (j + 0.2 * s) / n[1] + 0.4 * s) * (n[1] > 1) + 0.5 * std::sin(2 * M_PI * (k + 0.1 * s) / n[2] + 0.2 * s) * (n[2] > 1); };
        const bool sp = i == spike[0] && j == spike[1] && k == spike[2];
        if (!eu) return (sp ? 0.93 : 0.45) + 0.13 * wob(1);
        std::vector<double> w(nv); w[0] = 1 + 0.2 * wob(1); for (int d = 1; d + 1 < nv; ++d) w[d] = 0.4 * wob(d + 1) + 0.1 * d; w[nv - 1] = (sp ? 9 : 1) + 0.2 * wob(7);
        return simx::eulerConserved(w, gamma)[var];
    };
}
}
