// C17: what the writers put into files is what they were given, at its place, for every shape, decomposition and history.
#include "rig.hpp"
#include "cfgs.hpp"
#include "readback.hpp"
#include "mcx.hpp"
#include "alsfvm/io/HDF5Writer.hpp"
#include "alsfvm/io/NetCDFWriter.hpp"
#include "alsfvm/io/NetCDFMPIWriter.hpp"
#include "alsfvm/io/MpiWriterFactory.hpp"
#include <cfloat>
#include <sys/stat.h>
#include <boost/property_tree/xml_parser.hpp>
#include <mpi.h>
using namespace alsfvm; using rig::I3; using rig::Vol; typedef std::vector<double> Vec;
static const double special[] = {0.1, -0.0, 1. / 3, DBL_MAX, -DBL_MAX, 4.9e-324, 2.2e-308, 1e300, -7.25, 65537, 1 - 1e-16};
// the value of a variable in a global cell of a snapshot, all different apart from the special ones
static double cell(int snap, int var, int i, int j, int k) { const int u = ((snap * 7 + var) * 11 + i) * 13 * 17 + j * 17 + k; return u % 3 == 0 ? special[(u / 3) % 11] : u + 0.5 / (1 + u); }
static const double times[] = {0, 0.1, 1. / 3, 1e-300, 123456.789012345678, 2};
static simx::Snapshot expectOf(int snap, const std::vector<std::string>& names, I3 n) { simx::Snapshot s; s.time = times[snap % 6]; s.names = names; s.n = s.global = n; for (size_t v = 0; v < names.size(); ++v) { Vec d; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) d.push_back(cell(snap, int(v), i, j, k)); s.v.push_back(d); } return s; }
static std::shared_ptr<memory::MemoryFactory> mf() { static auto dev = std::make_shared<DeviceConfiguration>("cpu"); static auto m = std::make_shared<memory::MemoryFactory>(dev); return m; }
struct Part { I3 pos, n; };
static void fill(volume::Volume& v, int snap, const Part& p) { Vol w(std::shared_ptr<volume::Volume>(&v, [](volume::Volume*) {})); w.eachAll([&](int i, int j, int k) { const bool in = i >= 0 && j >= 0 && k >= 0 && i < w.n[0] && j < w.n[1] && k < w.n[2]; for (int a = 0; a < w.vars(); ++a) w.at(a, i, j, k) = in ? cell(snap, a, i + p.pos[0], j + p.pos[1], k + p.pos[2]) : -12345.678; }); }
static simulator::TimestepInformation info(int snap) { simulator::TimestepInformation t; t.incrementTime(times[snap % 6]); return t; }
static std::vector<std::string> names(int nv) { std::vector<std::string> a = {"u", "mx", "rho_1", "E", "zz", "v 2"}; a.resize(nv); return a; }
typedef boost::property_tree::ptree ptree;
static ptree tree(int kind) { ptree t; if (kind == 0) { t.put("fvm.name", "run"); t.put("fvm.cfl", "0.45"); t.put("fvm.empty", ""); t.put("fvm.grid.dimension", "4 3 2"); t.put("text", std::string(300, 'x') + "\n\"<&>'"); } else { for (int i = 0; i < 3; ++i) { ptree q; q.put("name", hx::cat("functional", i)); q.put("degree", i); t.add_child("functionals.functional", q); } t.put("only", "value"); } return t; }
static void leaves(const ptree& t, const std::string& at, bool repeated, std::vector<std::tuple<std::string, std::string, bool>>& out) { if (t.empty()) { out.emplace_back(at, t.data(), repeated); return; } for (auto& c : t) leaves(c.second, at + "." + c.first, repeated || t.count(c.first) > 1, out); }
static std::string attributes(const rb::Img& m, const std::map<std::string, ptree>& trees) {
    if (!m.atts.count("alsvinn_report.software")) return "the report about the program is missing";
    for (auto& t : trees) { std::vector<std::tuple<std::string, std::string, bool>> l; leaves(t.second, t.first, false, l); for (auto& x : l) { bool found = false; if (std::get<2>(x)) { for (auto& a : m.atts) found = found || (a.first.compare(0, t.first.size() + 1, t.first + ".") == 0 && a.second == std::get<1>(x)); } else { auto i = m.atts.find(std::get<0>(x)); found = i != m.atts.end() && i->second == std::get<1>(x); } if (!found) return "attribute " + std::get<0>(x) + " = " + std::get<1>(x).substr(0, 40) + " is not in the file"; } }
    return "";
}
static std::string checkH5(const std::string& path, const simx::Snapshot& e, const std::array<double, 3>& lo, const std::array<double, 3>& hi) { auto m = rb::readH5(path); auto bad = rb::differs(m, e, false); if (!bad.empty()) return bad; if (m.atts["vsIndexOrder"] != "compMinorF" || m.atts["vsType"] != "mesh" || m.atts["vsKind"] != "uniform") return "the grid is described differently"; for (int d = 0; d < 3; ++d) if (m.atts[hx::cat("lower", d)] != hx::cat(float(lo[d])) || m.atts[hx::cat("upper", d)] != hx::cat(float(hi[d]))) return hx::cat("corner of the grid in direction ", d); return ""; }
static void cuts(int n, int parts, int least, std::vector<int> cur, std::vector<std::vector<int>>& out) { if (parts == 1) { cur.push_back(n); out.push_back(cur); return; } for (int a = 1; a + parts - 1 <= n; ++a) { auto c = cur; c.push_back(a); cuts(n - a, parts - 1, least, c, out); } }
// one simulation whose configured writers are the real ones, and once more with recorders
struct Made { std::map<std::string, simx::Snapshots> rec; };
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; const std::string dir = hx::scratch() + "/o"; mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return 2; auto wipe = [&] { for (auto& f : rb::list(dir)) unlink((dir + "/" + f).c_str()); fpn::reset(); };
    const int snaps = T ? 12 : 3; const std::array<double, 3> lo{{-0.3, 0.25, 1}}, hi{{1.7, 4, 2.5}};
    auto gridOf = [&](const I3& g, const Part& p) { return grid::Grid(rvec3(lo[0], lo[1], lo[2]), rvec3(hi[0], hi[1], hi[2]), ivec3(p.n[0], p.n[1], p.n[2]), boundary::allPeriodic(), ivec3(p.pos[0], p.pos[1], p.pos[2]), ivec3(g[0], g[1], g[2])); };
    // ---- one process: every shape, ghost width and number of variables, several snapshots, two writers in turn
    std::vector<I3> shapes; for (int nx = 1; nx <= (T ? 5 : 4); ++nx) for (int ny = 1; ny <= (T ? 5 : 4); ++ny) for (int nz = 1; nz <= (T ? 5 : 4); ++nz) if (T || nx + ny + nz <= 9) shapes.push_back({{nx, ny, nz}}); shapes.push_back({{17, 1, 1}}); shapes.push_back({{7, 9, 1}}); shapes.push_back({{5, 2, 7}}); shapes.push_back({{1, 1, 6}}); shapes.push_back({{1, 6, 1}});
    for (std::string w : {"netcdf", "hdf5", "parallel"}) for (auto& n : shapes) for (int g = 0; g <= 3; ++g) for (int nv : {1, 2, 4, 6}) {
        if (!T && ((nv == 2 && g != 1) || (nv == 6 && g) || (g == 3 && n[0] + n[1] + n[2] > 6))) continue;
        if (!hx::begin(hx::cat(w, "-", n[0], "x", n[1], "x", n[2], "-ghost", g, "-", nv, "variables"))) continue; hx::sample("written and read back: " + hx::current(), 1); wipe(); const Part all{{{0, 0, 0}}, n}; auto G = gridOf(n, all); volume::Volume v(names(nv), mf(), n[0], n[1], n[2], g);
        auto make = [&](const std::string& base) { std::shared_ptr<io::Writer> r; if (w == "netcdf") r.reset(new io::NetCDFWriter(base)); else if (w == "hdf5") r.reset(new io::HDF5Writer(base)); else r.reset(new io::NetCDFMPIWriter(base, {""}, 0, true, MPI_COMM_WORLD, MPI_INFO_NULL)); return r; };
        try { auto a = make("a"), b = make("a_1"); std::map<std::string, ptree> ta{{"fvm_configuration", tree(0)}, {"other", tree(1)}}, tb{{"fvm_configuration", tree(1)}}; for (auto& t : ta) a->addAttributes(t.first, t.second); for (auto& t : tb) b->addAttributes(t.first, t.second);
            std::map<std::string, std::pair<int, int>> want;      // file -> snapshot, writer
            const std::string ext = w == "hdf5" ? ".h5" : ".nc"; for (int s = 0; s < snaps; ++s) { fill(v, s, all); a->write(v, G, info(s)); want[hx::cat("a_", s, ext)] = {s, 0}; hx::count("transitions"); if (s % 2 == 0) { fill(v, s + 50, all); b->write(v, G, info(s + 50)); want[hx::cat("a_1_", s / 2, ext)] = {s + 50, 1}; hx::count("transitions"); } }
            std::vector<std::string> got; if (w == "parallel") for (auto& f : fpn::files()) got.push_back(f.first); else got = rb::list(dir); std::vector<std::string> exp; for (auto& x : want) exp.push_back(x.first); if (got != exp) { std::string l; for (auto& x : got) l += " " + x; hx::viol("output:files", "files:" + l); continue; }
            for (auto& x : want) { auto e = expectOf(x.second.first, names(nv), n); hx::count("states"); std::string bad; if (w == "hdf5") bad = checkH5(x.first, e, lo, hi); else { auto m = w == "netcdf" ? rb::readNc(x.first) : rb::readFpn(x.first); bad = rb::differs(m, e, true); if (bad.empty()) bad = attributes(m, x.second.second ? tb : ta); } if (!bad.empty()) { hx::viol("output:" + w, x.first + ": " + bad); break; } }
        } catch (std::exception& e) { hx::viol("output:" + w, std::string("refused: ") + e.what()); } hx::count("executions"); }
    // ---- several processes write one file: every way of cutting the grid
    for (auto& n : std::vector<I3>{{{5, 1, 1}}, {{1, 4, 1}}, {{1, 1, 3}}, {{4, 3, 1}}, {{3, 1, 4}}, {{1, 3, 2}}, {{3, 2, 4}}, {{2, 4, 3}}, {{4, 4, 4}}}) for (int px = 1; px <= std::min(3, n[0]); ++px) for (int py = 1; py <= std::min(3, n[1]); ++py) for (int pz = 1; pz <= std::min(3, n[2]); ++pz) {
        const int ranks = px * py * pz; if (ranks == 1 || ranks > (T ? 12 : 8)) continue; std::vector<std::vector<int>> cx, cy, cz; cuts(n[0], px, 1, {}, cx); cuts(n[1], py, 1, {}, cy); cuts(n[2], pz, 1, {}, cz); int ci = 0;
        for (auto& a : cx) for (auto& b : cy) for (auto& c : cz) { ++ci; for (int groups : {0, 2}) { const int nv = ranks == 2 ? 2 : 1; if (!hx::begin(hx::cat("together-", n[0], "x", n[1], "x", n[2], "-procs", px, "x", py, "x", pz, "-cut", ci, groups ? "-samples" : ""))) continue;
            std::vector<Part> parts; int z0 = 0; for (int z : c) { int y0 = 0; for (int y : b) { int x0 = 0; for (int x : a) { parts.push_back({{{x0, y0, z0}}, {{x, y, z}}}); x0 += x; } y0 += y; } z0 += z; }
            std::map<std::string, ptree> ta{{"fvm_configuration", tree(0)}}; const int R = groups ? 2 * ranks : ranks; if (R > 12) continue; static const int pairs[5][2] = {{1, 10}, {10, 1}, {0, 1}, {9, 10}, {12, 2}}; const int *pr = pairs[(ci + px + n[2]) % 5];
            auto body = [&](int r) { std::unique_ptr<mc::Quiet> q(new mc::Quiet); const int me = r % ranks, group = r / ranks; auto& p = parts[me]; auto G = gridOf(n, p); volume::Volume v(names(nv), mf(), p.n[0], p.n[1], p.n[2], 1); std::vector<std::string> gn; if (groups) gn = {hx::cat("sample_", pr[0]), hx::cat("sample_", pr[1])}; else gn = {""}; io::NetCDFMPIWriter w("t", gn, group, true, MPI_COMM_WORLD, MPI_INFO_NULL); for (auto& t : ta) w.addAttributes(t.first, t.second); for (int s = 0; s < 2; ++s) { fill(v, s + 20 * group, p); q.reset(); w.write(v, G, info(s)); q.reset(new mc::Quiet); } };
            auto verify = [&](const mc::Exec&) -> std::string { if (fpn::files().size() != 2) return hx::cat(fpn::files().size(), " files instead of 2"); for (int s = 0; s < 2; ++s) { auto m = rb::readFpn(hx::cat("t_", s, ".nc")); auto e = expectOf(s, names(nv), n); if (groups) { auto o = expectOf(s + 20, names(nv), n); simx::Snapshot both = e; both.names.clear(); both.v.clear(); for (int k = 0; k < 2; ++k) for (int v = 0; v < nv; ++v) { both.names.push_back(hx::cat("sample_", pr[k], "_", names(nv)[v])); both.v.push_back(k ? o.v[v] : e.v[v]); } e = both; } auto bad = rb::differs(m, e, true); if (bad.empty()) bad = attributes(m, ta); if (!bad.empty()) return hx::cat("file ", s, ": ", bad); } return ""; };
            const bool small = R == 2 && n[0] + n[1] + n[2] <= (T ? 7 : 5); mcx::exploreCase(R, T || R <= 3 ? mc::Policy::all(false) : std::vector<mc::Policy>{mc::Policy()}, small ? (T ? 2 : 1) : 0, 200000, [] { fpn::reset(); }, body, verify, "output:together"); } } }
    // ---- whole simulations: the files of every configured writer against what the same writer is given in the same run with recorders
    struct W { std::string opts; }; const std::string funcs[] = {"", "<functional><name>identity</name><numberOfSaves>2</numberOfSaves><writer><type>TYPE</type><basename>f0</basename></writer></functional>", "<functional><name>moment</name><degree>2</degree><numberOfSaves>3</numberOfSaves><writer><type>TYPE</type><basename>f1</basename></writer></functional><functional><name>structure_base</name><direction>0</direction><p>1</p><numberOfH>2</numberOfH><time>0.05</time><timeRadius>0.03</timeRadius><writer><type>TYPE</type><basename>f2</basename></writer></functional>"};
    const std::string opts[] = {"", "<numberOfSaves>3</numberOfSaves>", "<numberOfSaves>12</numberOfSaves><writeInitialTimestep>1</writeInitialTimestep>", "<time>0.05</time><timeRadius>0.02</timeRadius><numberOfSnapshots>3</numberOfSnapshots>", "<numberOfSaves>1</numberOfSaves><numberOfCoarseSaves>1</numberOfCoarseSaves><numberOfSkips>1</numberOfSkips>"};
    struct D { std::string eq; I3 n; }; for (auto& d : std::vector<D>{{"burgers", {{8, 1, 1}}}, {"burgers", {{6, 4, 1}}}, {"burgers", {{4, 6, 4}}}, {"euler1", {{6, 1, 1}}}, {"euler2", {{4, 6, 1}}}, {"euler3", {{2, 4, 6}}}, {"linear", {{1, 1, 1}}}}) for (size_t o = 0; o < 5; ++o) for (size_t f = 0; f < 3; ++f) for (std::string w : {"netcdf", "hdf5", "1x1x1", "2x1x1", "1x2x1", "1x1x2", "2x2x1", "2x1x2", "2x2x2"}) {
        int px = 1, py = 1, pz = 1; const bool mpi = isdigit(w[0]); if (mpi) sscanf(w.c_str(), "%dx%dx%d", &px, &py, &pz); if (d.eq == "linear") { if (mpi && px * py * pz > 1) continue; } if (d.n[0] / px < 2 && px > 1) continue; if ((py > 1 && d.n[1] / py < 2) || (pz > 1 && d.n[2] / pz < 2)) continue;
        if (o == 4 && d.n[0] < 4) continue; if (f == 2 && px * py * pz > 1) continue; if (!T && (px * py * pz > 4 ? o != 0 : px * py * pz > 2 && o > 1)) continue; if (pz > 1 && d.n[2] == 1) continue; if (py > 1 && d.n[1] == 1) continue; if (!hx::begin(hx::cat("run-", d.eq, "-", d.n[0], "x", d.n[1], "x", d.n[2], "-", w, "-writer", o, "-functionals", f))) continue;
        auto c = cfgs::mk(1, d.eq, d.eq[0] == 'e' ? "hll" : "rusanov", "none"); c.n = d.n; c.endTime = d.eq == "linear" ? 0.5 : 0.1; c.upper = {{1, 1.5, 2}}; if (o == 4) { c.endTime = 0.6; c.upper[0] = 0.5; } const std::string type = w == "hdf5" ? "hdf5" : "netcdf"; c.writer = "<writer><type>" + type + "</type><basename>out</basename>" + opts[o] + "</writer>"; if (f) { auto x = funcs[f]; for (size_t q; (q = x.find("TYPE")) != std::string::npos;) x.replace(q, 4, type); c.functionals = "<functionals>" + x + "</functionals>"; }
        hx::sample("run with files against recorders: " + hx::current(), 2); auto init = cfgs::data(c); const int R = px * py * pz; std::vector<std::map<std::string, simx::Snapshots>> rec(R);
        auto run = [&](int r, bool record) { std::unique_ptr<mc::Quiet> q(new mc::Quiet); auto wf = record ? std::make_shared<simx::RecorderFactory>() : nullptr; const std::string file = simx::writeFile("c.xml", c.xml()); auto s = mpi ? simx::makeMpi(file, MPI_COMM_WORLD, px, py, pz, wf) : simx::makeWith(file, wf); alsfvm::shared_ptr<init::InitialData> id(new simx::CellData(init)); q.reset(); s.sim->setInitialValue(id); s.sim->callWriters(); while (!s.sim->atEnd()) s.sim->performStep(); s.sim->finalize(); q.reset(new mc::Quiet); if (record) for (auto& m : wf->made) rec[r][m.first] = m.second->snaps; };
        auto both = [&](bool record) -> std::string { if (R == 1) { try { run(0, record); } catch (std::exception& e) { return std::string("refused: ") + e.what(); } return ""; } auto x = mc::run(R, mc::Policy(), {}, [&](int r) { run(r, record); }); hx::count("transitions", x.steps); return x.clean() ? "" : x.what(); };
        wipe(); auto bad = both(true); if (!bad.empty() || !rb::list(dir).empty() || !fpn::files().empty()) { hx::viol("output:run", bad.empty() ? "recorded run writes files" : bad); continue; } bad = both(false); hx::count("executions"); if (!bad.empty()) { hx::viol("output:run", bad); continue; }
        std::vector<std::string> exp, got; const std::string ext = w == "hdf5" ? ".h5" : ".nc"; for (auto& m : rec[0]) for (size_t k = 0; k < m.second.size(); ++k) exp.push_back(hx::cat(m.first, "_", k, ext)); std::sort(exp.begin(), exp.end()); if (mpi) for (auto& x : fpn::files()) got.push_back(x.first); else got = rb::list(dir); if (got != exp || exp.empty()) { std::string l; for (auto& x : got) l += " " + x; hx::viol("output:files", "files:" + l); continue; }
        ptree t; std::istringstream xs(c.xml()); boost::property_tree::read_xml(xs, t); std::map<std::string, ptree> ta{{"fvm_configuration", t.get_child("config")}};
        for (auto& m : rec[0]) { for (size_t k = 0; bad.empty() && k < m.second.size(); ++k) { std::vector<const simx::Snapshot*> p; for (auto& x : rec) p.push_back(&x[m.first][k]); simx::Snapshot whole; bad = simx::join(p, whole); hx::count("states"); if (bad.empty()) { auto name = hx::cat(m.first, "_", k, ext); if (w == "hdf5") { auto im = rb::readH5(name); bad = rb::differs(im, whole, false); } else { auto im = mpi ? rb::readFpn(name) : rb::readNc(name); bad = rb::differs(im, whole, true); if (bad.empty() && m.first == "out") bad = attributes(im, ta); } if (!bad.empty()) bad = name + ": " + bad; } } }
        if (!bad.empty()) hx::viol("output:run", bad); }
    return hx::finish();
}
