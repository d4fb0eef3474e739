// C30: the command line programs do exactly the run they are asked for, and their exit status tells whether it was done.
#include "rig.hpp"
#include "cfgs.hpp"
#include "mcx.hpp"
#include "fakepnetcdf.hpp"
#include "alsuq/config/Setup.hpp"
#include "alsfvm/init/PythonInitialData.hpp"
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <mpi.h>
using namespace alsfvm; using rig::I3; typedef std::vector<double> Vec; typedef std::vector<std::string> Args;
int alsvinncli_main(int, char**); int alsuqcli_main(int, char**);
// ---- initial data computed here from the parameters (the interpreter is the subject of C28)
static int badPart = -1; static double badSample = -1; static bool nonStandard = false;
namespace alsfvm { namespace init {
PythonInitialData::PythonInitialData(const std::string& p, const Parameters& q) : parameters(q), programString(p) {}
void PythonInitialData::setParameters(const Parameters& p) { for (auto& n : p.getParameterNames()) parameters.setOrAddParameter(n, p.getParameter(n)); }
boost::property_tree::ptree PythonInitialData::getDescription() const { return boost::property_tree::ptree(); }
void PythonInitialData::setInitialData(volume::Volume& v, volume::Volume& w, equation::CellComputer& cc, grid::Grid& g) {
    double a = 0; for (auto& n : parameters.getParameterNames()) if (n == "a") a = parameters.getParameter(n)[0]; const bool two = programString.find("second") != std::string::npos;
    const bool wrong = (badPart >= 0 && mc::rank() == badPart) || (badSample >= 0 && std::fabs(a - badSample) < 1e-12);
    if (wrong && nonStandard) throw std::logic_error("the initial data is wrong");
    simx::CellData([&](int var, int i, int j, int) { return wrong && (i + j) % 2 ? NAN : 1 + 0.25 * std::sin(i + 0.5 * j + (two ? 1 : 0)) + 0.125 * a + 0.1 * var; }).setInitialData(v, w, cc, g);
}
}}
static int finalizes = 0;
extern "C" { int __real_MPI_Finalize(void); int __wrap_MPI_Finalize(void) { ++finalizes; return __real_MPI_Finalize(); } }
// ---- what was written
struct Written { std::map<std::string, Vec> v; std::map<std::string, std::vector<long long>> dims; bool open = false; };
static std::map<std::string, Written> readAll() { std::map<std::string, Written> r; for (auto& f : fpn::files()) { auto s = f.first.rfind('/'); auto& w = r[s == std::string::npos ? f.first : f.first.substr(s + 1)]; w.open = f.second.open; for (auto& x : f.second.vars) { w.v[x.name] = x.data; for (size_t i = 0; i < x.data.size(); ++i) if (i < x.written.size() && x.written[i] != 1 && x.dims.size() == 3) w.v[x.name][i] = NAN; for (int d : x.dims) w.dims[x.name].push_back(f.second.dims[d].second); } } return r; }
static std::string compare(const std::map<std::string, Written>& got, const std::map<std::string, Written>& want) {
    for (auto& f : want) { auto g = got.find(f.first); if (g == got.end()) return f.first + " is missing"; if (g->second.open) return f.first + " is not closed"; for (auto& v : f.second.v) { auto x = g->second.v.find(v.first); if (x == g->second.v.end()) return f.first + ": " + v.first + " is missing"; if (g->second.dims.at(v.first) != f.second.dims.at(v.first)) return f.first + ": " + v.first + " has another shape"; for (size_t i = 0; i < v.second.size(); ++i) if (!(std::fabs(x->second.at(i) - v.second[i]) <= 1e-9 * (1 + std::fabs(v.second[i])))) return hx::cat(f.first, ": ", v.first, " is ", x->second[i], " instead of ", v.second[i], " in cell ", i); } }
    for (auto& f : got) if (!want.count(f.first)) return f.first + " was not asked for"; hx::count("states"); return "";
}
// ---- one execution of a program, in a process of its own
struct Out { int ended = -1; bool signalled = false; std::vector<int> status; std::string text, verdict, reports, clean; int files = 0, finals = 0; };
static std::string slurp(const std::string& f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static std::vector<std::string> listing(const std::string& d) { std::vector<std::string> r; if (DIR* p = opendir(d.c_str())) { while (auto* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); } std::sort(r.begin(), r.end()); return r; }
struct Ref { std::map<std::string, Written> files; long steps = 0; std::string name; };
static Out execute(bool uq, int ranks, const Args& args, const mc::Policy& pol, const Ref* ref, bool oneInput) {
    static int serial = 0; const std::string dir = hx::scratch() + hx::cat("/run", serial++); mkdir(dir.c_str(), 0755); int p[2]; if (pipe(p)) exit(2); fflush(stdout); fflush(stderr); const pid_t c = fork();
    if (c == 0) {
        close(p[0]); if (chdir(dir.c_str())) _exit(3); int q = open("out.txt", O_WRONLY | O_CREAT, 0644); dup2(q, 1); dup2(q, 2); for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM}) signal(s, SIG_DFL); std::set_terminate([] { std::abort(); }); alarm(60); fpn::reset(); finalizes = 0;
        auto say = [&](const std::string& s) { std::string t = s; for (auto& x : t) if (x == '\n') x = ' '; t += '\n'; if (::write(p[1], t.data(), t.size())) {} }; std::vector<int> st(ranks, -1);
        auto e = mc::run(ranks, pol, {}, [&](int r) { Args a = args; a.insert(a.begin(), uq ? "/usr/bin/alsuqcli" : "/usr/bin/alsvinncli"); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); st[r] = uq ? alsuqcli_main(int(a.size()), v.data()) : alsvinncli_main(int(a.size()), v.data()); });
        for (int r = 0; r < ranks; ++r) say(hx::cat("status ", st[r])); say(hx::cat("clean ", e.clean() ? "yes" : e.what())); say(hx::cat("files ", fpn::files().size())); say(hx::cat("finals ", finalizes)); if (ref) say("verdict " + compare(readAll(), ref->files)); std::cout << std::flush; fflush(stdout); _exit(0);
    }
    close(p[1]); std::string all; char b[4096]; for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) all.append(b, k); close(p[0]); int st = 0; waitpid(c, &st, 0); Out o; o.signalled = WIFSIGNALED(st); o.ended = o.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
    std::istringstream s(all); for (std::string l; std::getline(s, l);) { auto sp = l.find(' '); auto k = l.substr(0, sp), v = l.substr(sp + 1); if (k == "status") o.status.push_back(atoi(v.c_str())); else if (k == "clean") o.clean = v; else if (k == "verdict") o.verdict = v; else if (k == "files") o.files = atoi(v.c_str()); else if (k == "finals") o.finals = atoi(v.c_str()); }
    o.text = slurp(dir + "/out.txt"); const std::string prog = uq ? "alsuqcli" : "alsvinncli";
    for (auto& f : listing(dir)) if (f.find("_report.") != std::string::npos) o.reports += f + ";";
    if (ref && !o.signalled && o.ended == 0) { const std::string base = dir + "/" + prog + "_" + ref->name + "_report"; if (o.reports != prog + "_" + ref->name + "_report.json;" + prog + "_" + ref->name + "_report.xml;") { if (o.verdict.empty()) o.verdict = "the run report is missing: " + o.reports; } else for (int k = 0; k < 2 && o.verdict.empty(); ++k) try { boost::property_tree::ptree t; if (k) boost::property_tree::read_xml(base + ".xml", t); else boost::property_tree::read_json(base + ".json", t);
        if (t.get<std::string>("report.executable") != prog) o.verdict = "the report names " + t.get<std::string>("report.executable"); else if (t.get<std::string>("report.name") != ref->name) o.verdict = "the report gives the name " + t.get<std::string>("report.name"); else if (ref->steps >= 0 && t.get<long>("report.timesteps") != ref->steps) o.verdict = hx::cat("the report gives ", t.get<long>("report.timesteps"), " time steps instead of ", ref->steps); else if (t.get<long>("report.timesteps") <= 0) o.verdict = "the report gives no time steps"; for (auto& a : args) if (o.verdict.empty() && t.get<std::string>("report.command").find(a) == std::string::npos) o.verdict = "the report does not give the command line"; } catch (std::exception& e) { o.verdict = std::string("the run report cannot be read: ") + e.what(); } }
    for (auto& f : listing(dir)) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); hx::count("executions"); hx::count("transitions"); (void)oneInput; return o;
}
static std::string done(const Out& o, int ranks) { if (o.signalled) return hx::cat("the program ends with signal ", o.ended, ": ", o.text.substr(0, 300)); if (o.ended) return hx::cat("the program ends with status ", o.ended, ": ", o.text.substr(0, 300)); if (o.clean != "yes") return o.clean; for (int s : o.status) if (s) return hx::cat("exit status ", s, ": ", o.text.substr(0, 300)); if (!o.verdict.empty()) return o.verdict; if (o.finals != ranks) return hx::cat("MPI_Finalize was called ", o.finals, " times by ", ranks, " processes"); return ""; }
// started: the configuration may have been run in part
static std::string refused(const Out& o, bool started, bool usage, bool orderly) {
    bool bad = o.signalled || o.ended != 0; if (!o.signalled && !o.ended) for (int s : o.status) bad = bad || (s != 0 && s != -1); if (!bad && o.clean != "yes" && o.clean.find("failed") != std::string::npos) bad = true; if (!bad) return hx::cat("the exit status is success (", o.clean, ")");
    if (o.signalled && o.ended != SIGABRT) return hx::cat("the program ends with signal ", o.ended); if (o.text.find_first_not_of(" \n\t#") == std::string::npos && o.clean.find("failed") == std::string::npos && !o.signalled) return "no message is printed"; if (usage && o.signalled) return "the program aborts instead of explaining its usage"; if (orderly && o.signalled) return "the program aborts"; if (orderly && o.clean.find("failed") != std::string::npos) return "an exception leaves the program: " + o.clean.substr(0, 200); if (usage && o.text.find("Usage") == std::string::npos) return "the usage is not explained"; if (!o.reports.empty()) return "a run report is written: " + o.reports; if (!started && o.files) return "output is written"; hx::count("states"); return "";
}
static void put(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
static int cmpInt(const std::string& s) { return atoi(s.c_str()); }
int main(int argc, char** argv) {
    hx::init(argc, argv); hx::quietLog(); const bool T = hx::thorough; const auto all = mc::Policy::all(true); const std::string S = hx::scratch(); mkdir((S + "/conf").c_str(), 0755); mkdir((S + "/conf/sub").c_str(), 0755);
    const I3 n{{6, 4, 1}}; const int N = 4; auto c = cfgs::mk(2, "burgers", "rusanov", "none"); c.n = n; c.upper[2] = 0; c.endTime = 0.6; c.writer = "<writer><type>netcdf</type><basename>out</basename><numberOfSaves>2</numberOfSaves></writer>";
    auto two = [&](std::string x, const std::string& a, const std::string& b) { auto p = x.find(a); if (p == std::string::npos) { std::fprintf(stderr, "no %s\n", a.c_str()); exit(2); } return x.replace(p, a.size(), b); };
    auto uqNode = [&](const std::string& x, int N) { return two(x, "</config>", hx::cat("<uq><samples>", N, "</samples><generator>auto</generator><parameters><parameter><name>a</name><length>1</length><type>uniform1d</type><a>0</a><b>1</b></parameter></parameters><stats><stat><name>meanvar</name><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>mv</basename></writer></stat></stats></uq></config>")); };
    std::string name = "the_run"; const std::string plain = c.xml(); c.writer = "<writer><type>netcdf</type><basename>out</basename><numberOfSaves>3</numberOfSaves><writeInitialTimestep>1</writeInitialTimestep></writer>"; c.functionals = "<functionals><functional><name>identity</name><numberOfSaves>2</numberOfSaves><writer><type>netcdf</type><basename>f0</basename></writer></functional><functional><name>identity</name><time>0.3</time><timeRadius>0.2</timeRadius><numberOfSaves>1</numberOfSaves><writer><type>netcdf</type><basename>f1</basename></writer></functional></functionals>";
    auto named = [&](std::string x) { auto a = x.find("<name>"), b = x.find("</name>"); return x.substr(0, a) + "<name>" + name + x.substr(b); }; const std::string u = named(plain); std::string x = c.xml(); { auto a = x.find("<name>"), b = x.find("</name>"); x = x.substr(0, a) + "<name>" + name + x.substr(b); } std::string y = two(c.xml(), "<basename>out</basename>", "<basename>other</basename>");
    put(S + "/conf/init.py", "first\n"); put(S + "/conf/sub/init.py", "second\n"); put(S + "/conf/name.txt", "loaded_name"); put(S + "/conf/run.xml", x); put(S + "/conf/sub/run.xml", x); put(S + "/conf/other.xml", y); put(S + "/conf/loaded.xml", two(x, "<name>the_run</name>", "<name>load:name.txt</name>"));
    put(S + "/conf/uq.xml", uqNode(u, N)); put(S + "/conf/sub/uq.xml", uqNode(u, N));
    // ---- the same runs through the library, on one process
    auto reference = [&](bool uq, const std::string& file, const std::string& name) { Ref r; r.name = name; fpn::reset(); auto e = mc::run(1, all[0], {}, [&](int) { if (uq) { auto conf = std::make_shared<alsutils::mpi::Configuration>(MPI_COMM_WORLD); auto run = alsuq::config::Setup().makeRunner(file, conf, 1, alsutils::ivec3(1, 1, 1)); run->run(); r.steps = long(run->getTimestepsPerformedTotal()); } else { auto s = simx::makeMpi(file, MPI_COMM_WORLD, 1, 1, 1); s.sim->setInitialValue(s.init); s.sim->callWriters(); while (!s.sim->atEnd()) { s.sim->performStep(); ++r.steps; } s.sim->finalize(); } }); if (!e.clean()) { std::fprintf(stderr, "HARNESS-ERROR reference run: %s\n", e.what().c_str()); std::exit(2); } r.files = readAll(); fpn::reset(); return r; };
    for (int uq = 0; uq < 2; ++uq) {
        const std::string prog = uq ? "alsuqcli" : "alsvinncli", F = S + (uq ? "/conf/uq.xml" : "/conf/run.xml"); const Ref ref = reference(uq, F, name), sub = reference(uq, S + (uq ? "/conf/sub/uq.xml" : "/conf/sub/run.xml"), name);
        { if (hx::begin(prog + "-references")) { if (ref.files.size() < 2 || ref.steps < 8) hx::viol("cli:harness", hx::cat("the reference has ", ref.files.size(), " files and ", ref.steps, " steps")); if (compare(ref.files, sub.files).empty()) hx::viol("cli:harness", "the scripts are not told apart"); } }
        // every combination of the sizes (and of the automatic flags)
        const Args vals{"", "1", "2", "3", "0", "-1", "-2", "4"}; const size_t nv = T ? vals.size() : 7; std::vector<Args> autos{{}}; if (!uq) { for (auto a : {"-x", "-y", "-z", "--automatic-x", "--automatic-y", "--automatic-z"}) autos.push_back({a}); autos.push_back({"-x", "-y"}); autos.push_back({"-y", "-x"}); }
        for (int ranks = 1; ranks <= (T ? 6 : 4); ++ranks) for (size_t au = 0; au < autos.size(); ++au) for (size_t vm = 0; vm < (uq ? nv : 1); ++vm) for (size_t vx = 0; vx < nv; ++vx) for (size_t vy = 0; vy < nv; ++vy) for (size_t vz = 0; vz < nv; ++vz) {
            if (au && (vx > 2 || vy > 2 || vz > 1)) continue; if (uq && !T && (vz > 2 && vz != 5)) continue; if (uq && !T && vm > 2 && (vx > 2 || vy > 2)) continue;
            long px = vals[vx].empty() ? 1 : cmpInt(vals[vx]), py = vals[vy].empty() ? 1 : cmpInt(vals[vy]), pz = vals[vz].empty() ? 1 : cmpInt(vals[vz]), ms = vals[vm].empty() ? 1 : cmpInt(vals[vm]);
            if (!au && px * py * pz * ms != ranks && (vx + vy + vz + vm + ranks) % 5 && px * py * pz * ms != 0) continue;   // most of those that need another number of processes
            if (!hx::begin(hx::cat(prog, "-on", ranks, "-auto", au, "-", vals[vm], "x", vals[vx], "x", vals[vy], "x", vals[vz]))) continue; if (hx::timeUp()) break;
            Args a; const bool eq = (vx + vy + vz) % 2, first = (vx + vy + au) % 3 == 0; if (first) a.push_back(F); auto opt = [&](const char* o, size_t v) { if (vals[v].empty()) return; if (eq) a.push_back(std::string(o) + "=" + vals[v]); else { a.push_back(o); a.push_back(vals[v]); } }; if (uq) opt("--multi-sample", vm); opt("--multi-x", vx); for (auto& q : autos[au]) a.push_back(q); opt("--multi-y", vy); opt("--multi-z", vz); if (!first) a.push_back(F);
            if (!eq) for (auto& v : a) if (v.size() > 1 && v[0] == '-' && isdigit(v[1])) { /* "--multi-x -1" may be read as an option */ }
            bool ok; if (au) { ok = false; bool every = true; for (auto& f : autos[au]) { const char d = f.back(); I3 q{{d == 'x' ? ranks : 1, d == 'y' ? ranks : 1, d == 'z' ? ranks : 1}}; bool one = true; for (int k = 0; k < 3; ++k) one = one && n[k] % q[k] == 0 && (k == 0 || q[k] == 1 || n[k] > q[k]); ok = ok || one; every = every && one; } if (ok != every) { auto o = execute(uq, ranks, a, all[0], &ref, true); if (!done(o, ranks).empty() && !refused(o, false, false, true).empty()) hx::viol("cli:" + prog, "neither done nor refused: " + done(o, ranks)); continue; } }
            else { ok = px > 0 && py > 0 && pz > 0 && ms > 0 && px * py * pz * ms == ranks && N % ms == 0; if (ok) { I3 q{{int(px), int(py), int(pz)}}; for (int k = 0; k < 3; ++k) ok = ok && n[k] % q[k] == 0 && (k == 0 || q[k] == 1 || n[k] > q[k]); } }
            Ref want = ref; if (uq && ms > 1) want.steps = -1; auto o = execute(uq, ranks, a, all[(vx + ranks) % all.size()], &want, true); const std::string bad = ok ? done(o, ranks) : refused(o, false, false, true); std::string line; for (auto& q : a) if (q != F) line += q + " "; if (!bad.empty()) hx::viol("cli:" + prog, hx::cat(ranks, " processes, ", line, ok ? "should run: " : "should be refused: ", bad)); hx::sample(hx::current());
        }
        // command lines and files that are wrong
        { struct B { std::string what; Args a; bool usage; }; const std::string D = S + "/conf/"; put(D + "empty.xml", ""); put(D + "broken.xml", "<config><fvm></config>"); put(D + "text.xml", "no xml at all"); put(D + "noend.xml", two(uq ? uqNode(u, N) : x, hx::cat("<endTime>", c.endTime, "</endTime>"), "")); put(D + "noflux.xml", two(uq ? uqNode(u, N) : x, "<flux>rusanov</flux>", "<flux>nonsense</flux>"));
          std::vector<B> bs{{"no arguments", {}, true}, {"only a number of processes", {"--multi-x", "1"}, true}, {"an unknown option", {"--unknown", F}, true}, {"an unknown short option", {"-q", F}, true}, {"a number that is none", {"--multi-x", "abc", F}, true}, {"a number that is fractional", {"--multi-x", "1.5", F}, true}, {"an empty number", {"--multi-x=", F}, true}, {"no number", {F, "--multi-x"}, true}, {"a number too large", {"--multi-x", "99999999999", F}, true}, {"an option given twice", {"--multi-x", "1", "--multi-x", "1", F}, true}, {"two files", {F, S + "/conf/other.xml"}, true}, {"an unknown option at the end", {F, "--nonsense=3"}, true}, {"a missing file", {D + "missing.xml"}, false}, {"a directory", {D}, false}, {"an empty file", {D + "empty.xml"}, false}, {"a broken file", {D + "broken.xml"}, false}, {"a text file", {D + "text.xml"}, false}, {"no end time", {D + "noend.xml"}, false}, {"an unknown flux", {D + "noflux.xml"}, false}, {"an empty name", {""}, false}};
          if (uq) bs.push_back({"a file without an ensemble", {S + "/conf/run.xml"}, false}); if (!uq) bs.push_back({"an option of the other program", {"--multi-sample", "1", F}, true});
          for (size_t k = 0; k < bs.size(); ++k) for (int ranks = 1; ranks <= 2; ++ranks) { if (!hx::begin(hx::cat(prog, "-wrong-", k, "-on", ranks))) continue; Args a = bs[k].a; if (ranks == 2 && !bs[k].usage) { a.push_back("--multi-x"); a.push_back("2"); } auto o = execute(uq, ranks, a, all[0], nullptr, false); auto bad = refused(o, false, bs[k].usage, true); if (!bad.empty()) hx::viol("cli:wrong", prog + ", " + bs[k].what + ": " + bad); }
          for (auto& a : std::vector<Args>{{"--help"}, {"--help", F}, {F, "--help"}}) { if (!hx::begin(hx::cat(prog, "-help-", a.size(), a[0].size()))) continue; auto o = execute(uq, 1, a, all[0], nullptr, false); if (o.signalled || o.text.find("Usage") == std::string::npos || o.text.find("multi-x") == std::string::npos || o.files || !o.reports.empty()) hx::viol("cli:help", prog + ": the help is not given: " + o.text.substr(0, 200)); hx::count("states"); } }
        // files elsewhere, and what they load
        { struct L { Args a; const Ref* r; int ranks; std::string name; }; Ref loaded, other; std::vector<L> ls{{{S + (uq ? "/conf/sub/uq.xml" : "/conf/sub/run.xml")}, &sub, 1, ""}, {{std::string("../conf/sub/") + (uq ? "uq.xml" : "run.xml")}, &sub, 1, ""}, {{std::string("../conf/") + (uq ? "uq.xml" : "run.xml"), "--multi-y", "2"}, &ref, 2, ""}}; if (!uq) { loaded = reference(false, S + "/conf/loaded.xml", "loaded_name"); ls.push_back({{S + "/conf/loaded.xml"}, &loaded, 1, ""}); ls.push_back({{S + "/conf/loaded.xml", "--multi-x=3"}, &loaded, 3, ""}); other = reference(false, S + "/conf/other.xml", ""); auto a = y.find("<name>") + 6; other.name = y.substr(a, y.find("</name>") - a); other.name.erase(0, other.name.find_first_not_of(" \n\t")); other.name.erase(other.name.find_last_not_of(" \n\t") + 1); ls.push_back({{S + "/conf/other.xml"}, &other, 1, ""}); }
          for (size_t k = 0; k < ls.size(); ++k) { if (!hx::begin(hx::cat(prog, "-file-", k))) continue; auto o = execute(uq, ls[k].ranks, ls[k].a, all[0], ls[k].r, false); auto bad = done(o, ls[k].ranks); if (!bad.empty()) hx::viol("cli:files", prog + ": " + ls[k].a[0] + ": " + bad); } }
        // a run that breaks down, on each process and in each sample
        for (int kind = 0; kind < 2; ++kind) for (int ranks : {1, 2, 4}) for (int part = 0; part < (uq ? N : ranks); ++part) { if (!hx::begin(hx::cat(prog, "-breaks-", kind, "-on", ranks, "-at", part))) continue; std::vector<Args> layouts; if (ranks == 1) layouts = {{}}; else if (ranks == 2) layouts = {{"--multi-x", "2"}, {"--multi-y", "2"}}; else layouts = {{"--multi-x", "2", "--multi-y", "2"}}; if (uq && ranks > 1) layouts.push_back({"--multi-sample", hx::cat(ranks)});
            for (auto a : layouts) for (int pol = 0; pol < (T ? 6 : 2); ++pol) { a.push_back(F); nonStandard = kind; if (uq) badSample = (part + 0.5) / N; else badPart = part; auto o = execute(uq, ranks, a, all[pol], nullptr, false); badSample = badPart = -1; nonStandard = false; auto bad = refused(o, true, false, !kind); if (!bad.empty()) hx::viol("cli:breaks", hx::cat(prog, " on ", ranks, " processes, ", uq ? "sample " : "process ", part, " breaks down: ", bad)); a.pop_back(); } }
    }
    return hx::finish();
}
