// C04: saves happen exactly at the requested times, each once, for every sequence of proposed steps.
#include "timerig.hpp"
#include "steprig.hpp"
using namespace rig;
struct Want { std::string base; int saves; bool initial; };
static std::string compare(const std::vector<double>& got, const std::vector<double>& want, double scale, const std::string& who) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        if (i >= got.size()) return hx::cat(who, ": save number ", i, " at time ", want[i], " is missing (", got.size(), " of ", want.size(), " written)");
        if (i >= want.size()) return hx::cat(who, ": additional save at time ", got[i]);
        if (!(std::fabs(got[i] - want[i]) <= 1e-12 * scale)) return hx::cat(who, ": save number ", i, " at time ", got[i], " instead of ", want[i]);
    }
    return "";
}
static std::vector<double> times(const simx::Recorder& r) { std::vector<double> t; for (auto& s : r.snaps) t.push_back(s.time); return t; }
// writerSaves 0: no XML writer; -1: a writer without numberOfSaves (every step)
static std::string runOne(double E, int writerSaves, int initial, const std::vector<int>& funSaves, const std::vector<int>& word, double start = 0) {
    simx::Cfg c; c.equation = "burgers"; c.flux = "rusanov"; c.n = {{4, 1, 1}}; c.upper = {{1e6 * E, 1, 1}}; c.endTime = E; std::vector<double> targets; std::vector<Want> w; (void)start;
    if (writerSaves) c.writer = hx::cat("<writer><type>RECORD</type><basename>w</basename>", writerSaves > 0 ? hx::cat("<numberOfSaves>", writerSaves, "</numberOfSaves>") : std::string(), initial >= 0 ? (initial ? "<writeInitialTimestep>true</writeInitialTimestep>" : "<writeInitialTimestep>false</writeInitialTimestep>") : "", "</writer>");
    if (writerSaves > 0) w.push_back({"w", writerSaves, initial > 0});
    if (!funSaves.empty()) { c.functionals = "<functionals>"; for (size_t i = 0; i < funSaves.size(); ++i) { c.functionals += hx::cat("<functional><name>identity</name><numberOfSaves>", funSaves[i], "</numberOfSaves><writer><type>RECORD</type><basename>f", i, "</basename></writer></functional>"); w.push_back({hx::cat("f", i), funSaves[i], true}); } c.functionals += "</functionals>"; }
    for (auto& x : w) for (int k = 1; k <= x.saves; ++k) targets.push_back(E * k / x.saves);
    TimedRun r(c, [](int, int i, int, int) { return 0.5 + 0.01 * i; }, word, targets, 20000); hx::count("executions"); hx::count("states", r.steps + 1); hx::count("transitions", r.steps); if (!r.bad.empty()) return r.bad;
    for (auto& x : w) { std::vector<double> want; for (int k = x.initial ? 0 : 1; k <= x.saves; ++k) want.push_back(E * k / x.saves); auto rec = r.wf->find(x.base); if (!rec) return "writer " + x.base + " was not created"; auto e = compare(times(*rec), want, E, x.base == "w" ? "writer" : "functional"); if (!e.empty()) return e;
        for (auto& s : rec->snaps) { bool found = false; for (auto& q : r.each->snaps) if (q.time == s.time) { found = true; if (simx::diff(q, s) > 1e-14) return hx::cat(x.base, " at time ", s.time, " does not hold the solution of that time"); } if (!found) return "saved at a time that is no step"; }
    }
    if (writerSaves < 0) { auto e = compare(times(*r.wf->find("w")), times(*r.each), E, "writer of every step"); if (!e.empty()) return e; }
    if (!w.empty() && !(r.finalTime <= E * (1 + 1e-12))) return hx::cat("the run ends at ", r.finalTime, ", past its last save");
    if (!(r.finalTime >= E * (1 - 1e-12))) return "the run ends too early"; return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; const int A = int(stepLetters().size());
    // every cyclic word of proposals
    struct C { double E; int w, init; std::vector<int> f; }; std::vector<C> cs;
    for (double E : {1.0, 0.7}) for (int init : {-1, 0, 1}) for (int w : {1, 3, 5}) { cs.push_back({E, w, init, {}}); cs.push_back({E, w, init, {2}}); cs.push_back({E, w, init, {4, 3}}); }
    for (double E : {0.3, 2.3}) { cs.push_back({E, 0, -1, {3}}); cs.push_back({E, 0, -1, {7, 5}}); cs.push_back({E, -1, -1, {3}}); cs.push_back({E, 6, 1, {4, 9}}); cs.push_back({E, -1, 0, {}}); }
    const int D = T ? 5 : 3;
    for (auto& c : cs) { if (!hx::begin(hx::cat("words-E", c.E, "-writer", c.w, "-initial", c.init, "-functionals", c.f.size(), c.f.empty() ? 0 : c.f[0]))) continue; if (hx::timeUp()) { hx::count("cap_cases"); continue; } std::string bad; for (long x = 0; x < power(A, D) && bad.empty(); ++x) { auto d = digits(x, A, D); bad = runOne(c.E, c.w, c.init, c.f, d); if (!bad.empty()) bad = "proposals " + showDigits(d) + ": " + bad; } if (!bad.empty()) hx::viol("saves", bad); hx::sample(hx::current()); }
    // many save counts and end times, constant proposals: rounding of save times
    std::vector<double> Es; for (double e : {1.0, 0.1, 0.3, 0.7, 1.1, 1.3, 1.9, 2.5, 3.3, 4.7, 0.05, 1e-3, 7.0, 1e3 / 3, 0.9, 17.3}) Es.push_back(e); if (T) for (int i = 1; i < 60; ++i) Es.push_back(i * 0.01);
    for (double E : Es) for (int half = 0; half < 4; ++half) { if (!hx::begin(hx::cat("rounding-E", E, "-", half))) continue; if (hx::timeUp()) { hx::count("cap_cases"); continue; } std::string bad;
        for (int N = 1 + half * 40; N <= 40 + half * 40 && bad.empty(); ++N) for (auto& wd : N <= 40 || T ? std::vector<std::vector<int>>{{6}, {2}, {4}, {5, 0}} : std::vector<std::vector<int>>{{6}}) { bad = runOne(E, N, N % 2, {}, wd); if (!bad.empty()) { bad = hx::cat(N, " saves, proposals ", showDigits(wd), ": ", bad); break; } }
        for (int N = 1 + half * 40; N <= 40 + half * 40 && bad.empty(); ++N) for (int M : N <= 40 || T ? std::vector<int>{N + 1, 2 * N, 3 * N + 1} : std::vector<int>{N + 1}) { bad = runOne(E, N, 1, {M}, {6}); if (!bad.empty()) { bad = hx::cat(N, " saves and a functional with ", M, ": ", bad); break; } }
        if (!bad.empty()) hx::viol("saves", bad); hx::sample(hx::current()); }
    return hx::finish();
}
