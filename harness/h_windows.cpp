// C06: time-averaged snapshots and functionals against the recorded steps, for every sequence of proposed steps; coarse saves.
#include "timerig.hpp"
#include "steprig.hpp"
using namespace rig;
struct Win { double t, r; int snaps; };      // snaps 0: every step counts
// what the window should hold: for every variable and cell the sum of (length of the step inside the window) * value at its end
struct Sum { double length = 0; std::vector<std::vector<double>> v; bool called = false; };
static std::string expect(const simx::Snapshots& s, const Win& w, double upTo, Sum& out, bool dropLast = false) {
    std::vector<size_t> calls; const double T = 1e-12 * (1 + upTo);
    if (!w.snaps) for (size_t k = 0; k < s.size(); ++k) calls.push_back(k);
    else { const double start = std::max(w.t - w.r, 0.0), step = w.r / w.snaps; for (int n = 1;; ++n) { double at = start + n * step; if (at > w.t + w.r + step * 1.5 || at > s.back().time + T) break; bool found = false; for (size_t k = 0; k < s.size() && !found; ++k) if (std::fabs(s[k].time - at) <= T) { calls.push_back(k); found = true; } if (!found && at <= w.t + w.r + T) return hx::cat("no step ends at the snapshot time ", at); } }
    // a run that ends within rounding of a snapshot time may or may not have seen it
    if (dropLast && !calls.empty() && w.snaps && calls.back() + 1 == s.size()) calls.pop_back();
    double last = 0; out = Sum(); out.v.assign(s[0].v.size(), std::vector<double>(s[0].v[0].size(), 0)); out.called = !calls.empty();
    for (size_t k : calls) { const double dt = std::min(s[k].time, w.t + w.r) - std::max(last, w.t - w.r); if (dt > 0) { out.length += dt; for (size_t a = 0; a < s[k].v.size(); ++a) for (size_t i = 0; i < s[k].v[a].size(); ++i) out.v[a][i] += dt * s[k].v[a][i]; } last = s[k].time; }
    return "";
}
static std::string runOne(double E, const std::vector<Win>& writers, const std::vector<Win>& funs, const std::vector<int>& word) {
    simx::Cfg c; c.equation = "linear"; c.flux = "upwind"; c.n = {{5, 1, 1}}; c.upper = {{100 * E, 1, 1}}; c.endTime = E; c.cfl = "0.9"; std::vector<double> targets;
    auto node = [](const Win& w) { return hx::cat("<time>", w.t, "</time><timeRadius>", w.r, "</timeRadius>", w.snaps ? hx::cat("<numberOfSnapshots>", w.snaps, "</numberOfSnapshots>") : std::string()); };
    if (!writers.empty()) c.writer = "<writer><type>RECORD</type><basename>w</basename>" + node(writers[0]) + "</writer>";
    if (!funs.empty()) { c.functionals = "<functionals>"; for (size_t i = 0; i < funs.size(); ++i) c.functionals += "<functional><name>identity</name>" + node(funs[i]) + hx::cat("<writer><type>RECORD</type><basename>f", i, "</basename></writer></functional>"); c.functionals += "</functionals>"; }
    auto all = writers; all.insert(all.end(), funs.begin(), funs.end()); for (auto& w : all) { targets.push_back(w.t - w.r); targets.push_back(w.t); targets.push_back(w.t + w.r); } targets.push_back(E);
    TimedRun r(c, [](int, int i, int, int) { return 1 + 0.5 * std::sin(2.0 * i) + i; }, word, targets); hx::count("executions"); hx::count("states", r.steps + 1); hx::count("transitions", r.steps); if (!r.bad.empty()) return r.bad; auto& S = r.each->snaps;
    for (size_t q = 0; q < all.size(); ++q) { const bool isW = q < writers.size(); const std::string base = isW ? "w" : hx::cat("f", q - writers.size()); auto rec = r.wf->find(base); if (!rec) return "writer not created"; Sum want; auto e = expect(S, all[q], E, want); if (!e.empty()) return base + ": " + e;
        auto judge = [&](const Sum& want) -> std::string {
        const bool covered = want.length > 0; if (rec->snaps.size() > 1) return base + ": the window is written twice"; if (covered && rec->snaps.empty()) return base + ": the window is not written"; if (isW && !covered && !rec->snaps.empty()) return base + ": a window that was never entered is written"; if (rec->snaps.empty()) return std::string();
        auto& got = rec->snaps[0]; if (isW && got.time != all[q].t) return hx::cat(base, ": written for time ", got.time, " instead of ", all[q].t);
        for (size_t a = 0; a < got.v.size(); ++a) for (size_t i = 0; i < got.v[a].size(); ++i) { double x = want.v[a][i]; if (isW) x /= want.length; if (!(simx::relDiff(got.v[a][i], x, isW ? 1 : want.length + 1e-3) < 1e-10)) return hx::cat(base, ": cell ", i, " is ", got.v[a][i], " instead of ", x); }
            return std::string();
        };
        auto bad = judge(want); if (!bad.empty()) { Sum other; expect(S, all[q], E, other, true); if (!judge(other).empty()) return bad; }
    }
    return "";
}
static std::string coarse(double E, int N, int c, int s, double h, const std::vector<int>& word) {
    simx::Cfg k; k.equation = "burgers"; k.flux = "rusanov"; k.n = {{4, 1, 1}}; k.upper = {{4 * h, 1, 1}}; k.endTime = E; k.writer = hx::cat("<writer><type>RECORD</type><basename>w</basename><numberOfSaves>", N, "</numberOfSaves><numberOfCoarseSaves>", c, "</numberOfCoarseSaves><numberOfSkips>", s, "</numberOfSkips></writer>");
    std::vector<double> want{0}; const bool overlap = 2 * c * (s + 1) * h >= E / N; for (int n = 1; n <= N; ++n) for (int j = -c; j <= c; ++j) if (n < N || j <= 0) want.push_back(n * E / N + j * (s + 1) * h);
    TimedRun r(k, [](int, int i, int, int) { return 1e-7 * (1 + 0.01 * i); }, word, want, 20000); hx::count("executions"); hx::count("states", r.steps + 1); hx::count("transitions", r.steps);
    if (overlap) return r.threw ? "" : r.bad.empty() ? "overlapping coarse saves are accepted" : r.bad; if (!r.bad.empty()) return r.bad;
    auto rec = r.wf->find("w"); for (size_t i = 0; i < std::max(want.size(), rec->snaps.size()); ++i) { if (i >= rec->snaps.size()) return hx::cat("coarse save ", i, " at ", want[i], " is missing"); if (i >= want.size()) return hx::cat("additional coarse save at ", rec->snaps[i].time); if (!(std::fabs(rec->snaps[i].time - want[i]) < 1e-12 * E)) return hx::cat("coarse save ", i, " at ", rec->snaps[i].time, " instead of ", want[i]); }
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; const int A = int(stepLetters().size()), D = T ? 4 : 2;
    auto each = [&](const std::string& name, const std::function<std::string(const std::vector<int>&)>& f, int depth) { if (!hx::begin(name)) return; if (hx::timeUp()) { hx::count("cap_cases"); return; } std::string bad; for (long x = 0; x < power(A, depth) && bad.empty(); ++x) { auto d = digits(x, A, depth); bad = f(d); if (!bad.empty()) bad = "proposals " + showDigits(d) + ": " + bad; } if (!bad.empty()) hx::viol(name.substr(0, name.find('-')), bad); hx::sample(name); };
    const double ts[] = {0, 0.2, 0.5, 0.97, 1, 1.3, 3}, rs[] = {0.05, 0.3, 0.5, 1}; const int ns[] = {0, 1, 2, 3, 5};
    for (double t : ts) for (double r : rs) for (int n : ns) { Win w{t, r, n};
        each(hx::cat("writer-t", t, "-r", r, "-n", n), [&](const std::vector<int>& d) { return runOne(1, {w}, {}, d); }, D + (T || r < 0.4 || n == 2));
        each(hx::cat("functional-t", t, "-r", r, "-n", n), [&](const std::vector<int>& d) { return runOne(1, {}, {w}, d); }, D + (T || r > 0.4 || n == 1));
        for (double t2 : {0.4, 0.5, 1.2}) for (int n2 : {0, 2}) { if (!T && int(10 * t2 + n2 + n + 20 * r) % 2) continue; Win v{t2, 0.25, n2}; each(hx::cat("both-t", t, "-r", r, "-n", n, "-and", t2, "-n", n2), [&](const std::vector<int>& d) { return runOne(1, {w}, {v, w}, d); }, D); } }
    for (double E : {1.0, 0.7, 2.3}) for (int N : {1, 2, 3, 5}) for (int c : {0, 1, 2, 3}) for (int s : {0, 1, 2}) for (double h : {0.01, 0.03, 0.05, 0.125}) each(hx::cat("coarse-E", E, "-N", N, "-c", c, "-s", s, "-h", h), [&](const std::vector<int>& d) { return coarse(E, N, c, s, h, d); }, T ? 3 : 1);
    return hx::finish();
}
