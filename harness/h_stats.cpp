// C22: every statistic equals the average over the samples of its defining formula, at every time, for every small state.
#include "rig.hpp"
#include "steprig.hpp"
#include "mcx.hpp"
#include "alsuq/stats/StatisticsFactory.hpp"
#include "alsuq/mpi/Configuration.hpp"
#include <mpi.h>
using namespace rig;
typedef std::map<std::string, std::string> Par;
struct Pic { I3 n; std::vector<std::string> names; std::vector<Vec> v; double at(int a, int i, int j, int k) const { return v[a][i + size_t(n[0]) * (j + size_t(n[1]) * k)]; } };
struct St { std::string name; Par p; };
static double num(const Par& p, const char* k) { return atof(p.at(k).c_str()); }
static std::string S(double x) { return hx::cat(x); }
static std::string show(const St& f) { std::string s = f.name; for (auto& x : f.p) s += " " + x.first + "=" + x.second; return s; }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-11 * std::max(scale, std::fabs(b)); }
static double absPow(double x, double p) { x = std::fabs(x); if (p == std::floor(p) && p <= 12) { double r = 1; for (int i = 0; i < int(p); ++i) r *= x; return r; } return std::pow(x, p); }
typedef std::map<std::string, std::vector<Vec>> Out;     // output name -> variable -> values
// the defining formula for one sample
static Out define(const St& f, const Pic& s, bool periodic) {
    const int V = int(s.v.size()); const I3 n = s.n; const size_t N = size_t(n[0]) * n[1] * n[2]; const int D = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; Out r;
    auto each = [&](const std::function<void(int, int, int)>& g) { for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) g(i, j, k); };
    auto val = [&](int a, int i, int j, int k, bool per) { I3 x{{i, j, k}}; for (int d = 0; d < 3; ++d) x[d] = per ? wrap(x[d], n[d]) : std::max(0, std::min(x[d], n[d] - 1)); return s.at(a, x[0], x[1], x[2]); };
    for (int a = 0; a < V; ++a) {
        auto put = [&](const std::string& name, const Vec& v) { r[name].resize(V); r[name][a] = v; };
        if (f.name == "meanvar") { Vec m(N), q(N); for (size_t c = 0; c < N; ++c) { m[c] = s.v[a][c]; q[c] = m[c] * m[c]; } put("mean", m); put("variance", q); }       // the second moment; the caller turns it into the variance
        else if (f.name == "onepointmoment") { Vec m(N); const int p = int(num(f.p, "p")); for (size_t c = 0; c < N; ++c) { m[c] = 1; for (int i = 0; i < p; ++i) m[c] *= s.v[a][c]; } put("m" + f.p.at("p"), m); }
        else if (f.name == "bv") { long double t = 0; each([&](int i, int j, int k) { if (i < 1 || (n[1] > 1 && j < 1)) return; double dx = s.at(a, i, j, k) - s.at(a, i - 1, j, k), dy = n[1] > 1 ? s.at(a, i, j, k) - s.at(a, i, j - 1, k) : 0; t += absPow(std::hypot(dx, dy), num(f.p, "p")); }); put("bv_" + f.p.at("p"), {double(t)}); }
        else if (f.name == "bv_direction") { for (int d = 0; d < 3; ++d) { long double t = 0; each([&](int i, int j, int k) { I3 x{{i, j, k}}, y = x; if (!x[d]) return; --y[d]; t += absPow(s.at(a, i, j, k) - s.at(a, y[0], y[1], y[2]), num(f.p, "p")); }); put(std::string("bv_") + "xyz"[d] + "_" + f.p.at("p"), {double(t)}); } }
        else { const int H = int(num(f.p, "numberOfH")); const double p = f.p.count("p") ? num(f.p, "p") : 0;
            if (f.name == "structure_2pt") { const int d1 = int(num(f.p, "direction1")), d2 = int(num(f.p, "direction2")); Vec o(H * H); for (int h1 = 0; h1 < H; ++h1) for (int h2 = 0; h2 < H; ++h2) { long double t = 0; each([&](int i, int j, int k) { double u = s.at(a, i, j, k), u1 = val(a, i + h1 * (d1 == 0), j + h1 * (d1 == 1), k + h1 * (d1 == 2), false), u2 = val(a, i + h2 * (d2 == 0), j + h2 * (d2 == 1), k + h2 * (d2 == 2), false); t += (u1 - u) * (u1 - u) * (u2 - u); }); o[h1 + H * h2] = double(t / N); } put("structure_2pt", o); continue; }
            Vec o(H, 0.0); for (int q = 0; q < H; ++q) { long double t = 0; each([&](int i, int j, int k) { const double u = s.at(a, i, j, k);
                if (f.name == "structure_basic") { const int d = int(num(f.p, "direction")); t += absPow(u - val(a, i + q * (d == 0), j + q * (d == 1), k + q * (d == 2), periodic), p); return; }
                if (!q) return; for (int z = D > 2 ? -q : 0; z <= (D > 2 ? q : 0); ++z) for (int y = D > 1 ? -q : 0; y <= (D > 1 ? q : 0); ++y) for (int x = -q; x <= q; ++x) if (std::max(std::abs(x), std::max(std::abs(y), std::abs(z))) == q) t += absPow(u - val(a, i + x, j + y, k + z, periodic), p); });
                o[q] = double(t / N); }
            put(f.name + "_" + std::to_string(p), o); }
    }
    return r;
}
static I3 sizeOf(const St& f, const I3& n) { if (f.name == "meanvar" || f.name == "onepointmoment") return n; if (f.name.substr(0, 2) == "bv") return {{1, 1, 1}}; const int H = int(num(f.p, "numberOfH")); return {{H, f.name == "structure_2pt" ? H : 1, 1}}; }
static std::vector<St> catalogue(I3 n, bool T) {
    std::vector<St> r; const int D = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; r.push_back({"meanvar", {}}); for (int p = 1; p <= 4; ++p) r.push_back({"onepointmoment", {{"p", S(p)}}});
    for (int p = 1; p <= 3; ++p) { if (D < 3) r.push_back({"bv", {{"p", S(p)}}}); r.push_back({"bv_direction", {{"p", S(p)}}}); }
    for (double p : {1.0, 2.0, 3.0, 0.5}) for (int d = 0; d < D; ++d) r.push_back({"structure_basic", {{"p", S(p)}, {"direction", S(d)}, {"numberOfH", S(p == 1 ? n[d] + 1 : p == 2 ? 1 : T ? n[d] : 2)}}});
    for (double p : {1.0, 2.0, 3.0, 2.5}) r.push_back({"structure_cube", {{"p", S(p)}, {"numberOfH", S(p == 1 ? 4 : p == 2 ? 1 : p == 3 ? 3 : 2)}}});
    for (int d = 0; d < D; ++d) for (int e = 0; e < D; ++e) r.push_back({"structure_2pt", {{"direction1", S(d)}, {"direction2", S(e)}, {"numberOfH", S(d == e ? n[d] + 1 : T ? 3 : 2)}}});
    return r;
}
static Vec letter(const std::string& eq, int l) { if (eq.substr(0, 5) != "euler") return {l == 0 ? 0.5 : l == 1 ? -1.25 : 2}; int d = eq[5] - '0'; Vec w; w.push_back(l == 0 ? 1 : l == 1 ? 0.4 : 2.5); for (int i = 0; i < d; ++i) w.push_back((l - 0.7) * (i + 1) * 0.6); w.push_back(l == 0 ? 0.8 : l == 1 ? 3 : 1.1); return simx::eulerConserved(w, 1.4); }
static Pic pic(const std::string& eq, I3 n, const std::vector<std::string>& names, const std::vector<int>& word) { Pic p; p.n = n; p.names = names; const size_t N = size_t(n[0]) * n[1] * n[2]; p.v.assign(names.size(), Vec(N)); for (size_t c = 0; c < N; ++c) { Vec s = letter(eq, word[c]); for (size_t a = 0; a < names.size(); ++a) p.v[a][c] = s[a]; } return p; }
static bool threw(const std::function<void()>& f) { try { f(); } catch (std::exception&) { return true; } return false; }
typedef std::vector<std::vector<Pic>> Ens;      // sample -> time
struct Made { std::shared_ptr<alsuq::stats::Statistics> st; std::map<std::string, std::shared_ptr<simx::Recorder>> rec; };
static Made make(const St& f, int samples, MPI_Comm comm) {
    boost::property_tree::ptree t; for (auto& x : f.p) t.put(x.first, x.second); alsuq::stats::StatisticsParameters sp(t); sp.setMpiConfiguration(alsfvm::make_shared<alsutils::mpi::Configuration>(comm, "cpu")); sp.setNumberOfSamples(samples); sp.setPlatform("cpu");
    Made m; m.st = alsuq::stats::StatisticsFactory().makeStatistics("cpu", f.name, sp); for (auto& n : m.st->getStatisticsNames()) { auto r = std::make_shared<simx::Recorder>(); m.rec[n] = r; std::shared_ptr<alsfvm::io::Writer> w = r; m.st->addWriter(n, w); } return m;
}
static const double times[] = {0, 0.3, 0.7};
static void feed(Made& m, Parts& P, Vol& in, int ghost, const std::vector<Pic>& sample) {
    for (size_t t = 0; t < sample.size(); ++t) { in.fill(ghost ? NAN : 0); in.eachInner([&](int i, int j, int k) { for (int a = 0; a < in.vars(); ++a) in.at(a, i, j, k) = sample[t].at(a, i, j, k); }); m.st->computeStatistics(*in.v, *P.grid, simulator::TimestepInformation(times[t], t)); }
}
static std::string compare(const St& f, const Made& m, const Ens& e, bool periodic) {
    const size_t T = e[0].size(); const I3 z = sizeOf(f, e[0][0].n); bool first = true;
    for (size_t t = 0; t < T; ++t) {
        Out want; std::map<std::string, double> scale; for (auto& s : e) { auto o = define(f, s[t], periodic); for (auto& x : o) { auto& w = want[x.first]; w.resize(x.second.size()); for (size_t a = 0; a < w.size(); ++a) { w[a].resize(x.second[a].size()); for (size_t c = 0; c < w[a].size(); ++c) { w[a][c] += x.second[a][c] / e.size(); scale[x.first] = std::max(scale[x.first], std::fabs(x.second[a][c])); } } } }
        if (f.name == "meanvar") for (size_t a = 0; a < want["mean"].size(); ++a) for (size_t c = 0; c < want["mean"][a].size(); ++c) { long double v = 0; for (auto& s : e) v += std::pow((long double)(s[t].v[a][c] - want["mean"][a][c]), 2); want["variance"][a][c] = double(v / e.size()); }
        if (first) { first = false; if (want.size() != m.rec.size()) return hx::cat(m.rec.size(), " outputs instead of ", want.size()); for (auto& x : want) { if (!m.rec.count(x.first)) return "no output called " + x.first; if (m.rec.at(x.first)->snaps.size() != T) return hx::cat(x.first, " written ", m.rec.at(x.first)->snaps.size(), " times instead of ", T); } }
        for (auto& x : want) { auto& s = m.rec.at(x.first)->snaps[t]; if (s.time != times[t]) return hx::cat(x.first, " written for time ", s.time, " instead of ", times[t]); for (int d = 0; d < 3; ++d) if (s.n[d] != z[d]) return hx::cat(x.first, " has ", s.n[d], " values in direction ", d, " instead of ", z[d]);
            if (s.v.size() != x.second.size()) return hx::cat(x.first, ": ", s.v.size(), " variables"); for (size_t a = 0; a < s.v.size(); ++a) { if (s.names[a] != e[0][0].names[a]) return x.first + ": variable " + s.names[a] + " instead of " + e[0][0].names[a]; for (size_t c = 0; c < s.v[a].size(); ++c) if (!near(s.v[a][c], x.second[a][c], 1 + scale[x.first])) return hx::cat(x.first, " at time ", s.time, ", variable ", s.names[a], ", value ", c, " is ", s.v[a][c], " instead of ", x.second[a][c]); } }
    }
    return "";
}
static std::string direct(Parts& P, Vol& in, int ghost, const St& f, const Ens& e, bool periodic) {
    Made m = make(f, int(e.size()), MPI_COMM_WORLD); for (auto& s : e) feed(m, P, in, ghost, s); m.st->combineStatistics(); m.st->finalizeStatistics(); m.st->writeStatistics(*P.grid); return compare(f, m, e, periodic);
}
// the samples spread over several processes in a given way: the written result is the same
static std::string spread(const std::string& eq, I3 n, const St& f, const Ens& e, const std::vector<int>& who, int R) {
    Made root; mc::Exec x = mc::run(R, mc::Policy(), {}, [&](int r) { Parts P(eq, n); Vol in = P.vol(1); Made m = make(f, int(e.size()), MPI_COMM_WORLD); std::vector<Pic> zero = e[0]; bool any = false; for (size_t s = 0; s < e.size(); ++s) if (who[s] == r) { feed(m, P, in, 1, e[s]); any = true; } (void)any; m.st->combineStatistics(); m.st->finalizeStatistics(); if (r == 0) { m.st->writeStatistics(*P.grid); root = m; } });
    hx::count("executions"); hx::count("transitions", x.steps); if (!x.clean()) return x.what(); return compare(f, root, e, true);
}
int main(int argc, char** argv) {
    hx::init(argc, argv); const bool T = hx::thorough; struct C { std::string eq; I3 n; }; std::vector<C> cs;
    for (int n = 1; n <= (T ? 7 : 5); ++n) cs.push_back({"burgers", {{n, 1, 1}}}); for (I3 n : {I3{{2, 2, 1}}, I3{{3, 2, 1}}, I3{{2, 3, 1}}, I3{{4, 2, 1}}, I3{{2, 4, 1}}, I3{{1, 4, 1}}}) if (T || n[0] * n[1] * n[2] < 7) cs.push_back({"burgers", n}); cs.push_back({"burgers", {{2, 2, 2}}});
    cs.push_back({"burgers", {{3, 2, 2}}}); cs.push_back({"burgers", {{2, 3, 2}}}); cs.push_back({"burgers", {{2, 2, 3}}}); cs.push_back({"burgers", {{5, 4, 3}}});
    for (int n = 2; n <= 3; ++n) cs.push_back({"euler1", {{n, 1, 1}}}); cs.push_back({"euler2", {{2, 2, 1}}}); cs.push_back({"euler3", {{2, 2, 2}}}); cs.push_back({"euler3", {{3, 1, 1}}});
    for (auto& c : cs) for (int ghost = 0; ghost <= 3; ++ghost) for (int per = 0; per < 2; ++per) {
        if (!T && (ghost + per + c.n[0] + c.n[1] + c.n[2]) % 2) continue; if (!hx::begin(hx::cat(c.eq, "-", c.n[0], "x", c.n[1], "x", c.n[2], "-ghost", ghost, per ? "-periodic" : "-neumann"))) continue; if (hx::timeUp()) { hx::count("cap_cases"); continue; }
        Parts P(c.eq, c.n, 1.4, {{2, 0.5, 3}}, per ? boundary::allPeriodic() : boundary::allNeumann()); Vol in = P.vol(ghost); std::vector<std::string> names; for (int a = 0; a < in.vars(); ++a) names.push_back(in.v->getName(a)); auto fs = catalogue(c.n, T);
        const int N = c.n[0] * c.n[1] * c.n[2]; bool stop = false; auto words = wordsUpTo(N, 3, T ? 2500 : 250); long done = 0;
        for (auto& w : words) { if (hx::timeUp()) { hx::count("cap_cases"); break; } if (stop) break; hx::count("states"); ++done;
            auto turn = [&](int by, bool rev) { auto x = w; if (rev) std::reverse(x.begin(), x.end()); std::rotate(x.begin(), x.begin() + (by % N), x.end()); for (auto& q : x) q = (q + by) % 3; return pic(c.eq, c.n, names, x); };
            Ens e{{turn(0, false), turn(1, true)}, {turn(1, false), turn(2, true)}}; if (done % 2) e.push_back({turn(2, false), turn(0, true)});
            for (auto& f : fs) { hx::count("transitions", e.size() * 2); std::string bad; try { bad = direct(P, in, ghost, f, e, per); } catch (std::exception& x) { bad = x.what(); } if (!bad.empty()) { hx::viol("statistic:" + f.name, show(f) + ", state " + showDigits(w) + ": " + bad); stop = true; break; } } }
        hx::count("executions"); hx::sample(hx::current());
    }
    for (C c : {C{"burgers", {{5, 1, 1}}}, C{"euler2", {{3, 2, 1}}}, C{"burgers", {{3, 2, 2}}}}) for (int R = 2; R <= 3; ++R) for (int k = 1; k <= (T ? 5 : 4); ++k) {
        if (!hx::begin(hx::cat("spread-", c.eq, "-", c.n[0], "x", c.n[1], "x", c.n[2], "-", k, "-samples-on-", R))) continue; Parts P(c.eq, c.n); Vol in = P.vol(0); std::vector<std::string> names; for (int a = 0; a < in.vars(); ++a) names.push_back(in.v->getName(a));
        Ens e; const int N = c.n[0] * c.n[1] * c.n[2]; for (int s = 0; s < k; ++s) { std::vector<Pic> q; for (int t = 0; t < 3; ++t) { std::vector<int> w; for (int i = 0; i < N; ++i) w.push_back(((i + 1) * (s + 2) + i / 2 * (t + 1) + t) % 3); q.push_back(pic(c.eq, c.n, names, w)); } e.push_back(q); } bool stop = false;
        for (auto& f : catalogue(c.n, false)) for (long a = 0; a < power(R, k) && !stop; ++a) { auto who = digits(a, R, k); std::vector<int> cnt(R); for (int w : who) cnt[w]++; if (std::count(cnt.begin(), cnt.end(), 0)) continue; hx::count("states"); if (hx::timeUp()) { hx::count("cap_cases"); stop = true; break; } auto bad = spread(c.eq, c.n, f, e, who, R); if (!bad.empty()) { hx::viol("statistic:spread", show(f) + ", samples on " + showDigits(who) + ": " + bad); stop = true; } }
        hx::sample(hx::current());
    }
    if (hx::begin("refusals")) {
        std::array<boundary::Type, 6> mpi; mpi.fill(boundary::MPI_BC); auto mixed = boundary::allPeriodic(); mixed[1] = boundary::MPI_BC; auto one = boundary::allNeumann(); one[2] = one[3] = boundary::MPI_BC;
        auto call = [&](I3 n, std::array<boundary::Type, 6> bc, const St& f) { hx::count("states"); hx::count("transitions"); Parts P("burgers", n, 1.4, {{1, 1, 1}}, bc); Vol in = P.vol(0); in.fill(1); return threw([&] { Made m = make(f, 1, MPI_COMM_WORLD); m.st->computeStatistics(*in.v, *P.grid, simulator::TimestepInformation(0, 0)); m.st->combineStatistics(); m.st->finalizeStatistics(); m.st->writeStatistics(*P.grid); }); };
        struct Q { I3 n; std::array<boundary::Type, 6> bc; St f; }; St b0{"structure_basic", {{"p", "2"}, {"direction", "0"}, {"numberOfH", "2"}}}, b1{"structure_basic", {{"p", "2"}, {"direction", "1"}, {"numberOfH", "2"}}}, cu{"structure_cube", {{"p", "2"}, {"numberOfH", "2"}}}; auto two = [](int a, int b) { return St{"structure_2pt", {{"direction1", S(a)}, {"direction2", S(b)}, {"numberOfH", "2"}}}; };
        std::vector<Q> qs{{{{4, 1, 1}}, mpi, b0}, {{{4, 1, 1}}, mixed, b0}, {{{3, 3, 1}}, one, b1}, {{{4, 1, 1}}, mpi, cu}, {{{4, 1, 1}}, mixed, cu}, {{{3, 3, 1}}, one, cu}, {{{4, 1, 1}}, mpi, two(0, 0)}, {{{3, 3, 1}}, one, two(0, 1)}, {{{3, 3, 1}}, one, two(1, 0)}, {{{3, 3, 1}}, mixed, two(0, 1)}, {{{2, 2, 2}}, boundary::allPeriodic(), {"bv", {{"p", "1"}}}},
            {{{4, 1, 1}}, boundary::allPeriodic(), {"structure_basic", {{"p", "2"}, {"direction", "3"}, {"numberOfH", "2"}}}}, {{{4, 1, 1}}, boundary::allPeriodic(), {"structure_basic", {{"p", "2"}, {"direction", "-1"}, {"numberOfH", "2"}}}}, {{{4, 1, 1}}, boundary::allPeriodic(), two(0, 3)}, {{{4, 1, 1}}, boundary::allPeriodic(), {"nosuch", {}}}};
        for (auto& q : qs) if (!call(q.n, q.bc, q.f)) hx::viol("statistic:refusal", hx::cat(show(q.f), " on ", q.n[0], "x", q.n[1], "x", q.n[2], " with sides ", q.bc[0], q.bc[1], q.bc[2], q.bc[3], " is not refused"));
        St ok = b0; if (call({{3, 3, 1}}, one, ok)) hx::viol("statistic:refusal", "a structure function along a direction that is not split is refused"); if (call({{4, 1, 1}}, boundary::allPeriodic(), b0)) hx::viol("statistic:refusal", "a structure function is refused");
    }
    return hx::finish();
}
