// C15: the output queue under every interleaving of producers and consumers: order, content, exactly once,
// bounded, no deadlock, no data race; spurious wake-ups included.
#include "mcx.hpp"
#include "race.hpp"
#include "rig.hpp"
#include "alsfvm/io/QueueWriter.hpp"
#include <thread>
struct Case { std::string name; std::array<int, 3> n; std::string eq; int ghost, queue; std::vector<int> writes, pops; int dev; bool spurious; int failing = -1; /* handler calls that throw */ int expectDelivered = -1; /* -1: all, and the run ends */ };
struct Log { std::vector<std::pair<int, int>> popped; int written = 0, started = 0, failed = 0, most = 0; std::string bad; };
static Log L;
static double cellValue(int p, int k, int var, size_t i) { return 1000.0 * (p + 1) + 100 * (k + 1) + 10 * var + 0.001 * double(i); }
static void fill(alsfvm::volume::Volume& v, int p, int k) { for (size_t a = 0; a < v.getNumberOfVariables(); ++a) { auto m = v.getScalarMemoryArea(a); for (size_t i = 0; i < m->getSize(); ++i) m->getPointer()[i] = p < 0 ? -1.0 : cellValue(p, k, int(a), i); } }
static std::string check(const alsfvm::volume::Volume& v, int& p, int& k) {
    double first = v.getScalarMemoryArea(0)->getPointer()[0]; p = int(first / 1000) - 1; k = int((first - 1000.0 * (p + 1)) / 100) - 1;
    for (size_t a = 0; a < v.getNumberOfVariables(); ++a) { auto m = v.getScalarMemoryArea(a); for (size_t i = 0; i < m->getSize(); ++i) if (m->getPointer()[i] != cellValue(p, k, int(a), i)) return hx::cat("variable ", a, " cell ", i, " is ", m->getPointer()[i], " in a snapshot that starts with ", first); }
    return "";
}
static void body(const Case& c) {
    alsfvm::shared_ptr<alsfvm::io::QueueWriter> q; std::shared_ptr<rig::Parts> parts; std::vector<std::shared_ptr<alsfvm::volume::Volume>> mine;
    { mc::Quiet quiet; parts = std::make_shared<rig::Parts>(c.eq, c.n); alsfvm::shared_ptr<alsfvm::volume::VolumeFactory> vf = parts->vf; q.reset(new alsfvm::io::QueueWriter(size_t(c.queue), vf)); for (size_t p = 0; p < c.writes.size(); ++p) mine.push_back(parts->vf->createConservedVolume(c.n[0], c.n[1], c.n[2], c.ghost)); }
    std::vector<std::thread> t;
    auto note = [](const std::string& s) { race::Off off; if (L.bad.empty()) L.bad = s; };
    for (size_t p = 0; p < c.writes.size(); ++p) t.emplace_back([&, p] {
        for (int k = 0; k < c.writes[p]; ++k) {
            fill(*mine[p], int(p), k);
            { race::Off off; L.started++; }
            q->write(*mine[p], *parts->grid, alsfvm::simulator::TimestepInformation());
            { race::Off off; L.written++; L.most = std::max(L.most, L.written - int(L.popped.size())); if (L.most > c.queue) note(hx::cat(L.most, " snapshots are waiting in a queue for ", c.queue)); }
            fill(*mine[p], -1, 0);
        } });
    for (size_t d = 0; d < c.pops.size(); ++d) t.emplace_back([&, d] {
        for (int k = 0; k < c.pops[d]; ++k) {
            bool again = false;
            do { again = false;
                try {
                    q->pop([&](const alsfvm::volume::Volume& v) {
                        bool fail;
                        { race::Off off; fail = L.failed <= c.failing; if (fail) L.failed++; }
                        int p, j, p2, j2; std::string bad = check(v, p, j);
                        if (!fail) { race::Off off; L.popped.push_back({p, j}); }
                        mc::point();
                        if (bad.empty()) { bad = check(v, p2, j2); if (bad.empty() && (p != p2 || j != j2)) bad = "another one"; if (!bad.empty()) bad = "a snapshot changes while it is being written: " + bad; }
                        if (!bad.empty()) note(bad);
                        if (fail) throw std::runtime_error("output failed");
                    });
                } catch (const std::runtime_error&) { again = true; }
            } while (again);
        } });
    for (auto& x : t) x.join();
}
static std::string verify(const Case& c, const mc::Exec& e) {
    auto r = race::reports(); if (!r.empty()) return "data race: " + r[0].where;
    if (!L.bad.empty()) return L.bad;
    std::vector<int> next(c.writes.size(), 0); std::ostringstream o; for (auto& x : L.popped) o << " " << x.first << "." << x.second;
    for (auto& x : L.popped) { if (x.first < 0 || x.first >= int(next.size())) return "unknown snapshot" + o.str(); if (x.second != next[x.first]) return "snapshots come out as" + o.str(); next[x.first]++; }
    int total = 0; for (int w : c.writes) total += w;
    if (c.expectDelivered < 0) { if (!e.clean()) return e.what(); if (int(L.popped.size()) != total) return hx::cat(L.popped.size(), " of ", total, " snapshots were written:", o.str()); return ""; }
    // one side wants more than the other gives: everything possible is done and then it waits
    if (!e.deadlock) return "a side that must wait does not: came out" + o.str();
    if (int(L.popped.size()) != c.expectDelivered) return hx::cat(L.popped.size(), " instead of ", c.expectDelivered, " snapshots were written before waiting:", o.str());
    int canWrite = std::min(total, c.expectDelivered + c.queue); if (L.written != canWrite) return hx::cat(L.written, " instead of ", canWrite, " writes returned");
    return "";
}
int main(int argc, char** argv) {
    hx::init(argc, argv); hx::quietLog();
    const bool T = hx::thorough;
    std::vector<Case> cases;
    const std::array<int, 3> small{{3, 1, 1}};
    auto add = [&](std::array<int, 3> n, std::string eq, int g, int q, std::vector<int> w, std::vector<int> p, int dev, bool sp, int failing = -1, int expect = -1) { cases.push_back({"", n, eq, g, q, w, p, dev, sp, failing, expect}); };
    for (int q = 1; q <= 3; ++q) for (int w = 1; w <= (T ? 6 : 5); ++w) for (int sp = 0; sp < 2; ++sp) add(small, "burgers", 1, q, {w}, {w}, T ? (w <= 4 ? 4 : 3) : (w <= 3 ? 3 : 2), sp);
    for (int q = 1; q <= 3; ++q) for (int sp = 0; sp < 2; ++sp) {
        add(small, "burgers", 1, q, {2, 2}, {4}, T ? 3 : 2, sp); add(small, "burgers", 1, q, {4}, {2, 2}, T ? 3 : 2, sp); add(small, "burgers", 1, q, {2, 1}, {1, 2}, T ? 3 : 2, sp);
        add(small, "burgers", 1, q, {2, 2}, {2, 2}, T ? 2 : 1, sp); add(small, "burgers", 1, q, {1, 1, 1}, {3}, T ? 2 : 1, sp); add(small, "burgers", 1, q, {3}, {1, 1, 1}, T ? 2 : 1, sp); add(small, "burgers", 1, q, {3, 3}, {6}, 1, sp); add(small, "burgers", 1, q, {7}, {7}, 1, sp);
        for (int f = 0; f < 2; ++f) { add(small, "burgers", 1, q, {3}, {3}, T ? 3 : 2, sp, f); add(small, "burgers", 1, q, {3}, {1, 2}, 1, sp, f); }
    }
    add({{3, 2, 4}}, "euler3", 2, 2, {4}, {4}, 1, true); add({{4, 3, 1}}, "euler2", 3, 3, {5}, {5}, 1, true); add({{5, 1, 1}}, "euler1", 0, 1, {3}, {3}, 1, true);
    for (int q = 1; q <= 3; ++q) { add(small, "burgers", 1, q, {q + 2}, {}, 0, false, -1, 0); add(small, "burgers", 1, q, {q + 3}, {1}, T ? 1 : 0, false, -1, 1); add(small, "burgers", 1, q, {2}, {3}, T ? 1 : 0, false, -1, 2); add(small, "burgers", 1, q, {}, {1}, 0, false, -1, 0); add(small, "burgers", 1, q, {q + 1, 1}, {}, 0, true, -1, 0); }
    int id = 0;
    for (auto& c : cases) {
        auto l = [](const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : "+") + std::to_string(x); return s.empty() ? "0" : s; };
        if (!hx::begin(hx::cat(id++, "-queue", c.queue, "-writes", l(c.writes), "-pops", l(c.pops), "-", c.eq, c.n[0], "x", c.n[1], "x", c.n[2], "-dev", c.dev, c.spurious ? "-spurious" : "", c.failing >= 0 ? hx::cat("-fail", c.failing) : ""))) continue;
        if (hx::timeUp()) break;
        mc::setSpurious(false);
        std::vector<mc::Policy> pols; for (int s = 0; s < 5; ++s) { mc::Policy p; p.sched = s; pols.push_back(p); }
        mc::setSpurious(c.spurious);
        mcx::exploreCase(1, pols, c.dev, T ? 2000000 : 60000, [] { L = Log(); }, [&](int) { body(c); }, [&](const mc::Exec& e) { return verify(c, e); }, "queue", true);
        hx::count("configurations"); hx::sample(hx::current());
    }
    hx::count("accesses", race::accesses()); hx::count("ordered_pairs", race::sharedPairs());
    return hx::finish();
}
