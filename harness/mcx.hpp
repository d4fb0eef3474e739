// Exploration of one case with the bookkeeping every schedule-exploring harness needs.
#pragma once
#include "hx.hpp"
#include "mcrt.hpp"
namespace mcx {
// Runs body under every policy with at most `deviations` departures; verify() returns "" or what is wrong
// with the finished execution (only called for clean ones unless `any`).
inline bool exploreCase(int ranks, const std::vector<mc::Policy>& policies, int deviations, long maxExec,
                        const std::function<void()>& reset, const std::function<void(int)>& body,
                        const std::function<std::string(const mc::Exec&)>& verify, const std::string& key, bool any = false, bool split = false) {
    bool ok = true;
    for (auto& p : policies) {
        if (reset) reset();
        auto st = mc::explore(ranks, p, deviations, maxExec, body, [&](const mc::Exec& e) {
            std::string bad;
            if (!any && !e.clean()) bad = e.what(); else bad = verify(e);
            if (!bad.empty()) { ok = false; hx::viol(key, bad + " [policy " + p.str() + ", schedule " + e.schedule() + "]"); }
            if (reset) reset();
            if (hx::timeUp()) { hx::count("cap_executions", 1); return false; }
            return bad.empty();
        }, split ? hx::shard : 0, split ? hx::nshards : 1);
        hx::count("states", st.points + st.executions); hx::count("transitions", st.steps); hx::count("executions", st.executions); hx::count("messages", st.messages);
        if (!st.complete) { hx::count("cap_executions", 1); if (getenv("HX_DEBUG")) fprintf(stderr, "CAP %s %s\n", hx::current().c_str(), p.str().c_str()); }
        if (!ok || hx::timeUp()) break;
    }
    return ok;
}
}
