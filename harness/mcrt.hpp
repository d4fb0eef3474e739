// Controlled execution of the real code: managed threads (ranks and the threads
// they create) run one at a time; every switch, message capture, delivery and
// wake-up choice is made by the explorer, which enumerates them.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <cstddef>

namespace mc {

struct Policy {
    int sched = 0;            // 0 stay/lowest, 1 stay/highest, 2 round robin at every point, 3 always newest, 4 always lowest
    bool eager = true;        // a send's data is captured when posted, or as late as legal
    bool rendezvous = false;  // completing a send waits for the matching receive
    bool early = false;       // a receive buffer is filled on match, or only on completion
    int poison = 1;           // receive buffer content until filled: 0 untouched, 1 NaN, 2 huge
    std::string str() const;
    static std::vector<Policy> all(bool thorough);
};

struct Choice { int taken; int n; };

struct Exec {
    std::vector<Choice> choices;          // every point with more than one alternative
    long steps = 0;                       // scheduling points passed
    long messages = 0, collectives = 0;
    bool deadlock = false, hang = false;
    std::string where;                    // what the blocked threads wait for
    std::map<int, std::string> thrown;    // rank -> text of the exception that ended it
    std::vector<std::string> errors;      // misuse of the message passing interface
    bool clean() const { return !deadlock && !hang && thrown.empty() && errors.empty(); }
    std::string what() const;
    std::string schedule() const;
};

Exec run(int ranks, const Policy& policy, const std::vector<Choice>& prefix,
         const std::function<void(int)>& body);

struct Stats { long executions = 0, steps = 0, points = 0, messages = 0; bool complete = true; };

// Every execution with at most `deviations` departures from the policy's default
// choices. check() is called after each; it returns false to stop.
Stats explore(int ranks, const Policy& policy, int deviations, long maxExecutions,
              const std::function<void(int)>& body,
              const std::function<bool(const Exec&)>& check,
              int shard = 0, int nshards = 1);

bool managed();               // is the caller a managed thread?
int rank();                   // world rank of the caller (0 outside)
int choose(int n);            // environment choice, default 0
void point();                 // plain scheduling point
void block(const std::function<bool()>& enabled, const char* what);
// While one lives, the calling thread passes its scheduling points without a switch (unless it blocks):
// for set-up and observation code that is not under study.
struct Quiet { Quiet(); ~Quiet(); };
// Locking a free mutex that lies in the object is no scheduling point (0: none)
void quietLocksIn(const void* object, size_t n);
void error(const std::string& text);
void setSpurious(bool on);    // condition waits may wake up for no reason

// happens-before hooks (defined by the race detector, if linked)
extern "C" {
void mc_hb_fork(int parent, int child) __attribute__((weak));
void mc_hb_join(int parent, int child) __attribute__((weak));
void mc_hb_acquire(int thread, void* object) __attribute__((weak));
void mc_hb_release(int thread, void* object) __attribute__((weak));
void mc_hb_reset(void) __attribute__((weak));
void mc_acc(const void* p, size_t n, int write) __attribute__((weak));     // message buffers: accessed by the caller
}
int threadId();               // managed thread number, -1 outside
}
