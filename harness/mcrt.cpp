#include "mcrt.hpp"
#include <mpi.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <sstream>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>

struct mc_type { int kind; size_t size, extent; std::vector<std::pair<ptrdiff_t, size_t>> blocks; bool committed = true, freed = false, predef = false;
    mc_type(int k, size_t s) : kind(k), size(s), extent(s), predef(true) { blocks.push_back({0, s}); }
    mc_type() : kind(0), size(0), extent(0), committed(false) {} };
enum { K_FLOAT = 1, K_DOUBLE, K_INT, K_LONG, K_LL, K_CHAR, K_BYTE, K_UINT, K_ULONG, K_ULL, K_SHORT, K_BOOL, K_UCHAR };
extern "C" {
mc_type mc_type_float(K_FLOAT, 4), mc_type_double(K_DOUBLE, 8), mc_type_int(K_INT, 4), mc_type_long(K_LONG, 8), mc_type_longlong(K_LL, 8),
        mc_type_char(K_CHAR, 1), mc_type_byte(K_BYTE, 1), mc_type_unsigned(K_UINT, 4), mc_type_ulong(K_ULONG, 8), mc_type_ulonglong(K_ULL, 8),
        mc_type_short(K_SHORT, 2), mc_type_bool(K_BOOL, 1), mc_type_uchar(K_UCHAR, 1);
}
struct mc_op { const char* name; };
extern "C" { mc_op mc_op_max{"max"}, mc_op_min{"min"}, mc_op_sum{"sum"}, mc_op_prod{"prod"}, mc_op_land{"land"}, mc_op_lor{"lor"}, mc_op_band{"band"}, mc_op_bor{"bor"}; }

struct Coll { std::string sig; std::string name; int arrived = 0; std::vector<std::vector<char>> in; std::vector<void*> out; std::vector<long long> aux; bool done = false; std::vector<mc_comm*> newcomm; };
struct mc_comm { int id = 0; std::vector<int> group; std::map<int, long> seq; std::map<long, std::shared_ptr<Coll>> colls;
    std::deque<mc_request*> sends, recvs; };
extern "C" { mc_comm mc_comm_world, mc_comm_self; }
struct mc_info { int x; };

struct mc_request {
    bool send = false, sync = false; int me = 0, peer = 0, tag = 0; mc_comm* comm = nullptr; char* buf = nullptr;
    std::vector<std::pair<ptrdiff_t, size_t>> blocks; size_t bytes = 0; int kind = 0;
    mc_request* match = nullptr; bool captured = false, delivered = false, done = false; std::vector<char> data, before; int srcFound = 0, tagFound = 0;
};

namespace mc {
namespace {
struct MThread { int id, rank; sem_t sem; bool finished = false, started = false, joined = false; pthread_t real; void* (*fn)(void*); void* arg; void* ret = nullptr;
    std::function<bool()> wait; const char* waitWhat = nullptr; bool timed = false, timedOut = false; int quiet = 0; };
thread_local MThread* self = nullptr;

struct World {
    int ranks = 1; Policy policy; std::vector<Choice> prefix; size_t pos = 0; Exec exec;
    std::vector<MThread*> threads; MThread* current = nullptr; sem_t done; bool dead = false; bool spurious = false;
    std::map<void*, std::pair<MThread*, int>> mutexes;
    std::map<void*, std::pair<MThread*, int>> rw;   // writer, readers
    std::map<void*, std::deque<MThread*>> conds; std::set<MThread*> signaled;
    std::map<void*, bool> onceRunning; std::set<void*> guards;
    std::vector<mc_request*> requests; std::vector<mc_comm*> comms; int nextComm = 1;
    long generation = 0;
};
World* W = nullptr;
bool g_spurious = false;

template<class F> F real(const char* name) { static_assert(sizeof(F) == sizeof(void*), ""); return (F)dlsym(RTLD_NEXT, name); }

[[noreturn]] void park() { for (;;) { sem_t s; sem_init(&s, 0, 0); while (sem_wait(&s) != 0) {} } }

int take(int n) {     // next recorded or default choice among n
    if (n <= 1) return 0;
    int c = 0;
    if (W->pos < W->prefix.size()) {
        auto& p = W->prefix[W->pos];
        if (p.n != n) { fprintf(stderr, "MCRT: replay diverged at choice %zu: %d alternatives, %d before\n", W->pos, n, p.n); printf("HARNESS-ERROR replay diverged\n"); fflush(stdout); _exit(3); }
        c = p.taken;
    }
    W->pos++;
    W->exec.choices.push_back({c, n});
    return c;
}

void finishWorld() { W->dead = true; sem_post(&W->done); }

// choose the next thread to run; null if none can
MThread* pick(MThread* cur) {
    for (int round = 0; round < 2; ++round) {
        std::vector<MThread*> en;
        for (auto* t : W->threads) if (!t->finished && (!t->wait || t->wait())) en.push_back(t);
        if (!en.empty()) {
            const int pol = W->policy.sched;
            auto later = [&](MThread* a, MThread* b) { return a->id < b->id; };
            std::sort(en.begin(), en.end(), later);
            if (pol == 1 || pol == 3) std::reverse(en.begin(), en.end());
            if (pol == 0 || pol == 1) { auto it = std::find(en.begin(), en.end(), cur); if (it != en.end()) { std::rotate(en.begin(), it, it + 1); } }
            if (pol == 2 && cur) { size_t k = 0; while (k < en.size() && en[k]->id <= cur->id) ++k; std::rotate(en.begin(), en.begin() + (k % en.size()), en.end()); }
            return en[take(int(en.size()))];
        }
        // only timed waits may still proceed
        bool any = false;
        for (auto* t : W->threads) if (!t->finished && t->timed) { t->timedOut = true; any = true; break; }
        if (!any) return nullptr;
    }
    return nullptr;
}

void declareDeadlock() {
    W->exec.deadlock = true;
    MThread* me = self; self = nullptr;     // nothing here is under study
    struct Back { MThread* m; ~Back() { self = m; } } back{me};
    std::ostringstream s;
    for (auto* t : W->threads) if (!t->finished) s << " [thread " << t->id << " of rank " << t->rank << " in " << (t->waitWhat ? t->waitWhat : "?") << "]";
    W->exec.where = s.str();
    finishWorld();
}

void reschedule(MThread* me) {      // me may be blocked (wait set) or ready
    World* w = W;
    if (me->quiet && (!me->wait || me->wait())) return;
    w->exec.steps++;
    MThread* n = pick(me);
    if (!n) { declareDeadlock(); park(); }
    w->current = n;
    if (n == me) return;
    sem_post(&n->sem);
    while (sem_wait(&me->sem) != 0) {}
    if (w != W || w->dead) park();
}

void threadEnd(MThread* me) {
    me->finished = true;
    bool all = true;
    for (auto* t : W->threads) if (!t->finished) all = false;
    if (all) { finishWorld(); return; }
    W->exec.steps++;
    MThread* n = pick(nullptr);
    if (!n) { declareDeadlock(); return; }
    W->current = n;
    sem_post(&n->sem);
}

void* trampoline(void* p) {
    MThread* me = (MThread*)p;
    self = me;
    while (sem_wait(&me->sem) != 0) {}
    if (!W || W->dead) park();
    try { me->ret = me->fn(me->arg); }
    catch (std::exception& e) { W->exec.thrown.insert({me->rank, std::string("in thread: ") + e.what()}); }
    threadEnd(me);
    self = nullptr;
    return me->ret;
}

MThread* spawn(int rank, void* (*fn)(void*), void* arg, const pthread_attr_t* attr) {
    auto* t = new MThread; t->id = int(W->threads.size()); t->rank = rank; t->fn = fn; t->arg = arg; sem_init(&t->sem, 0, 0);
    W->threads.push_back(t);
    static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (rc(&t->real, attr, trampoline, t) != 0) { fprintf(stderr, "MCRT: pthread_create failed\n"); _exit(3); }
    return t;
}
}  // namespace

bool managed() { return self != nullptr; }
int rank() { return self ? self->rank : 0; }
int threadId() { return self ? self->id : -1; }
void setSpurious(bool on) { g_spurious = on; }
int choose(int n) { return self ? take(n) : 0; }
static const char* quietFrom = nullptr; static size_t quietSize = 0;
void quietLocksIn(const void* object, size_t n) { quietFrom = (const char*)object; quietSize = n; }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
void point() { if (self) reschedule(self); }
void block(const std::function<bool()>& en, const char* what) {
    if (!self) { if (!en()) { printf("VIOL blocked-forever|%s outside a parallel run\n", what); fflush(stdout); _exit(1); } return; }
    self->wait = en; self->waitWhat = what;
    reschedule(self);
    self->wait = nullptr; self->waitWhat = nullptr;
}
void error(const std::string& text) {
    if (W) W->exec.errors.push_back("rank " + std::to_string(rank()) + ": " + text);
    else { printf("VIOL mpi-misuse|%s\n", text.c_str()); fflush(stdout); }
}

std::string Policy::str() const { std::ostringstream s; s << "sched" << sched << (eager ? "-eager" : "-latecapture") << (rendezvous ? "-rendezvous" : "") << (early ? "-earlydelivery" : "") << "-poison" << poison; return s.str(); }
std::vector<Policy> Policy::all(bool thorough) {
    std::vector<Policy> out;
    for (int s = 0; s < (thorough ? 5 : 4); ++s)
        for (int m = 0; m < 4; ++m) {
            if (!thorough && !(m == s || m == (s + 2) % 4)) continue;
            Policy p; p.sched = s; p.eager = (m == 0 || m == 3); p.early = (m == 1 || m == 3); p.rendezvous = (m >= 2); p.poison = (s + m) % 3;
            out.push_back(p);
        }
    return out;
}
std::string Exec::what() const {
    std::ostringstream s;
    if (deadlock) s << "deadlock:" << where << " ";
    if (hang) s << "no progress ";
    for (auto& t : thrown) s << "rank " << t.first << " failed: " << t.second.substr(0, 300) << " ";
    for (auto& e : errors) s << e << "; ";
    return s.str();
}
std::string Exec::schedule() const { std::ostringstream s; size_t last = 0; for (size_t i = 0; i < choices.size(); ++i) if (choices[i].taken) { s << i << ":" << choices[i].taken << "/" << choices[i].n << " "; last = i; } return s.str(); }

struct RankArg { int rank; const std::function<void(int)>* body; };
static void* rankMain(void* p) {
    auto* a = (RankArg*)p;
    try { (*a->body)(a->rank); }
    catch (std::exception& e) { W->exec.thrown[a->rank] = e.what(); }
    catch (const std::string& e) { W->exec.thrown[a->rank] = e; }
    catch (...) { W->exec.thrown[a->rank] = "unknown exception"; }
    return nullptr;
}

Exec run(int ranks, const Policy& policy, const std::vector<Choice>& prefix, const std::function<void(int)>& body) {
    static long generation = 0;
    W = new World; W->generation = ++generation;
    W->ranks = ranks; W->policy = policy; W->prefix = prefix; W->spurious = g_spurious; sem_init(&W->done, 0, 0);
    mc_comm_world = mc_comm(); for (int i = 0; i < ranks; ++i) mc_comm_world.group.push_back(i);
    if (mc_hb_reset) mc_hb_reset();
    std::vector<RankArg> args(ranks);
    for (int i = 0; i < ranks; ++i) { args[i] = {i, &body}; spawn(i, rankMain, &args[i], nullptr); }
    std::vector<MThread*> roots(W->threads);
    MThread* first = pick(nullptr); W->current = first; sem_post(&first->sem);
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 150;
    int rc; while ((rc = sem_timedwait(&W->done, &ts)) != 0 && errno == EINTR) {}
    if (rc != 0) { W->exec.hang = true; }
    World* w = W;
    if (!w->exec.deadlock && !w->exec.hang) {
        static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
        for (auto* t : roots) rj(t->real, nullptr);
        if (w->exec.thrown.empty()) {
            for (auto* r : w->requests) if (!r->done) { w->exec.errors.push_back(std::string(r->send ? "send" : "receive") + " of rank " + std::to_string(r->me) + " was started and never completed (tag " + std::to_string(r->tag) + ")"); break; }
            auto all = w->comms; all.push_back(&mc_comm_world);
            for (auto* c : all) if (!c->sends.empty()) { w->exec.errors.push_back("message from rank " + std::to_string(c->sends[0]->me) + " with tag " + std::to_string(c->sends[0]->tag) + " was never received"); break; }
        }
        for (auto* r : w->requests) delete r;
        for (auto* c : w->comms) delete c;
        for (auto* t : w->threads) { sem_destroy(&t->sem); delete t; }
        Exec e = std::move(w->exec);
        W = nullptr; delete w;
        mc_comm_world = mc_comm();
        return e;
    }
    Exec e = w->exec;   // stuck threads stay parked for ever
    W = nullptr;
    return e;
}

Stats explore(int ranks, const Policy& policy, int deviations, long maxExec, const std::function<void(int)>& body,
              const std::function<bool(const Exec&)>& check, int shard, int nshards) {
    Stats st;
    struct Node { std::vector<Choice> prefix; int dev; };
    std::vector<Node> stack; stack.push_back({{}, 0});
    long top = 0; bool first = true;
    while (!stack.empty()) {
        Node nd = std::move(stack.back()); stack.pop_back();
        if (st.executions >= maxExec) { st.complete = false; break; }
        Exec e = run(ranks, policy, nd.prefix, body);
        const bool mine = !first || shard == 0;
        if (mine) { st.executions++; st.steps += e.steps; st.points += (long)e.choices.size() - (long)nd.prefix.size(); st.messages += e.messages; }
        if (!check(e)) { st.complete = false; break; }
        if (nd.dev < deviations)
            for (size_t i = nd.prefix.size(); i < e.choices.size(); ++i)
                for (int alt = 1; alt < e.choices[i].n; ++alt) {
                    if (first && (top++ % nshards) != shard) continue;
                    std::vector<Choice> p(e.choices.begin(), e.choices.begin() + i);
                    p.push_back({alt, e.choices[i].n});
                    stack.push_back({std::move(p), nd.dev + 1});
                }
        first = false;
    }
    return st;
}
}  // namespace mc

using namespace mc;

// ---------------------------------------------------------------- threads
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!self) return rc(t, a, fn, arg);
    MThread* c = spawn(self->rank, fn, arg, a);
    *t = c->real;
    if (mc_hb_fork) mc_hb_fork(self->id, c->id);
    reschedule(self);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
    if (self) {
        MThread* c = nullptr;
        for (auto* x : W->threads) if (!x->joined && pthread_equal(x->real, t)) c = x;
        if (c) { block([c] { return c->finished; }, "thread join"); c->joined = true; if (mc_hb_join) mc_hb_join(self->id, c->id); }
    }
    return rj(t, ret);
}
static void modelLock(void* m, bool recursive) {
    auto it = W->mutexes.find(m);
    if (it != W->mutexes.end() && it->second.first == self && recursive) { it->second.second++; return; }
    if (it != W->mutexes.end() || (char*)m < quietFrom || (char*)m >= quietFrom + quietSize) block([m] { return W->mutexes.find(m) == W->mutexes.end(); }, "mutex lock");
    W->mutexes[m] = {self, 1};
    if (mc_hb_acquire) mc_hb_acquire(self->id, m);
}
static void modelUnlock(void* m) {
    auto it = W->mutexes.find(m);
    if (it == W->mutexes.end()) return;
    if (--it->second.second == 0) { if (mc_hb_release) mc_hb_release(self->id, m); W->mutexes.erase(it); }
}
#define REALFN(name, type) static auto rf = real<type>(#name)
int pthread_mutex_lock(pthread_mutex_t* m) {
    REALFN(pthread_mutex_lock, int (*)(pthread_mutex_t*));
    if (!self || W->dead) return rf(m);
    modelLock(m, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REALFN(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
    if (!self || W->dead) return rf(m);
    reschedule(self);
    auto it = W->mutexes.find(m);
    if (it != W->mutexes.end()) { if (it->second.first == self && (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP) { it->second.second++; return 0; } return EBUSY; }
    W->mutexes[m] = {self, 1}; if (mc_hb_acquire) mc_hb_acquire(self->id, m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REALFN(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
    if (!self || W->dead) return rf(m);
    modelUnlock(m); return 0;      // a switch here is equivalent to one before the thread's next operation
}
static void rwl(void* m, bool write) {
    if (write) { block([m] { auto i = W->rw.find(m); return i == W->rw.end() || (!i->second.first && i->second.second == 0); }, "write lock"); W->rw[m] = {self, 0}; }
    else { block([m] { auto i = W->rw.find(m); return i == W->rw.end() || !i->second.first; }, "read lock"); W->rw[m].second++; }
    if (mc_hb_acquire) mc_hb_acquire(self->id, m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { REALFN(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*)); if (!self || W->dead) return rf(m); rwl(m, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { REALFN(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*)); if (!self || W->dead) return rf(m); rwl(m, true); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REALFN(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*)); if (!self || W->dead) return rf(m);
    if (mc_hb_release) mc_hb_release(self->id, m);
    auto i = W->rw.find(m); if (i != W->rw.end()) { if (i->second.first) i->second = {nullptr, 0}; else i->second.second--; }
    reschedule(self); return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    modelUnlock(m);
    MThread* me = self; me->timedOut = false;
    bool woken = W->spurious && take(2) == 1;
    if (!woken) {
        W->conds[c].push_back(me);
        me->timed = timed;
        block([me] { return W->signaled.count(me) || me->timedOut; }, "condition wait");
        me->timed = false;
        W->signaled.erase(me);
        auto& q = W->conds[c]; q.erase(std::remove(q.begin(), q.end(), me), q.end());
    }
    modelLock(m, false);     // ordering between threads comes from the mutex alone
    return me->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REALFN(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*)); if (!self || W->dead) return rf(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { REALFN(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)); if (!self || W->dead) return rf(c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { REALFN(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)); if (!self || W->dead) return rf(c, m, k, t); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
    REALFN(pthread_cond_signal, int (*)(pthread_cond_t*)); if (!self || W->dead) return rf(c);
    auto& q = W->conds[c];
    if (!q.empty()) { int k = take(int(q.size())); MThread* t = q[k]; q.erase(q.begin() + k); W->signaled.insert(t); }
    reschedule(self); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REALFN(pthread_cond_broadcast, int (*)(pthread_cond_t*)); if (!self || W->dead) return rf(c);
    for (auto* t : W->conds[c]) W->signaled.insert(t);
    W->conds[c].clear();
    reschedule(self); return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    REALFN(pthread_once, int (*)(pthread_once_t*, void (*)(void)));
    if (!self || W->dead) return rf(o, f);
    block([o] { auto i = W->onceRunning.find(o); return i == W->onceRunning.end() || !i->second; }, "once initialisation");
    W->onceRunning[o] = true;
    int r; try { r = rf(o, f); } catch (...) { W->onceRunning[o] = false; throw; }
    W->onceRunning[o] = false;
    if (mc_hb_release) mc_hb_release(self->id, o);
    if (mc_hb_acquire) mc_hb_acquire(self->id, o);
    return r;
}
int mc_guard_acquire(void* g) __asm__("__cxa_guard_acquire");
int mc_guard_acquire(void* g) {
    REALFN(__cxa_guard_acquire, int (*)(void*));
    if (!self || W->dead) return rf(g);
    if (*(volatile char*)g) { if (mc_hb_acquire) mc_hb_acquire(self->id, g); return 0; }
    block([g] { return !W->guards.count(g); }, "static initialisation");
    if (*(volatile char*)g) { if (mc_hb_acquire) mc_hb_acquire(self->id, g); return 0; }
    W->guards.insert(g);
    return 1;
}
void mc_guard_release(void* g) __asm__("__cxa_guard_release");
void mc_guard_release(void* g) {
    REALFN(__cxa_guard_release, void (*)(void*));
    if (!self || W->dead) { rf(g); return; }
    *(volatile char*)g = 1; W->guards.erase(g); if (mc_hb_release) mc_hb_release(self->id, g);
}
void mc_guard_abort(void* g) __asm__("__cxa_guard_abort");
void mc_guard_abort(void* g) {
    REALFN(__cxa_guard_abort, void (*)(void*));
    if (!self || W->dead) { rf(g); return; }
    W->guards.erase(g);
}
int sched_yield(void) { if (self) reschedule(self); return 0; }

// ---------------------------------------------------------------- MPI
static World unmanagedWorld;      // for calls outside an exploration: one rank
static World* w() { return W ? W : &unmanagedWorld; }
static void fixGroup(MPI_Comm c) {
    if (c == &mc_comm_self) { c->group = {rank()}; return; }
    if (c == &mc_comm_world && c->group.empty()) c->group = {0};
}
static int crank(MPI_Comm c) { fixGroup(c); for (size_t i = 0; i < c->group.size(); ++i) if (c->group[i] == rank()) return int(i); return -1; }

int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { if (p) *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Query_thread(int* f) { *f = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { throw std::runtime_error("MPI_Abort " + std::to_string(code)); }
double MPI_Wtime(void) { return 0; }
int MPI_Get_library_version(char* b, int* n) { strcpy(b, "explored"); *n = 8; return 0; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return 0; }
int MPI_Get_processor_name(char* b, int* n) { strcpy(b, "explored"); *n = 8; return 0; }
int MPI_Error_string(int c, char* b, int* n) { *n = sprintf(b, "error %d", c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { if (!c) { error("rank of null communicator"); return MPI_ERR_OTHER; } *r = crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { if (!c) { error("size of null communicator"); return MPI_ERR_OTHER; } fixGroup(c); *n = int(c->group.size()); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = nullptr; return 0; }

static size_t bytesOf(int n, MPI_Datatype t) { return size_t(n) * t->size; }

// generic collective: every member arrives with a signature; the last one runs fin
static void collective(MPI_Comm c, const std::string& name, const std::string& sig, const void* in, size_t inBytes, void* out, long long aux,
                       const std::function<void(Coll&)>& fin, mc_comm** newcomm = nullptr) {
    if (!c) { error(name + " on a null communicator"); return; }
    fixGroup(c);
    const int me = crank(c);
    if (me < 0) { error(name + " on a communicator this rank does not belong to"); return; }
    const size_t n = c->group.size();
    point();
    long s = c->seq[rank()]++;
    auto& slot = c->colls[s];
    if (!slot) { slot = std::make_shared<Coll>(); slot->in.resize(n); slot->out.resize(n); slot->aux.resize(n); slot->newcomm.resize(n); slot->sig = sig; slot->name = name; }
    auto k = slot;
    if (k->sig != sig) { error("collective mismatch: " + name + "(" + sig + ") meets " + k->name + "(" + k->sig + ")"); throw std::runtime_error("collective mismatch"); }
    if (in) { if (mc_acc) mc_acc(in, inBytes, 0); k->in[me].assign((const char*)in, (const char*)in + inBytes); }
    if (mc_acc && out && name == "Allreduce") mc_acc(out, inBytes, 1);
    k->out[me] = out; k->aux[me] = aux;
    k->arrived++;
    if (k->arrived == int(n)) { fin(*k); k->done = true; c->colls.erase(s); w()->exec.collectives++; }
    static thread_local std::string what; what = name;
    block([k] { return k->done; }, what.c_str());
    if (newcomm) *newcomm = k->newcomm[me];
}
#define SIG(...) ([&] { std::ostringstream q; q << __VA_ARGS__; return q.str(); }())

int MPI_Barrier(MPI_Comm c) { collective(c, "Barrier", "", nullptr, 0, nullptr, 0, [](Coll&) {}); return 0; }

}
template<class T> static void red(T* acc, const T* x, size_t n, const std::string& op) {
    for (size_t i = 0; i < n; ++i) {
        if (op == "max") acc[i] = x[i] > acc[i] ? x[i] : acc[i]; else if (op == "min") acc[i] = x[i] < acc[i] ? x[i] : acc[i];
        else if (op == "sum") acc[i] = acc[i] + x[i]; else if (op == "prod") acc[i] = acc[i] * x[i];
        else if (op == "land") acc[i] = acc[i] && x[i]; else if (op == "lor") acc[i] = acc[i] || x[i];
    }
}
static void reduceInto(std::vector<char>& acc, const std::vector<char>& x, int kind, MPI_Op op) {
    const std::string o = op->name;
    auto go = [&](auto tag) { typedef decltype(tag) T; if (acc.size() == x.size()) red<T>((T*)acc.data(), (const T*)x.data(), acc.size() / sizeof(T), o); };
    switch (kind) { case K_FLOAT: go(float()); break; case K_DOUBLE: go(double()); break; case K_INT: go(int()); break; case K_LONG: go(long()); break; case K_LL: go((long long)0); break;
        case K_UINT: go(unsigned()); break; case K_ULONG: go((unsigned long)0); break; case K_ULL: go((unsigned long long)0); break; case K_SHORT: go(short()); break; case K_BOOL: go(bool()); break;
        case K_UCHAR: case K_BYTE: go((unsigned char)0); break; default: go(char()); }
}
extern "C" {
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    if (s != MPI_IN_PLACE && s == r && n > 0) error("MPI_Allreduce: send and receive buffer are the same");
    collective(c, "Allreduce", SIG(n << "," << t->kind << "," << op->name), s == MPI_IN_PLACE ? r : s, bytesOf(n, t), r, 0, [&](Coll& k) {
        auto acc = k.in[0]; for (size_t i = 1; i < k.in.size(); ++i) reduceInto(acc, k.in[i], t->kind, op);
        for (auto* o : k.out) memcpy(o, acc.data(), acc.size()); });
    return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    fixGroup(c);
    if (crank(c) == root && s == r && n > 0) error("MPI_Reduce: send and receive buffer of the root are the same");
    collective(c, "Reduce", SIG(n << "," << t->kind << "," << op->name << ",root" << root), s == MPI_IN_PLACE ? r : s, bytesOf(n, t), r, 0, [&](Coll& k) {
        auto acc = k.in[0]; for (size_t i = 1; i < k.in.size(); ++i) reduceInto(acc, k.in[i], t->kind, op);
        if (root < 0 || size_t(root) >= k.out.size()) { error("MPI_Reduce: root out of range"); return; }
        if (acc.size()) memcpy(k.out[root], acc.data(), acc.size()); });
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    collective(c, "Bcast", SIG(n << "," << t->kind << ",root" << root), b, bytesOf(n, t), b, 0, [&](Coll& k) { for (auto* o : k.out) memcpy(o, k.in[root].data(), k.in[root].size()); });
    return 0;
}
static int gatherLike(const char* nm, const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype, int root, MPI_Comm c) {
    fixGroup(c);
    const size_t each = bytesOf(n, t); const int me = crank(c);
    const void* src = s == MPI_IN_PLACE ? (const char*)r + each * me : s;
    collective(c, nm, SIG(n << "," << t->kind << ",root" << root), src, each, r, rn, [&](Coll& k) {
        for (size_t d = 0; d < k.out.size(); ++d) if (root < 0 || int(d) == root) { if (k.aux[d] != n) error(std::string(nm) + ": receive count differs from send count"); for (size_t i = 0; i < k.in.size(); ++i) memcpy((char*)k.out[d] + i * each, k.in[i].data(), each); } });
    return 0;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherLike("Gather", s, n, t, r, rn, rt, root, c); }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherLike("Allgather", s, n, t, r, rn, rt, -1, c); }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    fixGroup(c); const size_t each = bytesOf(rn, rt);
    collective(c, "Scatter", SIG(rn << "," << rt->kind << ",root" << root), crank(c) == root ? s : nullptr, each * c->group.size(), r, 0, [&](Coll& k) { for (size_t i = 0; i < k.out.size(); ++i) memcpy(k.out[i], k.in[root].data() + i * each, each); });
    return 0;
}
static void doSplit(MPI_Comm c, int color, int key, MPI_Comm* out, const char* nm) {
    long long aux = (long long)color * 1000000 + key;
    collective(c, nm, "", nullptr, 0, nullptr, aux, [&](Coll& k) {
        std::map<long long, std::vector<std::pair<long long, int>>> by;
        for (size_t i = 0; i < k.aux.size(); ++i) { long long col = (k.aux[i] >= 0 ? k.aux[i] / 1000000 : -1), ke = k.aux[i] - col * 1000000; by[col].push_back({ke, int(i)}); }
        for (auto& b : by) { std::stable_sort(b.second.begin(), b.second.end()); auto* n = new mc_comm; n->id = w()->nextComm++; for (auto& m : b.second) n->group.push_back(c->group[m.second]);
            w()->comms.push_back(n); for (auto& m : b.second) k.newcomm[m.second] = b.first < 0 ? nullptr : n; } }, out);
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { doSplit(c, color, key, out, "Comm_split"); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { doSplit(c, 0, 0, out, "Comm_dup"); return 0; }

static void flatten(mc_request* r, void* buf, int n, MPI_Datatype t) {
    if (!t || t->freed) { error("message uses a released datatype"); throw std::runtime_error("bad datatype"); }
    if (!t->committed) error("message uses a datatype that was not committed");
    r->buf = (char*)buf; r->kind = t->kind;
    for (int i = 0; i < n; ++i) for (auto& b : t->blocks) r->blocks.push_back({b.first + ptrdiff_t(i * t->extent), b.second});
    for (auto& b : r->blocks) r->bytes += b.second;
}
// A send may overlap a receive that is still pending (halo messages include corner cells): what it carries
// there is the old content, not the poison.
static void capture(mc_request* s) {
    if (s->captured) return;
    s->data.resize(s->bytes); size_t p = 0; for (auto& b : s->blocks) { memcpy(s->data.data() + p, s->buf + b.first, b.second); p += b.second; } s->captured = true;
    for (auto* r : w()->requests) if (!r->send && !r->delivered && !r->before.empty() && r->buf == s->buf) {
        size_t q = 0;
        for (auto& rb : r->blocks) { size_t at = 0; for (auto& sb : s->blocks) {
            ptrdiff_t lo = std::max(rb.first, sb.first), hi = std::min(rb.first + ptrdiff_t(rb.second), sb.first + ptrdiff_t(sb.second));
            if (lo < hi) memcpy(s->data.data() + at + (lo - sb.first), r->before.data() + q + (lo - rb.first), hi - lo);
            at += sb.second; } q += rb.second; }
    }
}
static void deliver(mc_request* r) {
    if (r->delivered) return; r->delivered = true;
    mc_request* s = r->match; capture(s); r->before.clear(); size_t p = 0;
    if (s->bytes > r->bytes) { error("message longer than the receive buffer (tag " + std::to_string(r->tag) + ")"); }
    for (auto& b : r->blocks) { size_t n = std::min(b.second, s->data.size() - std::min(p, s->data.size())); memcpy(r->buf + b.first, s->data.data() + p, n); p += n; }
    if (s->bytes && s->kind != r->kind && s->kind && r->kind) error("message element types differ");
}
static void pair(mc_request* s, mc_request* r) {
    s->match = r; r->match = s; r->srcFound = s->me; r->tagFound = s->tag; w()->exec.messages++;
    if (w()->policy.early) deliver(r);
}
static mc_request* post(bool send, bool sync, void* buf, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c) {
    if (!c) { error("message on a null communicator"); throw std::runtime_error("null communicator"); }
    fixGroup(c);
    point();
    auto* r = new mc_request; w()->requests.push_back(r);
    r->send = send; r->sync = sync; r->tag = tag; r->comm = c; r->me = crank(c); r->peer = peer;
    if (peer == MPI_PROC_NULL) { r->done = r->captured = r->delivered = true; return r; }
    flatten(r, buf, n, t);
    if (peer != MPI_ANY_SOURCE && (peer < 0 || peer >= int(c->group.size()))) { error("message to or from rank " + std::to_string(peer) + ", which does not exist"); throw std::runtime_error("bad rank"); }
    if (mc_acc) for (auto& b : r->blocks) mc_acc(r->buf + b.first, b.second, !send);
    if (send) {
        if (tag < 0) error("negative tag");
        if (w()->policy.eager) capture(r);
        for (auto it = c->recvs.begin(); it != c->recvs.end(); ++it) { auto* q = *it; if (q->me == peer && (q->peer == r->me || q->peer == MPI_ANY_SOURCE) && (q->tag == tag || q->tag == MPI_ANY_TAG)) { c->recvs.erase(it); pair(r, q); return r; } }
        c->sends.push_back(r);
    } else {
        if (w()->policy.poison) { for (auto& b : r->blocks) r->before.insert(r->before.end(), r->buf + b.first, r->buf + b.first + b.second);
          for (auto* o : w()->requests) if (o != r && !o->send && !o->delivered && !o->before.empty() && o->buf == r->buf) { size_t q = 0; for (auto& rb : o->blocks) { size_t at = 0; for (auto& sb : r->blocks) { ptrdiff_t lo = std::max(rb.first, sb.first), hi = std::min(rb.first + ptrdiff_t(rb.second), sb.first + ptrdiff_t(sb.second)); if (lo < hi) memcpy(r->before.data() + at + (lo - sb.first), o->before.data() + q + (lo - rb.first), hi - lo); at += sb.second; } q += rb.second; } } }
        if (w()->policy.poison) for (auto& b : r->blocks) {
            if (r->kind == K_DOUBLE) for (size_t i = 0; i + 8 <= b.second; i += 8) { double v = w()->policy.poison == 1 ? std::numeric_limits<double>::quiet_NaN() : 1e7; memcpy(r->buf + b.first + i, &v, 8); }
            else if (r->kind == K_FLOAT) for (size_t i = 0; i + 4 <= b.second; i += 4) { float v = w()->policy.poison == 1 ? std::numeric_limits<float>::quiet_NaN() : 1e7f; memcpy(r->buf + b.first + i, &v, 4); }
        }
        for (auto it = c->sends.begin(); it != c->sends.end(); ++it) { auto* q = *it; if (q->peer == r->me && (peer == q->me || peer == MPI_ANY_SOURCE) && (q->tag == tag || tag == MPI_ANY_TAG)) { c->sends.erase(it); pair(q, r); return r; } }
        c->recvs.push_back(r);
    }
    return r;
}
static bool canComplete(mc_request* r) { if (r->done) return true; if (r->send) return r->match || !(r->sync || w()->policy.rendezvous); return r->match != nullptr; }
static void complete(mc_request* r, MPI_Status* st) {
    if (!r->done) { if (mc_acc) for (auto& b : r->blocks) mc_acc(r->buf + b.first, b.second, !r->send); if (r->send) capture(r); else deliver(r); r->done = true; }
    if (st) { st->MPI_SOURCE = r->send ? r->me : r->srcFound; st->MPI_TAG = r->send ? r->tag : r->tagFound; st->MPI_ERROR = 0; st->mc_bytes = r->match && !r->send ? (long long)r->match->bytes : 0; }
}
static void waitOne(mc_request* r, MPI_Status* st) {
    block([r] { return canComplete(r); }, r->send ? "wait for a send" : "wait for a receive");
    complete(r, st);
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = post(true, false, (void*)b, n, t, d, tag, c); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { *q = post(true, true, (void*)b, n, t, d, tag, c); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { *q = post(false, false, b, n, t, s, tag, c); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { waitOne(post(true, false, (void*)b, n, t, d, tag, c), nullptr); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { waitOne(post(true, true, (void*)b, n, t, d, tag, c), nullptr); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { waitOne(post(false, false, b, n, t, s, tag, c), st); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stt) {
    auto* a = post(true, false, (void*)sb, sn, st, d, stag, c); auto* b = post(false, false, rb, rn, rt, s, rtag, c); waitOne(a, nullptr); waitOne(b, stt); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* st) { if (!*q) return 0; waitOne(*q, st); *q = nullptr; return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
    block([=] { for (int i = 0; i < n; ++i) if (q[i] && !canComplete(q[i])) return false; return true; }, "wait for all messages");
    for (int i = 0; i < n; ++i) if (q[i]) { complete(q[i], st ? st + i : nullptr); q[i] = nullptr; }
    return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
    bool any = false; for (int i = 0; i < n; ++i) any |= q[i] != nullptr;
    if (!any) { *idx = MPI_UNDEFINED; return 0; }
    block([=] { for (int i = 0; i < n; ++i) if (q[i] && canComplete(q[i])) return true; return false; }, "wait for any message");
    std::vector<int> r; for (int i = 0; i < n; ++i) if (q[i] && canComplete(q[i])) r.push_back(i);
    int i = r[choose(int(r.size()))]; complete(q[i], st); q[i] = nullptr; *idx = i; return 0;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) { point(); if (!*q) { *f = 1; return 0; } *f = canComplete(*q); if (*f) { complete(*q, st); *q = nullptr; } return 0; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) { point(); *f = 1; for (int i = 0; i < n; ++i) if (q[i] && !canComplete(q[i])) *f = 0; if (*f) for (int i = 0; i < n; ++i) if (q[i]) { complete(q[i], st ? st + i : nullptr); q[i] = nullptr; } return 0; }
int MPI_Request_free(MPI_Request* q) { if (*q) { (*q)->done = true; *q = nullptr; } return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = int(s->mc_bytes / (long long)t->size); return 0; }

static mc_type* derived(MPI_Datatype base, const std::vector<std::pair<ptrdiff_t, int>>& blk /* displacement and length in elements */) {
    auto* t = new mc_type; t->kind = base->kind; ptrdiff_t hi = 0;
    for (auto& b : blk) for (int i = 0; i < b.second; ++i) for (auto& x : base->blocks) {
        ptrdiff_t at = (b.first + i) * ptrdiff_t(base->extent) + x.first;
        if (!t->blocks.empty() && t->blocks.back().first + ptrdiff_t(t->blocks.back().second) == at) t->blocks.back().second += x.second; else t->blocks.push_back({at, x.second});
        t->size += x.second; hi = std::max(hi, at + ptrdiff_t(x.second)); }
    t->extent = hi; return t;
}
int MPI_Type_contiguous(int n, MPI_Datatype b, MPI_Datatype* o) { *o = derived(b, {{0, n}}); return 0; }
int MPI_Type_vector(int n, int len, int stride, MPI_Datatype b, MPI_Datatype* o) { std::vector<std::pair<ptrdiff_t, int>> v; for (int i = 0; i < n; ++i) v.push_back({ptrdiff_t(i) * stride, len}); *o = derived(b, v); return 0; }
int MPI_Type_indexed(int n, const int* l, const int* d, MPI_Datatype b, MPI_Datatype* o) { std::vector<std::pair<ptrdiff_t, int>> v; for (int i = 0; i < n; ++i) v.push_back({d[i], l[i]}); *o = derived(b, v); return 0; }
int MPI_Type_create_indexed_block(int n, int l, const int* d, MPI_Datatype b, MPI_Datatype* o) { std::vector<std::pair<ptrdiff_t, int>> v; for (int i = 0; i < n; ++i) v.push_back({d[i], l}); *o = derived(b, v); return 0; }
int MPI_Type_create_subarray(int nd, const int* full, const int* sub, const int* st, int order, MPI_Datatype b, MPI_Datatype* o) {
    std::vector<std::pair<ptrdiff_t, int>> v; std::vector<int> ix(nd, 0); long total = 1; for (int i = 0; i < nd; ++i) total *= sub[i];
    for (long k = 0; k < total; ++k) {
        long q = k; ptrdiff_t at = 0;
        std::vector<int> c(nd);
        for (int j = 0; j < nd; ++j) { int dd = order == MPI_ORDER_C ? nd - 1 - j : j; c[dd] = int(q % sub[dd]); q /= sub[dd]; }
        if (order == MPI_ORDER_C) for (int j = 0; j < nd; ++j) at = at * full[j] + st[j] + c[j]; else for (int j = nd - 1; j >= 0; --j) at = at * full[j] + st[j] + c[j];
        v.push_back({at, 1}); }
    *o = derived(b, v); ptrdiff_t ext = (*o)->kind ? b->extent : b->extent; for (int i = 0; i < nd; ++i) ext *= full[i]; (*o)->extent = ext; return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { (*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t) { if (*t && (*t)->predef) error("freeing a predefined datatype"); else if (*t) { if ((*t)->freed) error("datatype freed twice"); (*t)->freed = true; std::vector<std::pair<ptrdiff_t, size_t>>().swap((*t)->blocks); } *t = nullptr; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = int(t->size); return 0; }
int MPI_Info_create(MPI_Info* i) { *i = new mc_info; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = nullptr; return 0; }
}  // extern "C"
