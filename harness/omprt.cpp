#include "omprt.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <pthread.h>
#include <sys/mman.h>
#include <cstdint>
#include <ucontext.h>
#include <unistd.h>
namespace race { int teamMember(int); int self(); void setMember(int); void teamStart(int, int, const void*, size_t); void teamStep(int); void teamEnd(int, int); void lockGet(void*); void lockPut(void*); }
namespace ompx { int teamSize = 1, order = 0, dealing = 0; static long nRegions = 0, nMembers = 0; long regions() { return nRegions; } long members() { return nMembers; } }
namespace {
enum { STACK = 1 << 18, MAXM = 16 };
struct Loop { long next, end, incr, chunk; unsigned long long unext, uend, uincr, uchunk; int kind; std::vector<long> given; int users = 0; long single = 0; };
struct Member { ucontext_t ctx; void* stack = nullptr; int id = -1, tid = 0; bool done = false, atBarrier = false; int loop = 0, single = 0; long taken = 0; };
struct Team { int n; Member m[MAXM]; ucontext_t back; void (*fn)(void*); void* data; int parent; std::map<int, Loop> loops; std::map<int, int> singles; void* copy = nullptr; Team* outer; Member* outerMember; };
thread_local Team* team = nullptr; thread_local Member* me = nullptr;
std::vector<void*> stacks; std::vector<int> freeIds; int idsMade = 0;
void* getStack() { if (!stacks.empty()) { void* s = stacks.back(); stacks.pop_back(); return s; } void* s = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (s == MAP_FAILED) { printf("HARNESS-ERROR no stack\n"); fflush(stdout); _exit(3); } return s; }
int getId() { if (!freeIds.empty()) { int i = freeIds.back(); freeIds.pop_back(); return i; } if (idsMade >= 30) { printf("HARNESS-ERROR too many team members\n"); fflush(stdout); _exit(3); } return race::teamMember(idsMade++); }
void entry(unsigned hi, unsigned lo) { Member* m = (Member*)((uintptr_t(hi) << 32) | lo); Team* t = team; t->fn(t->data); m->done = true; swapcontext(&m->ctx, &t->back); }
void runMember(Team& t, Member& m) { me = &m; race::setMember(m.id); swapcontext(&t.back, &m.ctx); race::setMember(t.outerMember ? t.outerMember->id : -1); me = t.outerMember; }
bool parallel() { return mc::threadId() >= 0 && ompx::teamSize > 1 && !me; }      // no nested teams
void region(void (*fn)(void*), void* data, unsigned want, const Loop* first) {
    const int n = want ? std::min<int>(want, MAXM) : ompx::teamSize;
    if (!parallel() || n == 1) { Team t; t.n = 1; t.outer = team; t.outerMember = me; Member one; t.parent = -1; if (first) t.loops[0] = *first; team = &t; me = &one; one.id = t.outerMember ? t.outerMember->id : -1; one.tid = 0; fn(data); team = t.outer; me = t.outerMember; return; }
    Team t; t.n = n; t.fn = fn; t.data = data; t.outer = team; t.outerMember = me; t.parent = race::self(); if (first) t.loops[0] = *first; team = &t; ompx::nRegions++; ompx::nMembers += n;
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; { int k = ompx::order; std::vector<int> pool = perm; long f = 1; for (int i = 2; i < n; ++i) f *= i; for (int i = 0; i < n; ++i) { int q = int(k / f % pool.size()); perm[i] = pool[q]; pool.erase(pool.begin() + q); if (n - 1 - i > 0) { k %= f; f /= std::max(1, n - 1 - i); } } }
    for (int i = 0; i < n; ++i) { Member& m = t.m[i]; m.tid = i; m.id = getId(); m.stack = getStack(); getcontext(&m.ctx); m.ctx.uc_stack.ss_sp = m.stack; m.ctx.uc_stack.ss_size = STACK; m.ctx.uc_link = nullptr; uintptr_t p = uintptr_t(&m); makecontext(&m.ctx, (void (*)())entry, 2, unsigned(p >> 32), unsigned(p)); race::teamStart(t.parent, m.id, m.stack, STACK); }
    race::teamStep(t.parent);
    for (bool more = true; more;) {
        more = false; for (int i : perm) { Member& m = t.m[i]; if (m.done) continue; m.atBarrier = false; runMember(t, m); more = more || !m.done; }
        bool any = false, all = true; for (int i = 0; i < n; ++i) { any = any || !t.m[i].done; all = all && !t.m[i].done; } if (any && !all) { mc::error("a thread of a team ends while others wait at a barrier"); break; }
        if (any) { for (int i = 0; i < n; ++i) race::teamEnd(t.parent, t.m[i].id); for (int i = 0; i < n; ++i) race::teamStart(t.parent, t.m[i].id, nullptr, 0); race::teamStep(t.parent); }
    }
    for (int i = n - 1; i >= 0; --i) { race::teamEnd(t.parent, t.m[i].id); freeIds.push_back(t.m[i].id); stacks.push_back(t.m[i].stack); }
    team = t.outer; me = t.outerMember;
}
void barrier() { if (!team || team->n == 1) return; me->atBarrier = true; Member* m = me; swapcontext(&m->ctx, &team->back); }
// the chunk numbers belong to members beforehand (every such assignment can come about)
bool owns(const Loop& l, long chunkNo, long chunks, int tid, int n) { switch (ompx::dealing) { case 1: return tid == 0; case 2: return tid == n - 1; case 3: return tid == n - 1 - int(chunkNo * n / std::max(1L, chunks)); default: return int(chunkNo % n) == tid; } }
Loop loopOf(long a, long b, long inc, long chunk, int kind) { Loop l; l.next = a; l.end = b; l.incr = inc; l.chunk = std::max(1L, chunk); l.kind = kind; return l; }
Loop& current() { return team->loops[me->loop]; }
bool take(long* s, long* e) {
    Loop& l = current(); const long span = l.incr > 0 ? l.end - l.next : l.next - l.end, step = l.incr > 0 ? l.incr : -l.incr, its = span > 0 ? (span + step - 1) / step : 0, chunks = (its + l.chunk - 1) / l.chunk;
    for (long k = me->taken; k < chunks; ++k) if (owns(l, k, chunks, me->tid, team->n)) { me->taken = k + 1; *s = l.next + k * l.chunk * l.incr; *e = l.next + std::min(its, (k + 1) * l.chunk) * l.incr; return true; }
    me->taken = chunks; return false;
}
bool start(long a, long b, long inc, long chunk, long* s, long* e) { static thread_local Team alone; if (!team) { alone.n = 1; alone.outer = nullptr; alone.outerMember = nullptr; static thread_local Member one; one.loop = 0; team = &alone; me = &one; } if (!team->loops.count(me->loop)) team->loops[me->loop] = loopOf(a, b, inc, chunk, 0); me->taken = 0; return take(s, e); }
void endLoop() { me->loop++; me->taken = 0; }
int atomicLock, criticalLock;
}
extern "C" {
int omp_get_thread_num(void) noexcept { return me ? me->tid : 0; }
int omp_get_num_threads(void) noexcept { return team ? team->n : 1; }
int omp_get_max_threads(void) noexcept { return ompx::teamSize; }
int omp_get_num_procs(void) noexcept { return ompx::teamSize; }
int omp_in_parallel(void) noexcept { return team && team->n > 1; }
void omp_set_num_threads(int) noexcept {}
double omp_get_wtime(void) noexcept { return 0; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn, data, n, nullptr); }
#define PL(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long inc, long chunk, unsigned) { Loop l = loopOf(a, b, inc, chunk, 0); region(fn, data, n, &l); }
PL(static) PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
#define PR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long inc, unsigned) { Loop l = loopOf(a, b, inc, 1, 0); region(fn, data, n, &l); }
PR(runtime) PR(nonmonotonic_runtime) PR(maybe_nonmonotonic_runtime)
#define LS(name) bool GOMP_loop_##name##_start(long a, long b, long inc, long chunk, long* s, long* e) { return start(a, b, inc, chunk, s, e); } bool GOMP_loop_##name##_next(long* s, long* e) { return take(s, e); }
LS(static) LS(dynamic) LS(guided) LS(nonmonotonic_dynamic) LS(nonmonotonic_guided)
#define LR(name) bool GOMP_loop_##name##_start(long a, long b, long inc, long* s, long* e) { return start(a, b, inc, 1, s, e); } bool GOMP_loop_##name##_next(long* s, long* e) { return take(s, e); }
LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
#define LU(name) bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long chunk, unsigned long long* s, unsigned long long* e) { (void)up; long x, y; bool r = start(long(a), long(b), long(inc), long(chunk), &x, &y); *s = x; *e = y; return r; } bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { long x, y; bool r = take(&x, &y); *s = x; *e = y; return r; }
LU(static) LU(dynamic) LU(guided) LU(nonmonotonic_dynamic) LU(nonmonotonic_guided)
#define LV(name) bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long* s, unsigned long long* e) { (void)up; long x, y; bool r = start(long(a), long(b), long(inc), 1, &x, &y); *s = x; *e = y; return r; } bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { long x, y; bool r = take(&x, &y); *s = x; *e = y; return r; }
LV(runtime) LV(nonmonotonic_runtime) LV(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { endLoop(); barrier(); }
void GOMP_loop_end_nowait(void) { endLoop(); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) { if (!team || team->n == 1) return true; const int k = me->single++; if (!team->singles.count(k)) { team->singles[k] = me->tid; } return team->singles[k] == me->tid; }
void GOMP_critical_start(void) { race::lockGet(&criticalLock); }
void GOMP_critical_end(void) { race::lockPut(&criticalLock); }
void GOMP_critical_name_start(void** p) { race::lockGet(p); }
void GOMP_critical_name_end(void** p) { race::lockPut(p); }
void GOMP_atomic_start(void) { race::lockGet(&atomicLock); }
void GOMP_atomic_end(void) { race::lockPut(&atomicLock); }
bool GOMP_sections_next_(void) { return false; }
unsigned GOMP_sections_start(unsigned count) { long s, e; return start(1, long(count) + 1, 1, 1, &s, &e) ? unsigned(s) : 0; }
unsigned GOMP_sections_next(void) { long s, e; return take(&s, &e) ? unsigned(s) : 0; }
void GOMP_sections_end(void) { endLoop(); barrier(); }
void GOMP_sections_end_nowait(void) { endLoop(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Loop l = loopOf(1, long(count) + 1, 1, 1, 0); region(fn, data, n, &l); }
}
