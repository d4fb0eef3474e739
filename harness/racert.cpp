#include "race.hpp"
#include "mcrt.hpp"
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <malloc.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
enum { MAXT = 128, SLOTS = 4 };
struct Entry { uint64_t pcTid; uint32_t clock; uint8_t mask, write, atomic, used; };     // pc in the low 48 bits, thread above
struct Page { uint64_t key; uint32_t epoch; uint8_t next[512]; Entry e[512][SLOTS]; };
uint32_t epoch = 1;
Page** table = nullptr; size_t tableBits = 16, pages = 0;
uint32_t VC[MAXT][MAXT];
bool known[MAXT];
struct Sync { uint64_t key; uint32_t epoch; uint32_t vc[MAXT]; };
Sync** syncs = nullptr; size_t syncBits = 16, nsyncs = 0;
long nAccess = 0, nPairs = 0, nRaces = 0;
struct Raw { uint64_t pc1, pc2, addr; int t1, t2, rank; bool w1, w2; };
Raw raw[64]; int nraw = 0;
thread_local int off = 0;
thread_local int member = -1;      // a member of a team the thread is running (omprt.cpp)
int current() { const int t = mc::threadId(); return t < 0 ? t : member >= 0 ? member : t; }
int mapped(int t) { return member >= 0 && t == mc::threadId() ? member : t; }

void* fresh(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "racert: out of memory\n"); _exit(3); } return p; }
inline uint64_t hash(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }

template<class T> T* lookup(T**& tab, size_t& bits, size_t& count, uint64_t key, bool create) {
    if (!tab) tab = (T**)fresh(sizeof(T*) << bits);
    size_t m = (size_t(1) << bits) - 1, i = hash(key) & m;
    for (; tab[i]; i = (i + 1) & m) if (tab[i]->key == key) return tab[i];
    if (!create) return nullptr;
    if (2 * (count + 1) > m) {
        T** old = tab; size_t om = m; ++bits; m = (size_t(1) << bits) - 1; tab = (T**)fresh(sizeof(T*) << bits);
        for (size_t k = 0; k <= om; ++k) if (old[k]) { size_t j = hash(old[k]->key) & m; while (tab[j]) j = (j + 1) & m; tab[j] = old[k]; }
        munmap(old, sizeof(T*) * (om + 1));
        for (i = hash(key) & m; tab[i]; i = (i + 1) & m) {}
    }
    static char* pool = nullptr; static size_t left = 0;
    if (left < sizeof(T)) { left = size_t(64) << 20; pool = (char*)fresh(left); }
    T* t = (T*)pool; pool += (sizeof(T) + 15) & ~size_t(15); left -= std::min(left, (sizeof(T) + 15) & ~size_t(15));
    t->key = key; count++; tab[i] = t; return t;
}
inline uint64_t keyOf(uint64_t a, int rank) { return a ^ (uint64_t(rank + 1) << 52); }
Page* page(uint64_t addr, int rank, bool create) {
    static thread_local uint64_t lastKey = 0; static thread_local Page* last = nullptr;
    uint64_t k = keyOf(addr >> 12, rank);
    Page* p = (k == lastKey && last) ? last : lookup(table, tableBits, pages, k, create);
    if (!p) return nullptr;
    lastKey = k; last = p;
    if (p->epoch != epoch) { memset(p->e, 0, sizeof p->e); p->epoch = epoch; }
    return p;
}
void forget(const void* q, size_t n, int rank) {
    uint64_t a = uint64_t(q) & ~7ull, end = uint64_t(q) + n;
    while (a < end) {
        uint64_t next = std::min<uint64_t>((a | 4095) + 1, end);
        if (Page* p = page(a, rank, false)) memset(p->e[(a & 4095) >> 3], 0, sizeof(p->e[0]) * ((next - a + 7) >> 3));
        a = next;
    }
}
void newThread(int t) {
    if (t >= MAXT - 32 && !known[t]) { printf("HARNESS-ERROR race detector: too many threads\n"); fflush(stdout); _exit(3); }
    if (known[t]) return; known[t] = true; if (!VC[t][t]) VC[t][t] = 1;
    pthread_attr_t a; void* s; size_t n;
    if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &s, &n); pthread_attr_destroy(&a); forget(s, n + 8192, mc::rank()); }
}
void granule(uint64_t g, uint8_t mask, bool write, bool atomic, int t, int rank, uint64_t pc) {
    Page* p = page(g, rank, true); size_t i = (g & 4095) >> 3; Entry* e = p->e[i]; uint32_t* vc = VC[t];
    int at = -1;
    for (int k = 0; k < SLOTS; ++k) {
        Entry& x = e[k];
        if (!x.used) { if (at < 0) at = k; continue; }
        int xt = int(x.pcTid >> 48);
        if (xt == t) { if ((x.mask & ~mask) == 0 && (write || !x.write) && (!atomic || x.atomic)) at = k; continue; }
        if (!(x.mask & mask)) continue;
        if ((write || x.write) && !(atomic && x.atomic)) {
            if (x.clock > vc[xt]) {
                nRaces++;
                if (nraw < 64) { bool dup = false; for (int r = 0; r < nraw; ++r) if (raw[r].pc1 == (x.pcTid & 0xffffffffffffull) && raw[r].pc2 == pc) dup = true;
                    if (!dup) raw[nraw++] = {x.pcTid & 0xffffffffffffull, pc, g, xt, t, rank, bool(x.write), write}; }
                x.used = 0; if (at < 0) at = k; continue;
            }
            nPairs++;
        }
        if (x.clock <= vc[xt] && (x.mask & ~mask) == 0 && (write || !x.write)) at = k;     // ordered and covered
    }
    if (at < 0) { at = p->next[i] & 3; p->next[i]++; }
    e[at] = {pc | (uint64_t(t) << 48), vc[t], mask, uint8_t(write), uint8_t(atomic), 1};
}
void access(const void* q, size_t n, bool write, bool atomic, void* pcv) {
    int t = current();
    if (t < 0 || off || !n) return;
    newThread(t);
    int rank = mc::rank(); uint64_t a = uint64_t(q), end = a + n, pc = uint64_t(pcv) & 0xffffffffffffull;
    nAccess++;
    while (a < end) {
        uint64_t g = a & ~7ull, hi = std::min(end, g + 8); uint8_t mask = uint8_t(((1u << (hi - g)) - 1) & ~((1u << (a - g)) - 1));
        granule(g, mask, write, atomic, t, rank, pc); a = hi;
    }
}
Sync* sync(void* o, bool create) {
    Sync* s = lookup(syncs, syncBits, nsyncs, keyOf(uint64_t(o), mc::rank()), create);
    if (s && s->epoch != epoch) { memset(s->vc, 0, sizeof s->vc); s->epoch = epoch; }
    return s;
}
void acquire(int t, void* o) { if (Sync* s = sync(o, false)) for (int i = 0; i < MAXT; ++i) if (s->vc[i] > VC[t][i]) VC[t][i] = s->vc[i]; }
void release(int t, void* o) { Sync* s = sync(o, true); for (int i = 0; i < MAXT; ++i) if (VC[t][i] > s->vc[i]) s->vc[i] = VC[t][i]; VC[t][t]++; }
void atomicOp(const volatile void* q, size_t n, bool write, void* pc) {
    int t = current(); if (t < 0 || off) return;
    access((const void*)q, n, write, true, pc); acquire(t, (void*)q); if (write) release(t, (void*)q);
}
std::string where(uint64_t pc) {
    Dl_info d; char cmd[600];
    if (!dladdr((void*)pc, &d) || !d.dli_fname) return "?";
    snprintf(cmd, sizeof cmd, "addr2line -Csfpe '%s' 0x%lx 2>/dev/null", d.dli_fname, (unsigned long)(pc - 1 - uint64_t(d.dli_fbase)));
    std::string out; if (FILE* f = popen(cmd, "r")) { char b[512]; while (fgets(b, sizeof b, f)) out += b; pclose(f); }
    while (!out.empty() && out.back() == '\n') out.pop_back();
    if (out.size() > 260) out = out.substr(0, 120) + " ... " + out.substr(out.size() - 120);
    return out;
}
}
namespace race {
Off::Off() { ++off; }
Off::~Off() { --off; }
long accesses() { return nAccess; }
long sharedPairs() { return nPairs; }
long total() { return nRaces; }
// members of teams have the numbers from the top downwards
int teamMember(int k) { return MAXT - 1 - k; }
int self() { return current(); }
void setMember(int m) { member = m; }
void teamStart(int parent, int m, const void* stack, size_t n) { newThread(parent); const uint32_t c = VC[m][m] + 1; for (int i = 0; i < MAXT; ++i) VC[m][i] = VC[parent][i]; VC[m][m] = c; known[m] = true; if (stack) forget(stack, n, mc::rank()); }
void teamStep(int t) { VC[t][t]++; }
void teamEnd(int parent, int m) { for (int i = 0; i < MAXT; ++i) if (VC[m][i] > VC[parent][i]) VC[parent][i] = VC[m][i]; }
void lockGet(void* o) { const int t = current(); if (t >= 0) { newThread(t); acquire(t, o); } }
void lockPut(void* o) { const int t = current(); if (t >= 0) { newThread(t); release(t, o); } }
std::vector<Report> reports() {
    std::vector<Report> out;
    for (int i = 0; i < nraw && i < 8; ++i) {
        std::string a = where(raw[i].pc1), b = where(raw[i].pc2);
        out.push_back({std::string(raw[i].w1 ? "write" : "read") + " by thread " + std::to_string(raw[i].t1) + " in " + a + " and " + (raw[i].w2 ? "write" : "read") + " by thread " + std::to_string(raw[i].t2) + " in " + b + " of process " + std::to_string(raw[i].rank) + " are not ordered", a + " / " + b});
    }
    return out;
}
}
extern "C" {
void mc_hb_reset(void) { epoch++; memset(VC, 0, sizeof VC); memset(known, 0, sizeof known); nraw = 0; nRaces = 0; }
void mc_hb_fork(int p, int c) { p = mapped(p); if (c >= MAXT) return; newThread(p); for (int i = 0; i < MAXT; ++i) VC[c][i] = VC[p][i]; VC[c][c] = 1; VC[p][p]++; }
void mc_hb_join(int p, int c) { p = mapped(p); for (int i = 0; i < MAXT; ++i) if (VC[c][i] > VC[p][i]) VC[p][i] = VC[c][i]; }
void mc_hb_acquire(int t, void* o) { t = mapped(t); newThread(t); acquire(t, o); }
void mc_hb_release(int t, void* o) { t = mapped(t); newThread(t); release(t, o); }
void mc_acc(const void* p, size_t n, int write) { access(p, n, write, false, __builtin_return_address(0)); }

#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
  void __tsan_read##n##_pc(void* p, void* c) { access(p, n, false, false, c); } void __tsan_write##n##_pc(void* p, void* c) { access(p, n, true, false, c); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atomicOp(p, sizeof(T), false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomicOp(p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, false, PC); return __real_memset(d, v, n); }
}
// Fresh memory has no history; releasing memory counts as writing it.
static void* grab(size_t n) { void* p = malloc(n ? n : 1); if (p && mc::threadId() >= 0) forget(p, malloc_usable_size(p), mc::rank()); return p; }
static void give(void* p, void* pc) { if (!p) return; if (mc::threadId() >= 0) access(p, malloc_usable_size(p), true, false, pc); free(p); }
void* operator new(size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void operator delete(void* p) noexcept { give(p, PC); }
void operator delete[](void* p) noexcept { give(p, PC); }
void operator delete(void* p, size_t) noexcept { give(p, PC); }
void operator delete[](void* p, size_t) noexcept { give(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, PC); }
