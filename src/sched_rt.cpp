#include "sched_rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <ctime>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
#include <cerrno>
#include <dlfcn.h>
#include <cstdio>

namespace {
constexpr size_t N = 1 << 22;
struct Word { uint64_t key; uint32_t epoch; uint32_t bits; };
Word* table = nullptr; uint32_t* used = nullptr; size_t nUsed = 0; uint32_t epoch = 1;
constexpr size_t M = 1 << 12; uint64_t hot[M]; size_t nHot = 0;
constexpr size_t E = 1 << 16; struct Site { uintptr_t pc; uint32_t run; uint32_t n[2]; bool known, ours; }; Site sites[E]; uint32_t theRun = 0; unsigned perSite = 1;
__thread int me = -1; __thread bool on = false; __thread char *lo, *hi;
int mode = 0; sem_t turn[2]; volatile bool done[2]; volatile bool gaveUp = false; uint64_t accesses[2], points[2];
const std::vector<sched::Switch>* plan = nullptr; size_t next = 0;

Word& slot(uint64_t k) { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 42; for (;;) { Word& w = table[i & (N - 1)]; if (w.epoch != epoch) { w.key = k; w.epoch = epoch; w.bits = 0; if (nUsed > N * 3 / 4) abort(); used[nUsed++] = i & (N - 1); return w; } if (w.key == k) return w; ++i; } }
bool isHot(uint64_t k) { size_t i = (k * 0x9E3779B97F4A7C15ull) >> 52; for (;;) { uint64_t h = hot[i & (M - 1)]; if (!h) return false; if (h == k) return true; ++i; } }
void waitTurn() {
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 3;
    while (sem_timedwait(&turn[me], &t)) { if (errno == EINTR) continue; gaveUp = true; return; }   // the other one waits for us (a lock): go on
}
void point() {
    uint64_t n = ++points[me];
    if (gaveUp || !plan || next >= plan->size()) return;
    auto& s = (*plan)[next]; if (s.thread != me || s.point != n) return;
    ++next; if (done[1 - me]) return; sem_post(&turn[1 - me]); waitTurn();
}
inline void touch(void* p, size_t n, bool write) {
    if (!on) return; char* c = (char*)p; if (c >= lo && c < hi) return;
    on = false; accesses[me]++;
    uint64_t a = uint64_t(c) >> 3, b = (uint64_t(c) + (n ? n - 1 : 0)) >> 3;
    if (mode == sched::Record) { if (b - a > 4096) b = a + 4096; for (; a <= b; ++a) slot(a).bits |= (write ? 2u : 1u) << (2 * me); }
    else if (mode == sched::Accesses) { for (; a <= b; ++a) if (isHot(a)) { point(); break; } }
    on = true;
}
struct Start { int id; const std::function<void()>* f; const std::function<void()>* prepare; };
pthread_barrier_t ready;
void* body(void* v) {
    Start* s = (Start*)v; me = s->id; pthread_attr_t at; void* addr; size_t size; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &addr, &size); pthread_attr_destroy(&at); lo = (char*)addr; hi = lo + size;
    if (*s->prepare) (*s->prepare)();
    pthread_barrier_wait(&ready); for (;;) { if (!sem_wait(&turn[me])) break; }
    on = mode != sched::Off; (*s->f)(); on = false;
    done[me] = true; if (!done[1 - me]) sem_post(&turn[1 - me]); return nullptr;
}
}
namespace sched {
Outcome run(Mode m, int first, const std::vector<Switch>& switches, const std::function<void()>& a, const std::function<void()>& b, const std::function<void()>& pa, const std::function<void()>& pb) {
    if (!table) table = (Word*)mmap(nullptr, N * sizeof(Word), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), used = (uint32_t*)mmap(nullptr, N * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mode = m; plan = &switches; next = 0; gaveUp = false; ++theRun; for (int i = 0; i < 2; ++i) { done[i] = false; accesses[i] = points[i] = 0; sem_init(&turn[i], 0, 0); }
    if (!b) done[1] = true; if (!a) done[0] = true;
    int n = (a ? 1 : 0) + (b ? 1 : 0); pthread_barrier_init(&ready, nullptr, n + 1); Start s[2] = {{0, &a, &pa}, {1, &b, &pb}}; pthread_t t[2]; bool used[2] = {bool(a), bool(b)};
    for (int i = 0; i < 2; ++i) if (used[i]) pthread_create(&t[i], nullptr, body, &s[i]);
    pthread_barrier_wait(&ready); sem_post(&turn[used[first] ? first : 1 - first]); for (int i = 0; i < 2; ++i) if (used[i]) pthread_join(t[i], nullptr);
    pthread_barrier_destroy(&ready); for (auto& x : turn) sem_destroy(&x); mode = Off;
    Outcome o; o.blocked = gaveUp; for (int i = 0; i < 2; ++i) { o.accesses[i] = accesses[i]; o.points[i] = points[i]; } return o;
}
void forget(bool all) { ++epoch; nUsed = 0; if (all) { nHot = 0; memset(hot, 0, sizeof hot); } }
size_t conflicts(size_t limit) {
    size_t n = 0; for (size_t i = 0; i < nUsed; ++i) { Word& w = table[used[i]]; bool r0 = w.bits & 1, w0 = w.bits & 2, r1 = w.bits & 4, w1 = w.bits & 8; if (!((w0 && (r1 || w1)) || (w1 && (r0 || w0)))) continue; ++n; if (getenv("WORDS")) { Dl_info d; bool k = dladdr((void*)(w.key << 3), &d); fprintf(stderr, "word %lx %s+%ld bits %x\n", (long)w.key << 3, k && d.dli_sname ? d.dli_sname : "?", k ? (long)((w.key << 3) - (uint64_t)d.dli_saddr) : 0, w.bits); } if (isHot(w.key)) continue; if (nHot < limit && nHot < M / 2) { size_t j = (w.key * 0x9E3779B97F4A7C15ull) >> 52; while (hot[j & (M - 1)]) ++j; hot[j & (M - 1)] = w.key; ++nHot; } }
    return n;
}
void firstEntries(unsigned k) { perSite = k; }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_exit() {}
void __tsan_func_entry(void* pc) {
    if (!on || mode != sched::Entries) return; on = false;
    uintptr_t k = (uintptr_t)__builtin_return_address(0); size_t i = (k * 0x9E3779B97F4A7C15ull) >> 48; for (;;) { Site& s = sites[i & (E - 1)]; if (s.pc && s.pc != k) { ++i; continue; } if (!s.pc) { s.pc = k; Dl_info d; const char* m = dladdr((void*)k, &d) && d.dli_sname ? d.dli_sname : ""; s.ours = !(strncmp(m, "_ZNS", 4) == 0 || strncmp(m, "_ZNKS", 5) == 0 || strncmp(m, "_ZS", 3) == 0 || strstr(m, "Reaktoro_") || strstr(m, "nlohmann") || strstr(m, "spdlog") || strstr(m, "3fmt") || strstr(m, "_cxx")); } if (s.run != theRun) { s.run = theRun; s.n[0] = s.n[1] = 0; } if (s.ours && ++s.n[me] <= perSite) point(); break; }
    on = true;
}
#define RW(n) void __tsan_read##n(void* p) { touch(p, n, false); } void __tsan_write##n(void* p) { touch(p, n, true); } void __tsan_unaligned_read##n(void* p) { touch(p, n, false); } void __tsan_unaligned_write##n(void* p) { touch(p, n, true); } void __tsan_volatile_read##n(void* p) { touch(p, n, false); } void __tsan_volatile_write##n(void* p) { touch(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, true); }
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true); }
void __tsan_vptr_read(void** p) { touch(p, 8, false); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { touch((void*)s, n, false); touch(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { touch((void*)s, n, false); touch(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) touch(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { touch((void*)a, n, false); touch((void*)b, n, false); } return __real_memcmp(a, b, n); }
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T* p, int) { touch((void*)p, n / 8, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##n##_store(volatile T* p, T v, int) { touch((void*)p, n / 8, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { touch((void*)p, n / 8, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { touch((void*)p, n / 8, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { touch((void*)p, n / 8, true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int) { touch((void*)p, n / 8, true); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}
