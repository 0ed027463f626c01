// Stateless exploration of thread interleavings. The code under test is compiled with -fsanitize=thread, but the
// __tsan_* entry points are the ones below: every memory access of a controlled thread comes through here, the
// threads (real pthreads) run one at a time, and the choice of the next one at each access that conflicts with
// another thread is enumerated depth-first by re-running a forked copy of the process with a choice prefix.
#pragma once
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#define NOSAN __attribute__((no_sanitize("thread"), noinline))
extern "C" char __executable_start, __data_start;

namespace sched {
constexpr int MAXT = 3, MAXC = 4096, MAXR = 8;
struct Out {  // what one execution reports to the explorer (shared memory)
    int status;  // 0 running, 1 finished, 2 race, 3 deadlock, 4 too long
    int nchoice;
    struct { uint8_t n, c, pre; } ch[MAXC];
    int nconf;
    uintptr_t conf[512];
    uint64_t res[MAXT][MAXR];
    uint64_t accesses, points;
    int nfoot;  // 8-byte words outside its stack and its own allocations the execution touched; -1: more than fit
    struct { uintptr_t a; bool w; } foot[16384];
    char msg[300];
};
struct VC { uint32_t c[MAXT] = {}; void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Byte { uint32_t w[MAXT] = {}, r[MAXT] = {}, aw[MAXT] = {}, ar[MAXT] = {}; };
struct Th {
    sem_t sem;
    bool done = false;
    const void *blocked = nullptr;
    VC vc;
    char *lo = nullptr, *hi = nullptr;
};
struct Run {
    int n = 0;
    Th th[MAXT];
    std::vector<uint8_t> prefix;
    std::set<uintptr_t> points;
    std::unordered_map<uintptr_t, Byte> mem;
    std::unordered_map<uintptr_t, VC> sync;
    std::unordered_map<uintptr_t, int> held;
    std::set<uintptr_t> conf;
    int consecutive = 0;
    uint64_t steps = 0;
};
inline Run *R = nullptr;
inline Out *O = nullptr;
inline NOSAN char *heap_base();
constexpr size_t HEAP = 64ul << 20;
inline thread_local int me = -1;
inline thread_local int depth = 0;  // inside the runtime
inline void (*job)(int) = nullptr;

struct Guard { NOSAN Guard() { depth++; } NOSAN ~Guard() { depth--; } };
[[noreturn]] inline NOSAN void stop(int status, const char *m) {
    O->status = status;
    if (!O->msg[0]) snprintf(O->msg, sizeof O->msg, "%s", m);
    _exit(0);
}
inline NOSAN void hand(int to) {
    if (to == me) return;
    R->consecutive = 0;
    const int self = me;
    sem_post(&R->th[to].sem);
    while (sem_wait(&R->th[self].sem)) {}
}
// one choice among the threads that can run, the current one first
inline NOSAN int choose(bool include_me, bool preempts) {
    int en[MAXT], k = 0;
    if (include_me) en[k++] = me;
    for (int t = 0; t < R->n; t++) if (t != me && !R->th[t].done && !R->th[t].blocked) en[k++] = t;
    if (!k) return -1;
    if (k == 1) return en[0];
    int c = 0;
    if (O->nchoice < (int)R->prefix.size()) c = R->prefix[O->nchoice];
    if (c >= k) stop(4, "the schedule does not apply any more (nondeterministic execution)");
    if (O->nchoice >= MAXC) stop(4, "too many scheduling points");
    O->ch[O->nchoice++] = {(uint8_t)k, (uint8_t)c, (uint8_t)preempts};
    return en[c];
}
inline NOSAN void point() {
    O->points++;
    if (++R->consecutive > 400) {  // a spinning thread waits for the others
        for (int t = 0; t < R->n; t++) if (t != me && !R->th[t].done && !R->th[t].blocked) { hand(t); return; }
    }
    int t = choose(true, true);
    hand(t);
}
inline NOSAN void wait_on(const void *o) {
    R->th[me].blocked = o;
    int t = choose(false, false);
    if (t < 0) stop(3, "deadlock");
    hand(t);
    // woken: blocked was cleared by the releasing thread
}
inline NOSAN void wake(const void *o) { for (int t = 0; t < R->n; t++) if (R->th[t].blocked == o) R->th[t].blocked = nullptr; }
inline NOSAN bool watched(uintptr_t a, unsigned size) {
    if (R->points.empty()) return false;
    auto it = R->points.lower_bound(a & ~7ul);
    return it != R->points.end() && *it < a + size;
}
// data of the shared libraries (the C++ run-time's own reference counts and caches) is not code under test
struct Range { uintptr_t lo, hi; };
inline std::vector<Range> libs;
inline NOSAN void find_libs() {
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
        static bool first = true;
        if (first) { first = false; return 0; }  // the program itself
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) libs.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
        return 0;
    }, nullptr);
}
inline NOSAN void access(const void *p, unsigned size, bool write, bool atomic = false) {
    if (me < 0 || depth) return;
    Guard g;
    const uintptr_t a = (uintptr_t)p;
    Th &t = R->th[me];
    if ((char *)p >= t.lo && (char *)p < t.hi) return;                       // own stack and thread-local storage
    if ((char *)p >= &__executable_start && (char *)p < &__data_start) return;  // read-only data
    for (auto &l : libs) if (a >= l.lo && a < l.hi) return;
    O->accesses++;
    if (++R->steps > 3000000) stop(4, "execution too long");
    if (watched(a, size)) point();
    for (unsigned i = 0; i < size; i++) {
        Byte &b = R->mem[a + i];
        for (int o = 0; o < R->n; o++) {
            if (o == me) continue;
            const bool cw = b.w[o] || b.aw[o], cr = b.r[o] || b.ar[o];
            if (cw || (write && cr)) R->conf.insert((a + i) & ~7ul);
            const uint32_t seen = t.vc.c[o];
            const bool race = (b.w[o] > seen) || (write && b.r[o] > seen) || (!atomic && b.aw[o] > seen) || (!atomic && write && b.ar[o] > seen);
            if (race && !O->msg[0]) {
                Dl_info di{};
                const char *where = a + i >= (uintptr_t)&__executable_start && dladdr(p, &di) && di.dli_sname ? di.dli_sname : "";
                snprintf(O->msg, sizeof O->msg, "data race: thread %d %s memory that thread %d %s with nothing ordering the two (%s, %u bytes) %s", me, write ? "writes" : "reads", o,
                         b.w[o] > seen || b.aw[o] > seen ? "writes" : "reads", a < (uintptr_t)&__executable_start + (1u << 26) && a > (uintptr_t)&__executable_start ? "static data" : "heap or shared object", size, where);
            }
        }
        (atomic ? write ? b.aw : b.ar : write ? b.w : b.r)[me] = t.vc.c[me];
    }
}
inline NOSAN void acquire(const void *p) { if (me >= 0) { Guard g; auto it = R->sync.find((uintptr_t)p); if (it != R->sync.end()) R->th[me].vc.join(it->second); } }
inline NOSAN void release(const void *p) { if (me >= 0) { Guard g; R->sync[(uintptr_t)p].join(R->th[me].vc); R->th[me].vc.c[me]++; } }
inline NOSAN bool on() { return me >= 0 && !depth; }
inline NOSAN void flush() {
    O->nconf = 0;
    for (auto c : R->conf) if (O->nconf < 512) O->conf[O->nconf++] = c;
    O->nfoot = 0;
    if (R->n > 1) return;
    std::map<uintptr_t, bool> f;
    const auto h = (uintptr_t)heap_base();
    for (auto &[a, b] : R->mem) if (a < h || a >= h + HEAP * MAXT) f[a & ~7ul] |= b.w[0] || b.aw[0];
    for (auto &[a, w] : f) { if (O->nfoot >= 16384) { O->nfoot = -1; break; } O->foot[O->nfoot++] = {a, w}; }
}
struct Arg { int id; };
inline NOSAN void *thread_main(void *p) {
    const int id = (int)(intptr_t)p;
    me = id;
    depth = 1;
    while (sem_wait(&R->th[id].sem)) {}
    depth = 0;
    job(id);
    depth = 1;
    R->th[id].done = true;
    int t = choose(false, false);
    if (t < 0) for (int i = 0; i < R->n; i++) if (!R->th[i].done) stop(3, "deadlock");
    if (t >= 0) sem_post(&R->th[t].sem);
    return nullptr;
}
constexpr size_t STK = 1 << 20;
// one execution of n threads under a choice prefix, in a forked copy of this process
inline NOSAN void execute(int n, void (*f)(int), const std::vector<uint8_t> &prefix, const std::set<uintptr_t> &points, int secs = 30) {
    static char *stacks = (char *)mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!O) O = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (libs.empty()) find_libs();
    O->status = 0; O->nchoice = 0; O->nconf = 0; O->msg[0] = 0; O->accesses = O->points = 0;
    memset(O->res, 0, sizeof O->res);
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGTRAP, SIGALRM}) signal(s, SIG_DFL);
        alarm(secs);
        job = f;
        R = new Run;
        R->n = n;
        R->prefix = prefix;
        R->points = points;
        pthread_t pt[MAXT];
        for (int i = 0; i < n; i++) {
            Th &t = R->th[i];
            sem_init(&t.sem, 0, 0);
            t.lo = stacks + STK * i;
            t.hi = t.lo + STK;
            t.vc.c[i] = 1;
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, t.lo, STK);
            if (pthread_create(&pt[i], &at, thread_main, (void *)(intptr_t)i)) _exit(9);
        }
        int first = choose(false, false);
        sem_post(&R->th[first].sem);
        for (int i = 0; i < n; i++) pthread_join(pt[i], nullptr);
        flush();
        O->status = O->msg[0] ? 2 : 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (O->status == 0) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { O->status = 4; snprintf(O->msg, sizeof O->msg, "does not terminate"); }
        else { O->status = 5; snprintf(O->msg, sizeof O->msg, "the process died (signal %d, exit %d)", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WEXITSTATUS(st)); }
    }
}
}  // namespace sched

// ------------------------------------------------------------------ entry points the compiler calls
extern "C" {
NOSAN void __tsan_init() {}
NOSAN void __tsan_func_entry(void *) {}
NOSAN void __tsan_func_exit() {}
NOSAN void __tsan_vptr_update(void **p, void *) { sched::access(p, 8, true); }
NOSAN void __tsan_vptr_read(void **p) { sched::access(p, 8, false); }
NOSAN void __tsan_read_range(void *p, unsigned long n) { sched::access(p, n, false); }
NOSAN void __tsan_write_range(void *p, unsigned long n) { sched::access(p, n, true); }
#define RW(N) \
    NOSAN void __tsan_read##N(void *p) { sched::access(p, N, false); } \
    NOSAN void __tsan_write##N(void *p) { sched::access(p, N, true); } \
    NOSAN void __tsan_unaligned_read##N(void *p) { sched::access(p, N, false); } \
    NOSAN void __tsan_unaligned_write##N(void *p) { sched::access(p, N, true); } \
    NOSAN void __tsan_volatile_read##N(void *p) { sched::access(p, N, false); } \
    NOSAN void __tsan_volatile_write##N(void *p) { sched::access(p, N, true); } \
    NOSAN void __tsan_unaligned_volatile_read##N(void *p) { sched::access(p, N, false); } \
    NOSAN void __tsan_unaligned_volatile_write##N(void *p) { sched::access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
static inline bool mo_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static inline bool mo_rel(int m) { return m == 3 || m == 4 || m == 5; }
#define AT(B, T) \
    NOSAN T __tsan_atomic##B##_load(const volatile T *p, int m) { sched::access((void *)p, sizeof(T), false, true); if (mo_acq(m)) sched::acquire((void *)p); return *p; } \
    NOSAN void __tsan_atomic##B##_store(volatile T *p, T v, int m) { sched::access((void *)p, sizeof(T), true, true); if (mo_rel(m)) sched::release((void *)p); *p = v; } \
    static inline NOSAN void rmw##B(volatile T *p, int m) { sched::access((void *)p, sizeof(T), true, true); if (mo_acq(m)) sched::acquire((void *)p); if (mo_rel(m)) sched::release((void *)p); } \
    NOSAN T __tsan_atomic##B##_exchange(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = o + v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = o - v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = o & v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = o | v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = o ^ v; return o; } \
    NOSAN T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int m) { rmw##B(p, m); T o = *p; *p = ~(o & v); return o; } \
    NOSAN int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int m, int) { rmw##B(p, m); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    NOSAN int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int m, int) { rmw##B(p, m); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    NOSAN T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int m, int) { rmw##B(p, m); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#undef AT
NOSAN void __tsan_atomic_thread_fence(int) {}
NOSAN void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics
NOSAN int __cxa_guard_acquire(long long *g) {
    auto *b = (volatile uint8_t *)g;
    if (!sched::on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    for (;;) {
        sched::access(g, 1, true, true);
        if (b[0]) { sched::acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        sched::depth++;
        sched::wait_on(g);
        sched::depth--;
    }
}
NOSAN void __cxa_guard_release(long long *g) {
    auto *b = (volatile uint8_t *)g;
    if (sched::on()) { sched::access(g, 1, true, true); sched::release(g); }
    b[1] = 0; b[0] = 1;
    if (sched::on()) sched::wake(g);
}
NOSAN void __cxa_guard_abort(long long *g) { ((volatile uint8_t *)g)[1] = 0; if (sched::on()) sched::wake(g); }

// locks
static NOSAN void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
NOSAN int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!sched::on()) { static auto f = (int (*)(pthread_mutex_t *))real("pthread_mutex_lock"); return f(m); }
    for (;;) {
        sched::access(m, 1, true, true);
        sched::Guard g;
        int &h = sched::R->held[(uintptr_t)m];
        if (!h || h == sched::me + 1) { h = sched::me + 1; break; }
        sched::wait_on(m);
    }
    sched::acquire(m);
    return 0;
}
NOSAN int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!sched::on()) { static auto f = (int (*)(pthread_mutex_t *))real("pthread_mutex_trylock"); return f(m); }
    sched::access(m, 1, true, true);
    { sched::Guard g; int &h = sched::R->held[(uintptr_t)m]; if (h) return 16; h = sched::me + 1; }
    sched::acquire(m);
    return 0;
}
NOSAN int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!sched::on()) { static auto f = (int (*)(pthread_mutex_t *))real("pthread_mutex_unlock"); return f(m); }
    sched::access(m, 1, true, true);
    sched::release(m);
    sched::Guard g;
    sched::R->held[(uintptr_t)m] = 0;
    sched::wake(m);
    return 0;
}
#define RWLOCK(n) NOSAN int pthread_rwlock_##n(pthread_rwlock_t *m) { \
    if (!sched::on()) { static auto f = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_" #n); return f(m); } return pthread_mutex_lock((pthread_mutex_t *)m); }
RWLOCK(rdlock) RWLOCK(wrlock)
NOSAN int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!sched::on()) { static auto f = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_unlock"); return f(m); }
    return pthread_mutex_unlock((pthread_mutex_t *)m);
}
NOSAN int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!sched::on()) { static auto r = (int (*)(pthread_once_t *, void (*)()))real("pthread_once"); return r(o, f); }
    for (;;) {
        sched::access(o, 1, true, true);
        sched::depth++;
        int &h = sched::R->held[(uintptr_t)o];
        if (*o == 2 || h == -1) { sched::depth--; sched::acquire(o); return 0; }
        if (!h) { h = 1; sched::depth--; break; }
        sched::wait_on(o);
        sched::depth--;
    }
    f();
    sched::access(o, 1, true, true);
    sched::release(o);
    sched::Guard g;
    sched::R->held[(uintptr_t)o] = -1;
    *o = 2;
    sched::wake(o);
    return 0;
}

// block moves of instrumented code (the linker is told to route them here)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
NOSAN void *__wrap_memcpy(void *d, const void *s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memcpy(d, s, n); }
NOSAN void *__wrap_memmove(void *d, const void *s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memmove(d, s, n); }
NOSAN void *__wrap_memset(void *d, int c, size_t n) { sched::access(d, n, true); return __real_memset(d, c, n); }
NOSAN int __wrap_memcmp(const void *a, const void *b, size_t n) { sched::access(a, n, false); sched::access(b, n, false); return __real_memcmp(a, b, n); }
}
// a controlled thread's allocations come from a region of its own and are never reused, so that their addresses do
// not depend on the schedule and two lifetimes never share an address
namespace sched {
inline NOSAN char *heap_base() { static char *h = (char *)mmap(nullptr, HEAP * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return h; }
inline size_t heap_used[MAXT];
inline NOSAN void *alloc(size_t n) {
    if (!on()) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
    size_t &u = heap_used[me];
    n = (n + 31) & ~15ul;
    if (u + n > HEAP) abort();
    void *p = heap_base() + HEAP * me + u;
    u += n;
    return p;
}
inline NOSAN void dealloc(void *p) { if (!((char *)p >= heap_base() && (char *)p < heap_base() + HEAP * MAXT)) free(p); }
}  // namespace sched
NOSAN void *operator new(size_t n) { return sched::alloc(n); }
NOSAN void *operator new[](size_t n) { return sched::alloc(n); }
NOSAN void operator delete(void *p) noexcept { sched::dealloc(p); }
NOSAN void operator delete[](void *p) noexcept { sched::dealloc(p); }
NOSAN void operator delete(void *p, size_t) noexcept { sched::dealloc(p); }
NOSAN void operator delete[](void *p, size_t) noexcept { sched::dealloc(p); }
