#include "core.h"
#include <cstdlib>
#include <new>
#include <unistd.h>
#include <errno.h>
#include <iconv.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <algorithm>

namespace sim {

Result* R = nullptr;
AllocCtl A;
thread_local int in_lib = 0;
thread_local int in_harness = 0;
uint64_t steps = 0, step_limit = ~0ull;
bool cov_on = false;
bool (*run_clean_fn)() = nullptr;
uint64_t iconv_fail_at = 0, iconv_seen = 0, iconv_fired = 0;
static uint64_t iconv_open_now = 0;

//---------------------------------------------------------------- failing, tracing
uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    auto* b = (const uint8_t*)p;
    for(size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string hex(const void* p, size_t n, size_t max)
{
    static const char d[] = "0123456789abcdef";
    std::string s; auto* b = (const uint8_t*)p;
    for(size_t i = 0; i < n && i < max; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if(n > max) s += "...";
    return s;
}
static void finish(uint32_t st)
{
    R->steps += steps;
    R->peak_mem = std::max(R->peak_mem, A.peak);
    R->status = st;
}
void fail(const std::string& cls, const char* fmt, ...)
{
    in_harness++;
    A.armed = false;
    snprintf(R->cls, sizeof(R->cls), "%s", cls.c_str());
    va_list ap; va_start(ap, fmt);
    vsnprintf(R->detail, sizeof(R->detail), fmt, ap);
    va_end(ap);
    finish(ST_VIOLATION);
    _exit(10);
}
void harness_error(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(R->cls, sizeof(R->cls), "harness-error");
    vsnprintf(R->detail, sizeof(R->detail), fmt, ap);
    va_end(ap);
    finish(ST_HARNESS_ERROR);
    _exit(11);
}
static void trace_raw(const char* buf, size_t n)
{
    R->hash = fnv(buf, n, R->hash);
    if(R->trace_len + n + 1 < MAX_TRACE) {
        memcpy(R->trace + R->trace_len, buf, n);
        R->trace_len += n;
        R->trace[R->trace_len++] = '\n';
        R->trace[R->trace_len] = 0;
    }
}
void trace(const char* fmt, ...)
{
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if(n >= (int)sizeof buf) n = sizeof buf - 1;
    trace_raw(buf, n);
}
void trace_bytes(const char* what, const void* p, size_t n)
{
    in_harness++;
    auto h = fnv(p, n);
    trace("%s: %zu bytes #%016llx %s", what, n, (unsigned long long)h, hex(p, n, 24).c_str());
    in_harness--;
}
void count(const char* name, uint64_t n)
{
    if(!n) return;
    for(uint32_t i = 0; i < R->n_counters; i++) {
        if(!strcmp(R->counters[i].name, name)) { R->counters[i].n += n; return; }
    }
    if(R->n_counters == MAX_COUNTERS) return;
    auto& c = R->counters[R->n_counters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.n = n;
}
void state(uint64_t sig)
{
    for(uint32_t i = 0; i < R->n_states; i++) if(R->states[i] == sig) return;
    if(R->n_states < 4096) R->states[R->n_states++] = sig;
}

//---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Chooser::init(uint64_t seed, const uint32_t* replay, uint32_t n_replay, bool extend)
{
    for(auto& x : s) x = splitmix(seed);
    rep = replay; nrep = n_replay; pos = 0; ext = extend || !replay;
}
uint64_t Chooser::next()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return result;
}
uint32_t Chooser::raw(uint32_t n)
{
    if(n == 0) harness_error("Chooser: empty choice");
    uint32_t v;
    if(rep && pos < nrep) {
        v = rep[pos] % n;
    } else if(!ext) {
        v = 0;
    } else {
        v = (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32);
    }
    pos++;
    if(priv) return v;
    // what exceeds the record is decided the same way by every execution
    if(R->n_choices >= MAX_CHOICES) return 0;
    R->choices[R->n_choices++] = v;
    return v;
}
uint32_t Chooser::below(uint32_t n) { return n == 1 ? 0 : raw(n); }
bool Chooser::chance(uint32_t num, uint32_t den)
{
    if(num == 0) return false;
    if(num >= den) return true;
    return raw(den) >= den - num;
}
uint64_t Chooser::u64()
{
    uint64_t hi = raw(0xffffffffu), lo = raw(0xffffffffu);
    return hi << 32 | lo;
}
uint32_t Chooser::pick(std::initializer_list<uint32_t> w)
{
    uint32_t sum = 0;
    for(auto x : w) sum += x;
    uint32_t v = raw(sum), i = 0;
    for(auto x : w) { if(v < x) return i; v -= x; i++; }
    return 0;
}
size_t Chooser::begin_span()
{
    if(priv) return MAX_SPANS;
    if(R->n_spans >= MAX_SPANS) return MAX_SPANS;
    R->spans[R->n_spans] = { R->n_choices, R->n_choices };
    return R->n_spans++;
}
void Chooser::end_span(size_t i) { if(i < MAX_SPANS) R->spans[i].e = R->n_choices; }

//---------------------------------------------------------------- allocator seam
static const size_t LEDGER = 1u << 21;
struct LEntry { void* p; size_t n; };
static LEntry* ledger = nullptr;
static uint64_t ledger_used = 0, ledger_n = 0;
static void* const TOMB = (void*)1;

static size_t lslot(void* p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0xff51afd7ed558ccdull; x ^= x >> 32; return x & (LEDGER - 1); }
static void ledger_init()
{
    if(ledger) return;
    ledger = (LEntry*)mmap(nullptr, LEDGER * sizeof(LEntry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void ledger_add(void* p, size_t n)
{
    ledger_init();
    if(ledger_used > LEDGER / 2) return;
    auto i = lslot(p);
    while(ledger[i].p != nullptr && ledger[i].p != TOMB && ledger[i].p != p) i = (i + 1) & (LEDGER - 1);
    if(ledger[i].p == p) return;
    if(ledger[i].p == nullptr) ledger_used++;
    ledger[i] = { p, n };
    ledger_n++;
}
static bool ledger_remove(void* p, size_t& n)
{
    if(!ledger || !ledger_n) return false;
    auto i = lslot(p);
    while(ledger[i].p != nullptr) {
        if(ledger[i].p == p) { n = ledger[i].n; ledger[i].p = TOMB; ledger_n--; return true; }
        i = (i + 1) & (LEDGER - 1);
    }
    return false;
}
void ledger_reset()
{
    if(ledger && ledger_used) { munmap(ledger, LEDGER * sizeof(LEntry)); ledger = nullptr; ledger_init(); }
    ledger_used = ledger_n = 0;
    A.live = 0;
}
uint64_t ledger_live() { return ledger_n; }
extern "C" void __asan_describe_address(void*);
void ledger_describe(size_t max)
{
    // newest first is of no use here: any survivor will do
    for(size_t i = LEDGER; ledger && i-- > 0 && max;) if(ledger[i].p != nullptr && ledger[i].p != TOMB) { __asan_describe_address(ledger[i].p); max--; }
}
uint64_t iconv_open_handles() { return iconv_open_now; }

void alloc_arm(uint64_t fail_at, bool sticky, uint64_t every)
{
    A.armed = true; A.fail_at = fail_at; A.sticky = sticky; A.every = every; A.seen = 0; A.fired = 0;
}
uint64_t alloc_disarm()
{
    A.armed = false;
    return A.fired;
}
static void* do_new(size_t n, size_t align, bool nothrow)
{
    bool counted = in_lib > 0 && in_harness == 0;
    if(counted) {
        if(A.armed) {
            A.seen++;
            if((A.fail_at && (A.seen == A.fail_at || (A.sticky && A.seen > A.fail_at))) || (A.every && A.seen % A.every == 0)) {
                A.fired++;
                if(nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        A.big = std::max(A.big, (uint64_t)n);
        if(n > A.refuse) {
            A.fired++; count("fault.alloc_refused");
            if(nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if(A.live + n > A.limit) {
            fail("memory-blowup", "request of %zu bytes with %llu live bytes exceeds the run's bound of %llu bytes", n,
                 (unsigned long long)A.live, (unsigned long long)A.limit);
        }
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if(!p) {
        if(nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if(counted) {
        memset(p, A.fill, n);
        ledger_add(p, n);
        A.live += n;
        A.peak = std::max(A.peak, A.live);
    }
    return p;
}
static void do_delete(void* p)
{
    if(!p) return;
    size_t n;
    if(ledger_remove(p, n)) A.live -= n;
    free(p);
}

//---------------------------------------------------------------- step clock
void steps_begin(uint64_t limit) { R->steps += steps; steps = 0; step_limit = limit; }
uint64_t steps_end() { auto n = steps; R->steps += steps; steps = 0; step_limit = ~0ull; return n; }

//---------------------------------------------------------------- scheduler
bool sched_active = false;
uint64_t sim_now = 0;
uint64_t sched_preempt_mean = 50;
struct STask {
    sem_t sem; pthread_t th; ThreadFn fn; void* arg;
    enum { READY, BLOCKED, SLEEPING, DONE } st = READY;
    bool (*ready)(void*) = nullptr; void* rarg = nullptr; const char* what = "";
    uint64_t wake = 0;
};
static STask tasks[8];
static int n_tasks = 0, cur = -1;
static Chooser* sch = nullptr;
static uint64_t countdown = 0;
static sem_t main_sem;
static thread_local int self_id = -1;

int sched_self() { return self_id; }
static bool runnable(int i)
{
    auto& t = tasks[i];
    if(t.st == STask::READY) return true;
    if(t.st == STask::BLOCKED && t.ready(t.rarg)) return true;
    return false;
}
static uint64_t draw_countdown()
{
    // mostly short bursts, sometimes long ones
    uint32_t m = (uint32_t)sched_preempt_mean;
    if(R->n_choices > 150000) m = m * 50 + 5000;     // keep what is recorded bounded
    switch(R->n_choices > 150000 ? 0 : sch->below(4)) {
        case 0: return 1 + sch->below(m * 8 + 1);
        case 1: return 1 + sch->below(m + 1);
        case 2: return 1 + sch->below(m / 8 + 1);
        default: return 1 + sch->below(3);
    }
}
// picks the next task to run; -1 if all are done
static int pick_next()
{
    in_harness++;
    int res = -2;
    while(res == -2) {
        int r[8], n = 0, undone = 0;
        for(int i = 0; i < n_tasks; i++) {
            if(tasks[i].st != STask::DONE) undone++;
            if(runnable(i)) r[n++] = i;
        }
        if(!undone) { res = -1; break; }
        if(n > 0) {
            res = r[n == 1 ? 0 : sch->below(n)];
            break;
        }
        // advance the simulated clock to the next wake-up
        uint64_t best = ~0ull;
        for(int i = 0; i < n_tasks; i++) if(tasks[i].st == STask::SLEEPING) best = std::min(best, tasks[i].wake);
        if(best == ~0ull) {
            std::string s;
            for(int i = 0; i < n_tasks; i++) if(tasks[i].st == STask::BLOCKED) s += std::string(" task") + std::to_string(i) + ":" + tasks[i].what;
            fail("deadlock", "all parties wait forever:%s", s.c_str());
        }
        R->sim_time += best - sim_now;
        sim_now = best;
        for(int i = 0; i < n_tasks; i++) if(tasks[i].st == STask::SLEEPING && tasks[i].wake <= sim_now) tasks[i].st = STask::READY;
    }
    countdown = draw_countdown();
    in_harness--;
    return res;
}
static void note_switch(int next)
{
    uint64_t rec[2] = { (uint64_t)next, steps };
    R->sched_hash = fnv(rec, sizeof rec, R->sched_hash);
    R->sched_switches++;
}
static void switch_to(int next)
{
    int me = self_id;
    if(next == me) { tasks[me].st = STask::READY; return; }
    cur = next;
    note_switch(next);
    tasks[next].st = STask::READY; sem_post(&tasks[next].sem);
    while(sem_wait(&tasks[me].sem) != 0) { }
}
void sched_yield_point()
{
    if(!sched_active || self_id < 0 || in_harness) return;
    if(--countdown > 0) return;
    int next = pick_next();
    switch_to(next);
}
// memory one party has written and another one touches: where switching is worth most. Addresses repeat exactly
// between executions, and only the decision to switch is taken from here.
struct Acc { uintptr_t at; uint8_t r, w; };
static Acc acc[1 << 16];
static uint32_t conflicts_seen = 0;
bool sched_at_conflicts = false;
static void conflicts_reset() { memset(acc, 0, sizeof acc); conflicts_seen = 0; }
static void sched_access(void* p, bool write)
{
    if(!sched_active || self_id < 0 || in_harness) return;
    if(sched_at_conflicts) {
        auto g = (uintptr_t)p >> 3;
        auto& a = acc[(g ^ g >> 16) & 0xFFFF];
        uint8_t me = 1 << self_id;
        if(a.at != g) a = { g, 0, 0 };
        bool hot = write ? ((a.r | a.w) & ~me) : (a.w & ~me);
        if(hot) { a.r = a.w = 0; }
        (write ? a.w : a.r) |= me;
        if(hot && conflicts_seen < 4000) {
            conflicts_seen++;
            in_harness++; bool go = sch->chance(1, 2); in_harness--;
            if(go) { switch_to(pick_next()); return; }
        }
    }
    sched_yield_point();
}
void sched_block(bool (*ready)(void*), void* arg, const char* what)
{
    if(self_id < 0) { if(!ready(arg)) fail("deadlock", "single party waits forever: %s", what); return; }
    if(ready(arg)) { return; }
    auto& t = tasks[self_id];
    t.st = STask::BLOCKED; t.ready = ready; t.rarg = arg; t.what = what;
    switch_to(pick_next());
}
void sched_sleep(uint64_t ticks)
{
    if(self_id < 0) { sim_now += ticks; R->sim_time += ticks; return; }
    auto& t = tasks[self_id];
    t.st = STask::SLEEPING; t.wake = sim_now + ticks;
    switch_to(pick_next());
}
static void* thread_main(void* p)
{
    auto* t = (STask*)p;
    self_id = (int)(t - tasks);
    while(sem_wait(&t->sem) != 0) { }
    t->fn(t->arg);
    t->st = STask::DONE;
    self_id = -1;
    sem_post(&main_sem);      // the next one goes on when this thread and all it owns are gone
    return nullptr;
}
void sched_start(Chooser* ch, int n, ThreadFn fn, void** args, uint32_t, uint32_t)
{
    sch = ch; n_tasks = n; sim_now = 0;
    sem_init(&main_sem, 0, 0);
    for(int i = 0; i < n; i++) {
        new (&tasks[i]) STask();
        tasks[i].fn = fn; tasks[i].arg = args[i];
        sem_init(&tasks[i].sem, 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
        if(pthread_create(&tasks[i].th, &at, thread_main, &tasks[i])) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
    }
    conflicts_reset();
    sched_active = true;
    for(int next = pick_next(); next >= 0; next = pick_next()) {
        cur = next;
        tasks[next].st = STask::READY;
        note_switch(next);
        sem_post(&tasks[next].sem);
        while(sem_wait(&main_sem) != 0) { }
        pthread_join(tasks[cur].th, nullptr);
    }
    sched_active = false;
}
}

using namespace sim;

//---------------------------------------------------------------- replaced global allocation functions
void* operator new(size_t n) { return do_new(n, 0, false); }
void* operator new[](size_t n) { return do_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

//---------------------------------------------------------------- wrapped C library calls
extern "C" {
iconv_t __real_iconv_open(const char* a, const char* b);
int     __real_iconv_close(iconv_t c);
size_t  __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
iconv_t __wrap_iconv_open(const char* a, const char* b)
{
    sched_yield_point();
    if(in_lib && !in_harness && iconv_fail_at) {
        iconv_seen++;
        if(iconv_seen == iconv_fail_at) { iconv_fired++; errno = EMFILE; return (iconv_t)-1; }
    }
    HarnessScope hs;
    auto c = __real_iconv_open(a, b);
    if(c != (iconv_t)-1) iconv_open_now++;
    return c;
}
int __wrap_iconv_close(iconv_t c)
{
    sched_yield_point();
    HarnessScope hs;
    if(c == (iconv_t)-1) fail("iconv-close-invalid", "iconv_close called with an invalid handle");
    iconv_open_now--;
    return __real_iconv_close(c);
}
size_t __wrap_iconv(iconv_t c, char** i, size_t* il, char** o, size_t* ol)
{
    sched_yield_point();
    HarnessScope hs;
    return __real_iconv(c, i, il, o, ol);
}

// synchronisation: parked threads wait in the scheduler, never in the kernel
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return __real_pthread_mutex_trylock(m); }
static bool mutex_free(void* p)
{
    auto* m = (pthread_mutex_t*)p;
    if(__real_pthread_mutex_trylock(m) != 0) return false;
    __real_pthread_mutex_unlock(m);
    return true;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!sched_active || sched_self() < 0) return __real_pthread_mutex_lock(m);
    sched_yield_point();
    while(__real_pthread_mutex_trylock(m) != 0) sched_block(mutex_free, m, "mutex");
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    sched_yield_point();
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);
static bool rd_free(void* p) { auto* m = (pthread_rwlock_t*)p; if(pthread_rwlock_tryrdlock(m) != 0) return false; __real_pthread_rwlock_unlock(m); return true; }
static bool wr_free(void* p) { auto* m = (pthread_rwlock_t*)p; if(pthread_rwlock_trywrlock(m) != 0) return false; __real_pthread_rwlock_unlock(m); return true; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(!sched_active || sched_self() < 0) return __real_pthread_rwlock_rdlock(m);
    sched_yield_point();
    while(pthread_rwlock_tryrdlock(m) != 0) sched_block(rd_free, m, "rwlock");
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(!sched_active || sched_self() < 0) return __real_pthread_rwlock_wrlock(m);
    sched_yield_point();
    while(pthread_rwlock_trywrlock(m) != 0) sched_block(wr_free, m, "rwlock");
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    int r = __real_pthread_rwlock_unlock(m);
    sched_yield_point();
    return r;
}
// function-local statics
struct GuardSlot { void* g; int owner; };
static GuardSlot guard_slots[16];
static bool guard_idle(void* g)
{
    for(auto& s : guard_slots) if(s.g == g) return false;
    return true;
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    if(*(volatile char*)g) return 0;
    sched_yield_point();
    while(!guard_idle(g)) sched_block(guard_idle, g, "static initialisation");
    if(*(volatile char*)g) return 0;
    for(auto& s : guard_slots) if(!s.g) { s = { g, sched_self() }; return 1; }
    harness_error("guard table full");
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    *(volatile char*)g = 1;
    for(auto& s : guard_slots) if(s.g == g) s.g = nullptr;
    sched_yield_point();
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    for(auto& s : guard_slots) if(s.g == g) s.g = nullptr;
}
static bool once_idle(void* g) { return guard_idle(g); }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void))
{
    // state kept in a side table: done ones are remembered by address
    static void* done[64]; static int n_done = 0;
    for(int i = 0; i < n_done; i++) if(done[i] == o) return 0;
    sched_yield_point();
    while(!once_idle(o)) sched_block(once_idle, o, "once");
    for(int i = 0; i < n_done; i++) if(done[i] == o) return 0;
    for(auto& s : guard_slots) if(!s.g) { s = { o, sched_self() }; break; }
    fn();
    for(auto& s : guard_slots) if(s.g == (void*)o) s.g = nullptr;
    if(n_done < 64) done[n_done++] = o;
    return 0;
}

//---------------------------------------------------------------- instrumentation callbacks
static uint32_t n_guards = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if(start == stop || *start) return;
    for(uint32_t* x = start; x < stop; x++) *x = ++n_guards < MAX_GUARDS ? n_guards : 0;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if(!cov_on) return;
    uint32_t i = *g;
    if(!i) return;
    auto& e = R->edges[i];
    if(e < 255) e++;
    if(in_harness) return;
    if(++steps > step_limit) {
        step_limit = ~0ull;
        fail("no-progress", "step bound exceeded: %llu library steps", (unsigned long long)steps);
    }
    if(sched_active) sched_yield_point();
}
#define SIM_ACC(n) \
    void __sanitizer_cov_load##n(void* p)  { if(sched_active) sched_access(p, false); } \
    void __sanitizer_cov_store##n(void* p) { if(sched_active) sched_access(p, true); }
SIM_ACC(1) SIM_ACC(2) SIM_ACC(4) SIM_ACC(8) SIM_ACC(16)

const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:malloc_context_size=4:symbolize=0:"
           "max_malloc_fill_size=0:check_initialization_order=0:detect_odr_violation=0:print_legend=0:print_full_thread_history=0:use_sigaltstack=1:handle_sigill=1";
}
const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78:symbolize=0"; }
}
