// Simulator core: choices, trace, result block, allocator seam, step clock.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

//---------------------------------------------------------------- result block (shared with the parent process)
enum Status : uint32_t { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_HARNESS_ERROR };

struct Counter { char name[40]; uint64_t n; };
struct Span { uint32_t b, e; };

static const uint32_t MAX_CHOICES  = 1u << 20;
static const uint32_t MAX_SPANS    = 1u << 16;
static const uint32_t MAX_TRACE    = 1u << 18;
static const uint32_t MAX_COUNTERS = 160;
static const uint32_t MAX_GUARDS   = 1u << 16;

struct Result {
    uint32_t status;
    char     cls[256];
    char     detail[8192];
    uint64_t hash;            // hash of the whole event trace
    uint64_t sched_hash;      // hash of the scheduling decisions (interleaving)
    uint64_t sched_switches;
    uint64_t steps;           // library steps executed
    uint64_t sim_time;        // simulated time units
    uint64_t evals;           // oracle evaluations / episodes in this run
    uint64_t peak_mem;
    uint32_t n_choices, n_spans, n_counters, trace_len;
    uint32_t flags;           // of the scenario
    uint32_t n_states;        // distinct state signatures reported in this run
    uint64_t states[4096];
    Counter  counters[MAX_COUNTERS];
    Span     spans[MAX_SPANS];
    uint32_t choices[MAX_CHOICES];
    char     trace[MAX_TRACE];
    uint8_t  edges[MAX_GUARDS];
};
extern Result* R;             // mapped shared by main()

//---------------------------------------------------------------- failing
[[noreturn]] void fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_bytes(const char* what, const void* p, size_t n);   // hashes content, prints a short digest
void count(const char* name, uint64_t n = 1);
void state(uint64_t sig);                                     // a distinct-state signature
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const void* p, size_t n, size_t max = 64);

//---------------------------------------------------------------- choices
class Chooser {
public:
    // replay == nullptr: random from seed
    void init(uint64_t seed, const uint32_t* replay, uint32_t n_replay, bool extend = false);
    void init_private(uint64_t seed) { init(seed, nullptr, 0); priv = true; }   // derived from a recorded choice, not recorded itself
    uint32_t below(uint32_t n);                 // uniform in [0, n), 0 is the simplest
    uint32_t range(uint32_t lo, uint32_t hi)    // inclusive
        { return lo + below(hi - lo + 1); }
    bool     chance(uint32_t num, uint32_t den); // true with num/den; false is simplest
    uint64_t u64();
    uint32_t pick(std::initializer_list<uint32_t> weights); // weighted index
    template<class T> const T& of(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    size_t   begin_span();
    void     end_span(size_t idx);
private:
    uint64_t s[4];
    const uint32_t* rep; uint32_t nrep, pos; bool ext, priv = false;
    uint32_t raw(uint32_t n);
    uint64_t next();
};
struct SpanScope {
    Chooser& c; size_t i;
    SpanScope(Chooser& c_) : c(c_), i(c_.begin_span()) { }
    ~SpanScope() { c.end_span(i); }
};

//---------------------------------------------------------------- allocator seam
struct AllocCtl {
    bool     armed   = false;   // inject failures
    uint64_t fail_at = 0;       // ordinal (1-based) of the allocation that fails
    bool     sticky  = false;   // every later one fails too
    uint64_t every   = 0;       // additionally every n-th
    uint64_t seen    = 0;       // allocations inside the library since armed
    uint64_t fired   = 0;
    uint64_t live    = 0, peak = 0; // bytes live allocated inside the library
    uint64_t limit   = 256ull << 20;
    uint8_t  fill    = 0xA5;
    uint64_t big     = 0;       // largest single request
    uint64_t refuse  = ~0ull;   // larger requests than this are refused
};
extern AllocCtl A;
extern thread_local int in_lib;      // >0: code under test is running
extern thread_local int in_harness;  // >0: harness callback inside it
struct LibScope     { LibScope() { in_lib++; }         ~LibScope() { in_lib--; } };
struct HarnessScope { HarnessScope() { in_harness++; } ~HarnessScope() { in_harness--; } };
void   alloc_arm(uint64_t fail_at, bool sticky, uint64_t every = 0);
uint64_t alloc_disarm();             // returns how many failures fired
void   ledger_reset();
void   ledger_describe(size_t max);
uint64_t ledger_live();              // allocations made inside the library still live
uint64_t iconv_open_handles();
// a run that leaves nothing behind may be followed by another one in the same process
extern bool (*run_clean_fn)();
inline bool run_left_clean() { return !run_clean_fn || run_clean_fn(); }
// iconv_open failure injection
extern uint64_t iconv_fail_at, iconv_seen, iconv_fired;

//---------------------------------------------------------------- step clock
extern uint64_t steps, step_limit;
extern bool     cov_on;
void steps_begin(uint64_t limit);     // start a bounded section
uint64_t steps_end();

//---------------------------------------------------------------- scheduler of parked OS threads (C08, C15)
typedef void (*ThreadFn)(void* arg);
struct Sched;
void   sched_start(Chooser* ch, int n, ThreadFn fn, void** args, uint32_t switch_num, uint32_t switch_den); // runs to completion
void   sched_yield_point();           // called by instrumentation in a scheduled thread
void   sched_block(bool (*ready)(void*), void* arg, const char* what); // park until ready
void   sched_sleep(uint64_t ticks);   // simulated time
int    sched_self();
extern bool sched_active;
extern uint64_t sim_now;
extern uint64_t sched_preempt_mean;   // mean number of preemption points between switches
extern bool sched_at_conflicts;       // also switch at accesses to memory another party has written (fine variant)

//---------------------------------------------------------------- scenario registry
struct Scenario {
    const char* prop;
    const char* name;
    uint32_t    weight;
    void (*run)(Chooser&);
    uint32_t    flags;
};
enum { SC_NO_FILL_CHECK = 1, SC_NO_LEAK_CHECK = 2 };
void add_scenario(const Scenario&);
struct Register { Register(const char* p, const char* n, uint32_t w, void (*f)(Chooser&), uint32_t fl = 0) { add_scenario({p, n, w, f, fl}); } };
// known findings: deterministic demonstration, true if the defect still shows
struct Finding { const char* prop; const char* id; bool (*shows)(); const char* what; };
void add_finding(const Finding&);
struct RegisterFinding { RegisterFinding(const char* p, const char* i, bool (*f)(), const char* w) { add_finding({p, i, f, w}); } };
}
