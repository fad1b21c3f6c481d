/*
 * The code is compiled with OpenMP and instrumentation of memory accesses (-fsanitize=thread),
 * but linked to the runtime below instead of the real ones: threads are fibers, and every access
 * to the shared state is a scheduling point.
 */
#include "csp_cases.hpp"
#include "fibers.hpp"
using namespace bridge;
using namespace sp::graph::constraint;

namespace runtime
{
using fibers::Scheduler;
struct Team
{
    unsigned size = 1;
    unsigned arrived = 0;
    unsigned long generation = 0;
    unsigned long singles = 0;
    std::vector<unsigned long> single_of;
    // Dynamic loops
    long next = 0, end = 0, step = 1, chunk = 1;
    bool loop = false;
    unsigned loop_left = 0;
};
Team* team = nullptr;
unsigned threads_number = 1;
// Regions may get less threads than the greatest number of them.
bool adjusted = false;
fibers::Policy policy;
unsigned long regions = 0, switches = 0, steps = 0;
const char* shared_begin = nullptr;
const char* shared_end = nullptr;
int critical = 0;
bool enabled = false;

inline void point() { if (Scheduler::inside()) Scheduler::active()->yield(); }
inline void access(const void* address, size_t size, bool write)
{
    if (!Scheduler::inside()) return;
    const char* p = static_cast<const char*>(address);
    bool shared = p + size > shared_begin && p < shared_end;
    if (shared || (write && !Scheduler::active()->own_stack(p))) Scheduler::active()->yield();
}
inline void barrier()
{
    if (!team || !Scheduler::inside()) return;
    unsigned long generation = team->generation;
    if (++team->arrived == team->size)
    {
        team->arrived = 0;
        ++team->generation;
        point();
    }
    else
    {
        Team* t = team;
        Scheduler::active()->wait([t, generation] { return t->generation != generation; });
    }
}
inline void lock()
{
    if (!Scheduler::inside()) return;
    Scheduler::active()->wait([] { return critical == 0; });
    critical = 1;
}
inline void unlock()
{
    if (!Scheduler::inside()) return;
    critical = 0;
    point();
}
inline void parallel(void (*function)(void*), void* data, unsigned number, long start = 0, long end = 0, long step = 1, long chunk = 1, bool loop = false)
{
    if (team)
    {
        // Nested regions have one thread.
        Team* outer = team;
        Team nested;
        nested.next = start; nested.end = end; nested.step = step; nested.chunk = chunk; nested.loop = loop;
        team = &nested;
        Scheduler* active = Scheduler::active();
        Scheduler::active() = nullptr;
        function(data);
        Scheduler::active() = active;
        team = outer;
        return;
    }
    Team current;
    current.size = number ? number : threads_number;
    if (adjusted) current.size = 1 + static_cast<unsigned>(pbt::mix(policy.seed + 77) % current.size);
    current.single_of.assign(current.size, 0);
    current.next = start; current.end = end; current.step = step; current.chunk = chunk; current.loop = loop;
    team = &current;
    critical = 0;
    Scheduler scheduler{policy};
    for (unsigned i = 0; i < current.size; ++i) scheduler.spawn([function, data] { function(data); });
    ++regions;
    bool complete;
    try { complete = scheduler.run(); } catch (...) { team = nullptr; throw; }
    team = nullptr;
    switches += scheduler.switches;
    steps += scheduler.steps;
    // Every region gets a different schedule.
    policy.seed = pbt::mix(policy.seed + 1);
    if (!complete) throw pbt::Fail{"threads wait for each other forever"};
}
inline bool take(long* start, long* end)
{
    point();
    if (!team) return false;
    long from = team->next;
    if (team->step > 0 ? from >= team->end : from <= team->end) return false;
    long to = from + team->chunk * team->step;
    if (team->step > 0 ? to > team->end : to < team->end) to = team->end;
    team->next = to;
    *start = from;
    *end = to;
    return true;
}
}

extern "C"
{
using namespace runtime;
int omp_get_num_threads() { return team ? static_cast<int>(team->size) : 1; }
int omp_get_thread_num() { return Scheduler::inside() ? static_cast<int>(Scheduler::active()->index()) : 0; }
int omp_get_max_threads() { return static_cast<int>(threads_number); }
int omp_get_num_procs() { return static_cast<int>(threads_number); }
int omp_in_parallel() { return team && team->size > 1; }
int omp_get_thread_limit() { return 1000; }
void omp_set_num_threads(int n) { threads_number = static_cast<unsigned>(n); }
int omp_get_dynamic() { return adjusted; }
void omp_set_dynamic(int value) { adjusted = value != 0; }
int omp_get_level() { return team ? 1 : 0; }
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) { parallel(f, d, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock(); }
void GOMP_critical_end() { unlock(); }
void GOMP_critical_name_start(void**) { lock(); }
void GOMP_critical_name_end(void**) { unlock(); }
void GOMP_atomic_start() { lock(); }
void GOMP_atomic_end() { unlock(); }
bool GOMP_single_start()
{
    if (!team || !Scheduler::inside()) return true;
    point();
    auto& mine = team->single_of[Scheduler::active()->index()];
    ++mine;
    if (mine <= team->singles) return false;
    team->singles = mine;
    return true;
}
#define LOOP(name) \
    void GOMP_parallel_loop_##name(void (*f)(void*), void* d, unsigned n, long start, long end, long step, long chunk, unsigned) { parallel(f, d, n, start, end, step, chunk ? chunk : 1, true); } \
    bool GOMP_loop_##name##_next(long* start, long* end) { return take(start, end); }
#define LOOP_NO_CHUNK(name) \
    void GOMP_parallel_loop_##name(void (*f)(void*), void* d, unsigned n, long start, long end, long step, unsigned) { parallel(f, d, n, start, end, step, 1, true); } \
    bool GOMP_loop_##name##_next(long* start, long* end) { return take(start, end); }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOP_NO_CHUNK(runtime)
LOOP_NO_CHUNK(maybe_nonmonotonic_runtime)
LOOP_NO_CHUNK(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() { point(); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n) \
    void __tsan_read##n(void* a) { access(a, n, false); } \
    void __tsan_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true); }
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* a, int) { point(); return *a; } \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int) { point(); *a = v; } \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { point(); type o = *a; *a = v; return o; } \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { point(); type o = *a; *a = static_cast<type>(o + v); return o; } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { point(); type o = *a; *a = static_cast<type>(o - v); return o; } \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { point(); type o = *a; *a = static_cast<type>(o & v); return o; } \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { point(); type o = *a; *a = static_cast<type>(o | v); return o; } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { point(); type o = *a; *a = static_cast<type>(o ^ v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { point(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { point(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { point(); type o = *a; if (o == e) *a = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
}

namespace pbt {
const char* const PROPERTY_ID = "C13";
const char* const PROPERTY_RULE =
    "a problem, a threshold and a set of nodes, solved by the code built with OpenMP under a controlled scheduler which switches threads at single accesses to the shared state; "
    "non-trivial: as above, and threads of at least two were interleaved";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 120;
    o.max_width = 14;
    o.max_height = 14;
    o.min_height = 2;
    auto k = cases::generate(c, o);
    const Problem& p = k->p;
    runtime::threads_number = static_cast<unsigned>(c.chance(1, 20) ? 1 : c.range(2, 5));
    runtime::adjusted = c.chance(1, 4);
    runtime::policy = fibers::generate_policy(c, runtime::threads_number, 60 * k->initial.on.size());
    runtime::regions = runtime::switches = runtime::steps = 0;
    auto policy = runtime::policy;
    unsigned threads = runtime::threads_number;
    const bool adjusted = runtime::adjusted;
    c.label_if(adjusted, "teams of less threads than the greatest number");
    c.describe([k, policy, threads, adjusted] { return k->text() + str(" threads=", threads, adjusted ? " or less " : " ", policy.text()); });
    DisparityGraph g = graph(p);
    LowestPenalties lowest{&g};
    ConstraintGraph csp{&g, &lowest, k->threshold};
    set_nodes(k->initial, p, csp);
    bool bits = std::is_same<decltype(csp.nodes_availability), std::vector<bool>>::value;
    size_t bytes = bits ? (csp.nodes_availability.size() + 63) / 64 * 8 : csp.nodes_availability.size() * sizeof(sp::types::BOOL);
    runtime::shared_begin = nullptr;
    if constexpr (std::is_same<decltype(csp.nodes_availability), std::vector<bool>>::value)
        runtime::shared_begin = reinterpret_cast<const char*>(csp.nodes_availability.begin()._M_p);
    runtime::shared_end = runtime::shared_begin + bytes;
    bool answer = solve_csp(&csp);
    runtime::shared_begin = runtime::shared_end = nullptr;
    Nodes actual = bridge::nodes(p, csp);
    c.is_nontrivial = c.is_nontrivial && runtime::switches > runtime::regions * threads;
    c.label_if(runtime::switches > runtime::regions * threads, "interleaved");
    c.label_if(runtime::steps > 1000, "more than 1000 steps");
    c.label(str(threads, " threads"));
    c.label_if(runtime::regions == 0, "no parallel region");
    REQUIRE(actual == k->expected, "left ", actual.text(), " instead of ", k->expected.text());
    REQUIRE(answer == k->expected.any(), "answer ", answer);
}
}
