/*
 * A stand-in for a computing device: buffers, kernels launched over many threads,
 * threads are fibers switched at single accesses to the memory of the device.
 * The code of kernels is compiled with -fsanitize=thread and calls functions defined below.
 */
#pragma once
#include "fibers.hpp"

#include <dlfcn.h>
#include <link.h>

#include <cstring>
#include <map>

namespace device
{

using fibers::Scheduler;
using pbt::u64;

struct Buffer
{
    char* data = nullptr;
    size_t size = 0;
};

struct Thread
{
    u64 group = 0, local = 0;
};

struct State
{
    // Settings of the case.
    fibers::Policy policy;
    unsigned char garbage = 0xcd;           // what is in fresh memory
    u64 launches_limit = 100000;
    u64 steps_limit = 3000000;
    u64 crowds = 0;                         // if not zero, only so many first launches of crowds of threads, and some of later ones, are run
    u64 last_crowd = 0;                     // one of those which are run
    // Memory.
    std::vector<Buffer> buffers;
    // The running kernel.
    std::string kernel;
    std::vector<Buffer> accessible;
    std::vector<Thread> threads;
    u64 group_size = 1, groups = 1, offset = 0;
    std::vector<u64> arrived, generation;   // barriers of groups
    u64 grid_arrived = 0, grid_generation = 0;
    // A fault: the given call of a function, or the given execution of a kernel, fails.
    std::string fault;
    u64 fault_index = 0;
    int fault_code = 0;                     // of the error; zero is for the usual one of the function
    bool fatal = false;                     // nothing works after the fault
    bool lost = false;                      // nothing works on the device any more
    std::map<std::string, u64> calls;
    std::string failure;                    // what the kernels did wrong
    // What was done.
    u64 launches = 0, switches = 0, steps = 0, barriers = 0;
    std::map<std::string, u64> per_kernel;
};
inline State& state()
{
    static State s;
    return s;
}

inline Buffer allocate(size_t size)
{
    Buffer b;
    b.size = size;
    b.data = static_cast<char*>(std::malloc(size ? size : 1));
    std::memset(b.data, state().garbage, size ? size : 1);
    state().buffers.push_back(b);
    return b;
}
inline bool release(const void* data)
{
    auto& all = state().buffers;
    for (size_t i = 0; i < all.size(); ++i)
        if (all[i].data == data)
        {
            std::free(all[i].data);
            all.erase(all.begin() + static_cast<long>(i));
            return true;
        }
    return false;
}
/* The buffer which has the whole range. */
inline Buffer* find(std::vector<Buffer>& where, const void* address, size_t size)
{
    const char* p = static_cast<const char*>(address);
    for (auto& b : where)
        if (p >= b.data && size <= b.size && p <= b.data + (b.size - size)) return &b;
    return nullptr;
}
inline Buffer* find(const void* address, size_t size) { return find(state().buffers, address, size); }

/* Does this call of the function fail? */
inline bool fails(const char* function)
{
    State& s = state();
    const bool now = s.calls[function]++ == s.fault_index && s.fault == function;
    if (now && s.fatal) s.lost = true;
    return now || s.lost;
}

/* Forget everything left by the previous case. */
inline void reset()
{
    for (auto& b : state().buffers) std::free(b.data);
    state() = State{};
}

/* Constants of modules. */
inline bool in_module(const void* p)
{
    Dl_info info;
    return dladdr(p, &info) != 0;
}

inline void access(const void* address, size_t size, const char* what)
{
    if (!Scheduler::inside()) return;
    Scheduler& scheduler = *Scheduler::active();
    if (scheduler.own_stack(address)) return;
    State& s = state();
    if (!find(s.accessible, address, size))
    {
        if (in_module(address)) return;
        std::string place = "outside of any buffer";
        const char* p = static_cast<const char*>(address);
        for (auto& b : s.buffers)
            if (p >= b.data - 64 && p < b.data + b.size + 64)
                place = pbt::str("at offset ", static_cast<long>(p - b.data), " of a buffer of ", b.size, " bytes",
                                 find(s.accessible, b.data, b.size) ? "" : " which is not given to the kernel");
        scheduler.abandon(pbt::str("kernel ", s.kernel, " ", what, " ", size, " bytes ", place));
    }
    if (scheduler.steps > s.steps_limit) scheduler.abandon(pbt::str("kernel ", s.kernel, " does not end"));
    scheduler.yield();
}

inline const Thread& thread()
{
    static Thread none;
    return Scheduler::inside() ? state().threads[Scheduler::active()->index()] : none;
}
inline void wait_all(u64& arrived, u64& generation, u64 number)
{
    if (!Scheduler::inside()) return;
    ++state().barriers;
    u64 mine = generation;
    if (++arrived == number)
    {
        arrived = 0;
        ++generation;
        Scheduler::active()->yield();
    }
    else
    {
        u64* g = &generation;
        Scheduler::active()->wait([g, mine] { return *g != mine; });
    }
}
inline void group_barrier()
{
    State& s = state();
    wait_all(s.arrived[thread().group], s.generation[thread().group], s.group_size);
}
inline void grid_barrier()
{
    State& s = state();
    wait_all(s.grid_arrived, s.grid_generation, s.threads.size());
}

inline void launch(const std::string& name, u64 groups, u64 group_size, u64 offset, std::vector<Buffer> accessible,
                   const std::function<void()>& body)
{
    State& s = state();
    if (++s.launches > s.launches_limit)
    {
        s.failure = "the number of launched kernels is not limited";
        throw pbt::Fail{s.failure};
    }
    if (fails("a kernel"))
    {
        s.lost = true;
        return;
    }
    ++s.per_kernel[name];
    if (s.crowds && groups * group_size > 512)
    {
        // The case is such that they change nothing.
        const u64 crowd = s.per_kernel[name];
        if (crowd > s.crowds && crowd % 512 && crowd != s.last_crowd) return;
    }
    s.kernel = name;
    s.accessible = std::move(accessible);
    s.threads.clear();
    s.groups = groups;
    s.group_size = group_size;
    s.offset = offset;
    s.arrived.assign(groups, 0);
    s.generation.assign(groups, 0);
    s.grid_arrived = s.grid_generation = 0;
    Scheduler scheduler{s.policy};
    // The order of threads is up to the device.
    for (u64 g = 0; g < groups; ++g)
        for (u64 l = 0; l < group_size; ++l)
        {
            s.threads.push_back({g, l});
            scheduler.spawn(body);
        }
    bool complete = false;
    try
    {
        complete = scheduler.run();
        if (!complete) throw pbt::Fail{pbt::str("threads of kernel ", name, " wait for each other forever")};
    }
    catch (const pbt::Fail& fail)
    {
        s.failure = fail.msg;
        throw;
    }
    s.switches += scheduler.switches > s.threads.size() ? scheduler.switches - s.threads.size() : 0;
    s.steps += scheduler.steps;
    // Every launch gets a different schedule.
    s.policy.seed = pbt::mix(s.policy.seed + 1);
    std::rotate(s.policy.priorities.begin(), s.policy.priorities.begin() + !s.policy.priorities.empty(), s.policy.priorities.end());
}

}

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define DEVICE_ACCESS(n) \
    void __tsan_read##n(void* a) { device::access(a, n, "reads"); } \
    void __tsan_write##n(void* a) { device::access(a, n, "writes"); } \
    void __tsan_unaligned_read##n(void* a) { device::access(a, n, "reads"); } \
    void __tsan_unaligned_write##n(void* a) { device::access(a, n, "writes"); } \
    void __tsan_volatile_read##n(void* a) { device::access(a, n, "reads"); } \
    void __tsan_volatile_write##n(void* a) { device::access(a, n, "writes"); } \
    void __tsan_unaligned_volatile_read##n(void* a) { device::access(a, n, "reads"); } \
    void __tsan_unaligned_volatile_write##n(void* a) { device::access(a, n, "writes"); } \
    void __tsan_read_write##n(void* a) { device::access(a, n, "reads"); device::access(a, n, "writes"); } \
    void __tsan_unaligned_read_write##n(void* a) { device::access(a, n, "reads"); device::access(a, n, "writes"); }
DEVICE_ACCESS(1) DEVICE_ACCESS(2) DEVICE_ACCESS(4) DEVICE_ACCESS(8) DEVICE_ACCESS(16)
void __tsan_read_range(void* a, unsigned long n) { device::access(a, n, "reads"); }
void __tsan_write_range(void* a, unsigned long n) { device::access(a, n, "writes"); }
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{
    if (n) device::access(s, n, "reads"), device::access(d, n, "writes");
    return __builtin_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n)
{
    if (n) device::access(s, n, "reads"), device::access(d, n, "writes");
    return __builtin_memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n)
{
    if (n) device::access(d, n, "writes");
    return __builtin_memset(d, v, n);
}
#define DEVICE_ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* a, int) { device::access(const_cast<type*>(a), bits / 8, "reads"); return *a; } \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); *a = v; } \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = v; return o; } \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = static_cast<type>(o + v); return o; } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = static_cast<type>(o - v); return o; } \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = static_cast<type>(o & v); return o; } \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = static_cast<type>(o | v); return o; } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; *a = static_cast<type>(o ^ v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { device::access(const_cast<type*>(a), bits / 8, "writes"); type o = *a; if (o == e) *a = v; return o; }
DEVICE_ATOMIC(8, unsigned char) DEVICE_ATOMIC(16, unsigned short) DEVICE_ATOMIC(32, unsigned) DEVICE_ATOMIC(64, unsigned long)
}
