/*
 * Cooperative threads with a controlled scheduler.
 * Every decision of the scheduler is a function of choices of the case.
 */
#pragma once
#include "pbt.hpp"

#include <sys/mman.h>

#include <memory>

#if defined(__SANITIZE_ADDRESS__)
#define FIBERS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FIBERS_ASAN 1
#endif
#endif
#ifdef FIBERS_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

#if !defined(__x86_64__)
#include <ucontext.h>
#endif

namespace fibers
{

#if defined(__x86_64__)
/* The same as ucontext without a system call for every switch. */
struct Context
{
    void* stack = nullptr;
};
__attribute__((naked, noinline)) inline void switch_context(Context*, Context*)
{
    __asm__(
        "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
        "movq %rsp, (%rdi)\n"
        "movq (%rsi), %rsp\n"
        "popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n"
        "ret\n");
}
inline void make_context(Context& context, char* stack, size_t size, void (*entry)())
{
    void** top = reinterpret_cast<void**>(stack + size);
    *--top = nullptr;       // where the entry would return
    *--top = reinterpret_cast<void*>(entry);
    for (int i = 0; i < 6; ++i) *--top = nullptr;
    context.stack = top;
}
#else
struct Context
{
    ucontext_t context{};
};
inline void switch_context(Context* from, Context* to) { swapcontext(&from->context, &to->context); }
inline void make_context(Context& context, char* stack, size_t size, void (*entry)())
{
    getcontext(&context.context);
    context.context.uc_stack.ss_sp = stack;
    context.context.uc_stack.ss_size = size;
    context.context.uc_link = nullptr;
    makecontext(&context.context, entry, 0);
}
#endif

using pbt::u64;

/* How the next thread is chosen when the current one reaches a scheduling point. */
struct Policy
{
    enum Kind { Sequential, Random, Priorities, RoundRobin } kind = Sequential;
    u64 seed = 0;                       // Random
    u64 switching = 128;                // Random: probability of a switch, of 256
    std::vector<u64> priorities;        // Priorities: of threads, greater runs first
    std::vector<u64> changes;           // Priorities: steps at which the running thread becomes the least important
    std::string text() const
    {
        switch (kind)
        {
            case Sequential: return "one thread after another";
            case Random: return pbt::str("random schedule ", seed, " switching ", switching, "/256");
            case RoundRobin: return "round robin by single steps";
            default: return pbt::str("priorities ", pbt::list(priorities), " lowered at steps ", pbt::list(changes));
        }
    }
};

inline Policy generate_policy(pbt::Case& c, u64 threads, u64 steps)
{
    Policy p;
    switch (c.weighted({1, 5, 5, 1}))
    {
        case 0: break;
        case 1:
            p.kind = Policy::Random;
            p.switching = c.pick(std::vector<u64>{256, 128, 32, 8, 2});
            p.seed = c.draw(0xffffffff);
            break;
        case 2:
        {
            p.kind = Policy::Priorities;
            for (u64 i = 0; i < threads && i < 64; ++i) p.priorities.push_back(c.draw(1000));
            for (u64 i = c.draw(6); i > 0; --i) p.changes.push_back(c.draw(steps));
            break;
        }
        default: p.kind = Policy::RoundRobin; break;
    }
    c.label(p.kind == Policy::Sequential ? "schedule: sequential" : p.kind == Policy::Random ? "schedule: random"
            : p.kind == Policy::RoundRobin ? "schedule: round robin" : "schedule: priorities");
    return p;
}

class Scheduler
{
public:
    static constexpr size_t STACK = 128 * 1024;
    explicit Scheduler(Policy policy) : policy{std::move(policy)}, state{this->policy.seed} {}
    Scheduler(const Scheduler&) = delete;
    ~Scheduler()
    {
        for (auto& f : all) pool().push_back(f->stack);
    }
    u64 switches = 0, steps = 0;

    void spawn(std::function<void()> function)
    {
        auto fiber = std::make_unique<Fiber>();
        fiber->function = std::move(function);
        fiber->index = all.size();
        fiber->priority = 1000000 + (all.size() < policy.priorities.size() ? policy.priorities[all.size()] * 1000 : 0) - all.size();
        if (pool().empty())
        {
            void* p = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) pbt::harness_error("mmap");
            fiber->stack = static_cast<char*>(p);
        }
        else
        {
            fiber->stack = pool().back();
            pool().pop_back();
        }
        make_context(fiber->context, fiber->stack, STACK, &Scheduler::entry);
        all.push_back(std::move(fiber));
    }

    /* Run all threads; false if those which are left are blocked forever. */
    bool run()
    {
        Scheduler* outer = active();
        active() = this;
        bool complete = true;
        if (crowd()) run_crowd();
        while (!failed)
        {
            Fiber* next = choose();
            if (!next)
            {
                for (auto& f : all) complete = complete && f->finished;
                break;
            }
            if (next != last) ++switches;
            last = next;
            current = next;
            enter(next);
            current = nullptr;
            if (failed) break;
        }
        active() = outer;
        if (failed) throw pbt::Fail{failure};
        return complete;
    }
    /* A scheduling point of the running thread. */
    void yield()
    {
        ++steps;
        Fiber* me = current;
        bool leave = false;
        if (crowd()) return;
        switch (policy.kind)
        {
            case Policy::Sequential: break;
            case Policy::RoundRobin: leave = true; break;
            case Policy::Random:
                state = pbt::mix(state);
                leave = (state & 255) < policy.switching;
                break;
            case Policy::Priorities:
                for (u64 change : policy.changes)
                    if (change == steps)
                    {
                        me->priority = --lowest;
                        leave = true;
                    }
                break;
        }
        if (leave) suspend();
    }
    /* The running thread waits until the condition becomes true. */
    void wait(std::function<bool()> condition)
    {
        ++steps;
        current->condition = std::move(condition);
        while (current->condition && !current->condition()) suspend();
        current->condition = nullptr;
    }
    /* Give up because of the running thread, which never continues. */
    [[noreturn]] void abandon(const std::string& message)
    {
        failed = true;
        failure = message;
        while (true) suspend();
    }
    size_t index() const { return current->index; }
    /* Bounds of the stack of the running thread. */
    bool own_stack(const void* p) const
    {
        const char* q = static_cast<const char*>(p);
        return current && q >= current->stack && q < current->stack + STACK;
    }
    static Scheduler*& active()
    {
        static Scheduler* scheduler = nullptr;
        return scheduler;
    }
    static bool inside() { return active() && active()->current; }

private:
    struct Fiber
    {
        std::function<void()> function;
        std::function<bool()> condition;
        Context context;
        char* stack = nullptr;
        bool finished = false;
        size_t index = 0;
        u64 priority = 0;
        void* fake = nullptr;
    };
    static std::vector<char*>& pool()
    {
        static std::vector<char*> stacks;
        return stacks;
    }
    /* With a lot of threads, each one runs until it has to wait, in ascending or in descending order. */
    bool crowd() const { return all.size() > 512; }
    void run_crowd()
    {
        bool progress = true;
        while (progress && !failed)
        {
            progress = false;
            for (size_t i = 0; i < all.size() && !failed; ++i)
            {
                Fiber* f = all[policy.seed & 1 ? all.size() - 1 - i : i].get();
                if (f->finished || (f->condition && !f->condition())) continue;
                progress = true;
                ++switches;
                current = last = f;
                enter(f);
                current = nullptr;
            }
        }
    }
    Fiber* choose()
    {
        size_t n = all.size();
        std::vector<Fiber*> ready;
        for (auto& f : all)
            if (!f->finished && (!f->condition || f->condition())) ready.push_back(f.get());
        if (ready.empty()) return nullptr;
        switch (policy.kind)
        {
            case Policy::Sequential: return ready[0];
            case Policy::RoundRobin:
            {
                size_t from = last ? last->index : n - 1;
                for (auto* f : ready)
                    if (f->index > from) return f;
                return ready[0];
            }
            case Policy::Random:
                state = pbt::mix(state);
                return ready[(state >> 20) % ready.size()];
            default:
            {
                Fiber* best = ready[0];
                for (auto* f : ready)
                    if (f->priority > best->priority) best = f;
                return best;
            }
        }
    }
    void enter(Fiber* fiber)
    {
#ifdef FIBERS_ASAN
        __sanitizer_start_switch_fiber(&main_fake, fiber->stack, STACK);
#endif
        switch_context(&main, &fiber->context);
#ifdef FIBERS_ASAN
        __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    }
    void suspend()
    {
        Fiber* me = current;
#ifdef FIBERS_ASAN
        __sanitizer_start_switch_fiber(&me->fake, main_stack, main_size);
#endif
        switch_context(&me->context, &main);
#ifdef FIBERS_ASAN
        __sanitizer_finish_switch_fiber(me->fake, &main_stack, &main_size);
#endif
    }
    static void entry()
    {
        Scheduler* self = active();
#ifdef FIBERS_ASAN
        __sanitizer_finish_switch_fiber(nullptr, &self->main_stack, &self->main_size);
#endif
        Fiber* me = self->current;
        try
        {
            me->function();
        }
        catch (const pbt::Fail& fail)
        {
            self->failed = true;
            self->failure = fail.msg;
        }
        catch (const std::exception& e)
        {
            self->failed = true;
            self->failure = pbt::str("unexpected exception: ", e.what());
        }
        me->finished = true;
#ifdef FIBERS_ASAN
        __sanitizer_start_switch_fiber(nullptr, self->main_stack, self->main_size);
#endif
        switch_context(&me->context, &self->main);
    }

    Policy policy;
    u64 state;
    u64 lowest = 1000000 - 100000;
    std::vector<std::unique_ptr<Fiber>> all;
    Fiber* current = nullptr;
    Fiber* last = nullptr;
    Context main;
    void* main_fake = nullptr;
    const void* main_stack = nullptr;
    size_t main_size = 0;
    bool failed = false;
    std::string failure;
};

}
