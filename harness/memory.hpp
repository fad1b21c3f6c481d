/*
 * Memory under control, for C25: allocations of C++ code are counted and fail where it is asked for,
 * blocks which are still in use are counted for all kinds of allocations.
 */
#pragma once
#include <cstddef>
#include <cstdlib>
#include <dirent.h>
#include <new>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace memory
{
constexpr unsigned long NEVER = ~0ul;
struct Control
{
    bool armed = false;
    unsigned long requests = 0;         // since the control is armed
    unsigned long first = NEVER;        // number of the first request which fails
    unsigned long last = NEVER;         // number of the last request which fails
    unsigned long largest = NEVER;      // larger requests fail
    unsigned long failures = 0;
    void (*on_failure)() = nullptr;     // called by the first failure
    long live = 0;                      // blocks in use
};
inline Control& control()
{
    static Control value;
    return value;
}
inline bool refused(size_t size)
{
    Control& c = control();
    if (!c.armed) return false;
    const unsigned long number = c.requests++;
    if (!((number >= c.first && number <= c.last) || size > c.largest)) return false;
    if (c.failures++ == 0 && c.on_failure)
    {
        c.armed = false;
        c.on_failure();
        c.armed = true;
    }
    return true;
}
inline void* allocate(size_t size, size_t alignment = 0)
{
    if (refused(size)) throw std::bad_alloc{};
    void* result = nullptr;
    if (alignment <= alignof(std::max_align_t)) result = std::malloc(size ? size : 1);
    else if (posix_memalign(&result, alignment, size ? size : 1) != 0) result = nullptr;
    if (!result) throw std::bad_alloc{};
    return result;
}
inline void allocated(const volatile void* p, size_t) { if (p) ++control().live; }
inline void released(const volatile void* p) { if (p) --control().live; }
inline void watch()
{
    static bool installed = false;
    if (!installed) __sanitizer_install_malloc_and_free_hooks(allocated, released);
    installed = true;
}
/* Number of open descriptors. */
inline int descriptors()
{
    int result = 0;
    if (DIR* directory = opendir("/proc/self/fd"))
    {
        while (readdir(directory)) ++result;
        closedir(directory);
    }
    return result;
}
}

void* operator new(size_t size) { return memory::allocate(size); }
void* operator new[](size_t size) { return memory::allocate(size); }
void* operator new(size_t size, std::align_val_t alignment) { return memory::allocate(size, static_cast<size_t>(alignment)); }
void* operator new[](size_t size, std::align_val_t alignment) { return memory::allocate(size, static_cast<size_t>(alignment)); }
void* operator new(size_t size, const std::nothrow_t&) noexcept { try { return memory::allocate(size); } catch (...) { return nullptr; } }
void* operator new[](size_t size, const std::nothrow_t&) noexcept { try { return memory::allocate(size); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
