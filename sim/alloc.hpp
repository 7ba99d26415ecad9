// The allocator seam: every operator new of the program under test comes through here.
//  * fresh memory is filled with a byte chosen by the run (so a read of uninitialised memory is repeatable, and two
//    runs that differ only in that byte must agree);
//  * the n-th allocation of an armed region can fail with std::bad_alloc.
#pragma once
#include "core.hpp"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

#define SIM_PLAIN __attribute__((no_sanitize("thread")))

namespace sim
{
    inline bool g_alloc_armed       = false; // count (and possibly fail) allocations
    inline uint64_t g_alloc_count   = 0;     // allocations seen while armed
    inline uint64_t g_alloc_fail_at = 0;     // 1-based index of the allocation that fails; 0: never
    inline uint64_t g_alloc_burst   = 1;     // how many consecutive allocations fail
    inline uint64_t g_alloc_failed  = 0;
    inline bool (*g_alloc_filter)(std::size_t) = nullptr;

    // ---- arena: same addresses in every execution of a seed, whatever the address space layout ----------------------
    constexpr uintptr_t ARENA_LO = 0x200000000000ull;
    constexpr std::size_t ARENA_SZ = std::size_t(3) << 29;
    inline uintptr_t g_arena_hp = 0;
    inline void* g_arena_free[64 + 64] = {};

    SIM_PLAIN inline bool in_arena(void* p)
    {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        return a >= ARENA_LO && a < ARENA_LO + ARENA_SZ;
    }

    SIM_PLAIN inline void arena_start()
    {
        void* p = mmap(reinterpret_cast<void*>(ARENA_LO), ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void*>(ARENA_LO))
        {
            std::abort();
        }
        g_arena_hp = ARENA_LO;
        g_arena_on = true;
    }

    // size class: multiples of 16 up to 1024, then powers of two (and 1.5 x) above
    SIM_PLAIN inline int arena_class(std::size_t n, std::size_t& cap)
    {
        if (n <= 1024)
        {
            int c = static_cast<int>((n + 15) / 16);
            c     = c ? c : 1;
            cap   = static_cast<std::size_t>(c) * 16;
            return c - 1;
        }
        int k = 0;
        cap   = 1024;
        while (true)
        {
            if (n <= cap + cap / 2)
            {
                cap += cap / 2;
                return 64 + 2 * k;
            }
            if (n <= 2 * cap)
            {
                cap *= 2;
                return 64 + 2 * k + 1;
            }
            cap *= 2;
            ++k;
        }
    }

    // block layout: 64 bytes of header (so that every alignment up to 64 works), payload
    SIM_PLAIN inline void* arena_get(std::size_t n)
    {
        std::size_t cap;
        int c = arena_class(n, cap);
        if (void* p = g_arena_free[c])
        {
            g_arena_free[c] = *static_cast<void**>(p);
            return p;
        }
        uintptr_t p = (g_arena_hp + 63) / 64 * 64 + 64;
        if (p + cap > ARENA_LO + ARENA_SZ)
        {
            return nullptr;
        }
        g_arena_hp = p + cap;
        reinterpret_cast<std::size_t*>(p)[-1] = n;
        reinterpret_cast<std::size_t*>(p)[-2] = static_cast<std::size_t>(c);
        return reinterpret_cast<void*>(p);
    }

    SIM_PLAIN inline void* sim_alloc(std::size_t n, std::size_t al)
    {
        if (g_alloc_armed && (!g_alloc_filter || g_alloc_filter(n)))
        {
            ++g_alloc_count;
            if (g_alloc_fail_at && g_alloc_count >= g_alloc_fail_at && g_alloc_count < g_alloc_fail_at + g_alloc_burst)
            {
                ++g_alloc_failed;
                throw std::bad_alloc();
            }
        }
        if (g_arena_on && al <= 64)
        {
            void* p = n < ARENA_SZ ? arena_get(n) : nullptr;
            if (!p)
            {
                throw std::bad_alloc();
            }
            reinterpret_cast<std::size_t*>(p)[-1] = n;
            std::memset(p, g_fill, n);
            return p;
        }
        void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
        if (!p)
        {
            throw std::bad_alloc();
        }
        return p;
    }

    SIM_PLAIN inline void sim_free(void* p)
    {
        if (!in_arena(p))
        {
            std::free(p);
            return;
        }
        // what was freed no longer holds its value
        std::memset(p, g_fill ^ 0x5a, reinterpret_cast<std::size_t*>(p)[-1]);
        std::size_t c          = reinterpret_cast<std::size_t*>(p)[-2];
        *static_cast<void**>(p) = g_arena_free[c];
        g_arena_free[c]         = p;
    }
}

SIM_PLAIN void* operator new(std::size_t n)
{
    return sim::sim_alloc(n, 0);
}

SIM_PLAIN void* operator new[](std::size_t n)
{
    return sim::sim_alloc(n, 0);
}

SIM_PLAIN void* operator new(std::size_t n, std::align_val_t a)
{
    return sim::sim_alloc(n, static_cast<std::size_t>(a));
}

SIM_PLAIN void* operator new[](std::size_t n, std::align_val_t a)
{
    return sim::sim_alloc(n, static_cast<std::size_t>(a));
}

SIM_PLAIN void operator delete(void* p) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete[](void* p) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete(void* p, std::size_t) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete[](void* p, std::size_t) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete(void* p, std::align_val_t) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete[](void* p, std::align_val_t) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete(void* p, std::size_t, std::align_val_t) noexcept
{
    sim::sim_free(p);
}

SIM_PLAIN void operator delete[](void* p, std::size_t, std::align_val_t) noexcept
{
    sim::sim_free(p);
}
