// OpenMP runtime on the deterministic scheduler.  The threads of a team are fibers; who runs, which queued task a
// thread takes, whether a task is deferred or run at once, and how many threads a team gets are decisions of the run.
// With -fsanitize=thread every memory access of the code under test calls one of the __tsan_* functions below (the real
// ThreadSanitizer library is not linked): they are the preemption points inside tasks.
#pragma once
#include "core.hpp"
#include <list>
#include <omp.h>

#define SIM_NOTSAN __attribute__((no_sanitize("thread")))

namespace simomp
{
    struct Task
    {
        void (*fn)(void*) = nullptr;
        void* data        = nullptr;
        void* mem         = nullptr;
        Task* parent      = nullptr;
        int children      = 0;
    };

    struct Loop
    {
        bool init = false;
        long next = 0, end = 0, incr = 1, chunk = 1;
        int left = 0;
    };

    struct Team
    {
        int n = 1;
        std::deque<Task*> queue;
        int outstanding = 0;
        int arrived     = 0;
        uint64_t gen    = 0;
        std::map<uint64_t, int> singles; // single construct number -> taken
        std::map<uint64_t, Loop> loops;
    };

    struct Thread
    {
        Team* team      = nullptr;
        int tid         = 0;
        Task implicit;
        Task* cur       = nullptr;
        uint64_t single = 0, loop = 0;
    };

    struct State
    {
        int max_threads      = 4;
        bool may_shrink      = false; // the runtime may give fewer threads than asked for
        double p_now         = 0.2;   // a task runs at once instead of being queued
        uint32_t gap         = 0;     // mean number of memory accesses between preemption points, 0: none
        bool hot_on          = false; // preempt at addresses that two threads touched without synchronisation in an earlier pass
        bool learn           = false;
        Thread* main_thread  = nullptr;
        std::vector<Thread*> th; // by fiber
        bool critical        = false;
        uint64_t regions = 0, tasks = 0, preempts = 0, conflicts = 0;
    };

    inline State g_state;

    SIM_NOTSAN inline State& G()
    {
        return g_state;
    }

    inline volatile bool g_hook     = false; // memory accesses are preemption points
    inline volatile int64_t g_count = 0;     // accesses until the next one

    // ---- conflict map: which addresses did two threads of a region touch, one of them writing ----------------
    constexpr std::size_t SH = 1u << 20;

    struct Cell
    {
        uint64_t a;
        uint32_t epoch;
        int8_t tid;
        uint8_t flags; // 1 written, 2 several threads
    };

    SIM_NOTSAN inline Cell* shadow()
    {
        static Cell* c = static_cast<Cell*>(mmap(nullptr, SH * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        return c;
    }

    SIM_NOTSAN inline uint64_t* hotset()
    {
        static uint64_t* c = static_cast<uint64_t*>(mmap(nullptr, SH * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        return c;
    }

    inline uint32_t g_epoch     = 1;
    inline std::size_t g_used   = 0;
    inline std::size_t g_hot    = 0;
    inline uint64_t g_stack_lo = 0, g_stack_hi = 0;

    SIM_NOTSAN inline std::size_t hs(uint64_t a)
    {
        return (a * 0x9E3779B97F4A7C15ull) >> 44;
    }

    SIM_NOTSAN inline bool is_hot(uint64_t a)
    {
        uint64_t* h = hotset();
        for (std::size_t i = hs(a), k = 0;; ++k)
        {
            uint64_t v = h[(i + k) & (SH - 1)];
            if (v == a)
            {
                return true;
            }
            if (!v)
            {
                return false;
            }
        }
    }

    SIM_NOTSAN inline void add_hot(uint64_t a)
    {
        uint64_t* h = hotset();
        for (std::size_t i = hs(a), k = 0;; ++k)
        {
            uint64_t& v = h[(i + k) & (SH - 1)];
            if (v == a)
            {
                return;
            }
            if (!v)
            {
                if (g_hot > SH / 2)
                {
                    return;
                }
                v = a;
                ++g_hot;
                return;
            }
        }
    }

    inline int g_tid = -1;

    SIM_NOTSAN inline int cur_tid()
    {
        return g_tid;
    }

    SIM_NOTSAN inline void note(uint64_t a, bool write)
    {
        Cell* s = shadow();
        for (std::size_t i = hs(a), k = 0;; ++k)
        {
            Cell& c = s[(i + k) & (SH - 1)];
            if (c.epoch != g_epoch)
            {
                if (g_used > SH / 2)
                {
                    return;
                }
                ++g_used;
                c.a     = a;
                c.epoch = g_epoch;
                c.tid   = static_cast<int8_t>(cur_tid());
                c.flags = write;
                return;
            }
            if (c.a == a)
            {
                c.flags |= static_cast<uint8_t>(write);
                if (c.tid != cur_tid())
                {
                    c.flags |= 2;
                }
                if (c.flags == 3)
                {
                    add_hot(a);
                }
                return;
            }
        }
    }

    SIM_NOTSAN inline void preempt();

    SIM_NOTSAN inline void access(uint64_t a, bool write)
    {
        if (!g_hook)
        {
            return;
        }
        g_hook         = false;
        bool own_stack = a >= g_stack_lo && a < g_stack_hi;
        bool go        = false;
        a &= ~7ull;
        if (!own_stack)
        {
            if (G().learn)
            {
                note(a, write);
            }
            if (G().hot_on && is_hot(a))
            {
                go = sim::record_s(2, sim::W().replay ? 0 : (sim::W().rs.unit() < 0.5 ? 1u : 0u)) != 0;
            }
        }
        if (go || (g_count > 0 && --g_count == 0))
        {
            preempt();
        }
        g_hook = true;
    }

    SIM_NOTSAN inline void draw_gap()
    {
        uint32_t g = 0;
        if (G().gap)
        {
            uint32_t n = 2 * G().gap;
            g          = sim::record_s(n, sim::W().replay ? 0 : 1 + sim::W().rs.below(n - 1));
        }
        g_count = g; // 0: no further preemption
    }

    inline Thread* me()
    {
        auto& g = G();
        int f   = sim::self();
        return f < 0 || static_cast<std::size_t>(f) >= g.th.size() ? g.main_thread : g.th[static_cast<std::size_t>(f)];
    }


    SIM_NOTSAN inline void preempt()
    {
        g_hook = false;
        ++G().preempts;
        sim::yield();
        draw_gap();
        g_hook = true;
    }

    inline void run_task(Thread* t, Task* k)
    {
        Task* before = t->cur;
        t->cur       = k;
        sim::log_event(t->tid, "task", 0);
        bool h = g_hook;
        g_hook = t->team->n > 1;
        k->fn(k->data);
        g_hook = false;
        t->cur = before;
        --k->parent->children;
        --t->team->outstanding;
        ::operator delete(k->mem);
        delete k;
        g_hook = h;
    }

    inline Task* take(Team& tm)
    {
        std::size_t i = sim::choose_s(static_cast<uint32_t>(tm.queue.size()));
        Task* k       = tm.queue[i];
        tm.queue.erase(tm.queue.begin() + static_cast<long>(i));
        return k;
    }

    inline void barrier()
    {
        Thread* t    = me();
        Team& tm     = *t->team;
        bool h       = g_hook;
        g_hook       = false;
        uint64_t gen = tm.gen;
        ++tm.arrived;
        while (tm.gen == gen)
        {
            if (!tm.queue.empty())
            {
                Task* k = take(tm);
                run_task(t, k);
                sim::yield();
                continue;
            }
            if (tm.arrived == tm.n && tm.outstanding == 0)
            {
                tm.arrived = 0;
                ++tm.gen;
                break;
            }
            sim::block_until(
                [&tm, gen]()
                {
                    return tm.gen != gen || !tm.queue.empty() || (tm.arrived == tm.n && tm.outstanding == 0);
                },
                "OpenMP barrier");
        }
        g_hook = h;
    }

    inline void parallel(void (*fn)(void*), void* data, unsigned num_threads)
    {
        auto& g = G();
        bool h  = g_hook;
        g_hook  = false;
        ++g.regions;
        if (sim::self() >= 0) // nested region: one thread
        {
            Team tm;
            Thread t;
            t.team         = &tm;
            t.cur          = &t.implicit;
            std::size_t id = static_cast<std::size_t>(sim::self());
            Thread* before = g.th[id];
            g.th[id]       = &t;
            g_hook         = h;
            fn(data);
            g_hook = false;
            barrier();
            g.th[id] = before;
            g_hook   = h;
            return;
        }
        Team tm;
        tm.n = num_threads ? static_cast<int>(num_threads) : g.max_threads;
        if (g.may_shrink && tm.n > 1)
        {
            int less = static_cast<int>(sim::choose_s(static_cast<uint32_t>(tm.n)));
            if (less)
            {
                sim::count("fault:fewer_threads");
            }
            tm.n -= less;
        }
        ++g_epoch;
        g_used = 0;
        if (g.max_threads > 1 && tm.n > 1)
        {
            draw_gap();
        }
        sim::Sched sc;
        std::vector<Thread> ths(static_cast<std::size_t>(tm.n));
        g.th.clear();
        for (int i = 0; i < tm.n; ++i)
        {
            Thread& t = ths[static_cast<std::size_t>(i)];
            t.team    = &tm;
            t.tid     = i;
            t.cur     = &t.implicit;
            g.th.push_back(&t);
            auto f  = std::make_unique<sim::Fiber>();
            f->id   = i;
            f->body = [&tm, fn, data]()
            {
                g_hook = tm.n > 1;
                fn(data);
                g_hook = false;
                barrier();
            };
            sc.fibers.push_back(std::move(f));
        }
        sc.switch_in = [&sc](int i)
        {
            auto& f    = *sc.fibers[static_cast<std::size_t>(i)];
            g_stack_lo = reinterpret_cast<uint64_t>(f.stack);
            g_stack_hi = g_stack_lo + f.stacksz;
            g_tid      = i;
        };
        sim::run_fibers(sc);
        if (!tm.queue.empty() || tm.outstanding)
        {
            sim::finish(3, "internal", "tasks left after a region");
        }
        g.th.clear();
        g_hook = h;
    }

    inline void reset(int n)
    {
        auto& g       = G();
        g.max_threads = n;
        static Team tm;
        static Thread t;
        t.team        = &tm;
        t.cur         = &t.implicit;
        g.main_thread = &t;
    }

    inline void lock(bool& held, const char* why)
    {
        bool h = g_hook;
        g_hook = false;
        sim::yield();
        sim::block_until(
            [&held]()
            {
                return !held;
            },
            why);
        held   = true;
        g_hook = h;
    }

    inline Loop* loop_start(long s, long e, long inc, long chunk)
    {
        Thread* t = me();
        Loop& l   = t->team->loops[t->loop++];
        if (!l.init)
        {
            l = {true, s, e, inc, chunk > 0 ? chunk : 1, t->team->n};
        }
        return &l;
    }

    inline bool loop_next(long* a, long* b)
    {
        Thread* t = me();
        bool h    = g_hook;
        g_hook    = false;
        sim::yield();
        Loop& l = t->team->loops[t->loop - 1];
        bool ok = l.incr > 0 ? l.next < l.end : l.next > l.end;
        if (ok)
        {
            *a     = l.next;
            long e = l.next + l.chunk * l.incr;
            *b     = l.incr > 0 ? std::min(e, l.end) : std::max(e, l.end);
            l.next = *b;
        }
        g_hook = h;
        return ok;
    }
} // namespace simomp

extern "C"
{
    SIM_NOTSAN void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
    {
        simomp::parallel(fn, data, n);
    }

    SIM_NOTSAN bool GOMP_single_start()
    {
        auto* t = simomp::me();
        return t->team->singles[t->single++]++ == 0;
    }

    SIM_NOTSAN void GOMP_barrier()
    {
        simomp::barrier();
    }

    SIM_NOTSAN void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned flags, void**, int, void*)
    {
        using namespace simomp;
        Thread* t = me();
        bool h    = g_hook;
        g_hook    = false;
        Task* k   = new Task;
        k->fn     = fn;
        k->mem    = ::operator new(static_cast<std::size_t>(size + align + 1));
        char* p   = reinterpret_cast<char*>((reinterpret_cast<uint64_t>(k->mem) + static_cast<uint64_t>(align) - 1) / static_cast<uint64_t>(align) * static_cast<uint64_t>(align));
        if (cpy)
        {
            cpy(p, data);
        }
        else
        {
            std::memcpy(p, data, static_cast<std::size_t>(size));
        }
        k->data   = p;
        k->parent = t->cur;
        ++t->cur->children;
        ++t->team->outstanding;
        ++G().tasks;
        bool now = !if_clause || (flags & 2) || t->team->n == 1 || sim::record_s(2, sim::W().replay ? 0 : (sim::W().rs.unit() < G().p_now ? 1u : 0u));
        if (now)
        {
            run_task(t, k);
        }
        else
        {
            t->team->queue.push_back(k);
            sim::yield();
        }
        g_hook = h;
    }

    SIM_NOTSAN void GOMP_taskwait()
    {
        using namespace simomp;
        Thread* t = me();
        bool h    = g_hook;
        g_hook    = false;
        Task* c   = t->cur;
        while (c->children)
        {
            // a waiting thread may run children of the waiting task
            std::vector<std::size_t> mine;
            for (std::size_t i = 0; i < t->team->queue.size(); ++i)
            {
                if (t->team->queue[i]->parent == c)
                {
                    mine.push_back(i);
                }
            }
            if (!mine.empty())
            {
                std::size_t i = mine[sim::choose_s(static_cast<uint32_t>(mine.size()))];
                Task* k       = t->team->queue[i];
                t->team->queue.erase(t->team->queue.begin() + static_cast<long>(i));
                run_task(t, k);
            }
            else
            {
                sim::block_until(
                    [c]()
                    {
                        return c->children == 0;
                    },
                    "taskwait");
            }
        }
        g_hook = h;
    }

    SIM_NOTSAN void GOMP_taskgroup_start()
    {
    }

    SIM_NOTSAN void GOMP_taskgroup_end()
    {
        GOMP_taskwait();
    }

    SIM_NOTSAN void GOMP_taskyield()
    {
        bool h         = simomp::g_hook;
        simomp::g_hook = false;
        sim::yield();
        simomp::g_hook = h;
    }

    static bool sim_crit, sim_atom;

    SIM_NOTSAN void GOMP_critical_start()
    {
        simomp::lock(sim_crit, "critical section");
    }

    SIM_NOTSAN void GOMP_critical_end()
    {
        sim_crit = false;
    }

    SIM_NOTSAN void GOMP_critical_name_start(void** p)
    {
        simomp::lock(*reinterpret_cast<bool*>(p), "named critical section");
    }

    SIM_NOTSAN void GOMP_critical_name_end(void** p)
    {
        *reinterpret_cast<bool*>(p) = false;
    }

    SIM_NOTSAN void GOMP_atomic_start()
    {
        simomp::lock(sim_atom, "atomic");
    }

    SIM_NOTSAN void GOMP_atomic_end()
    {
        sim_atom = false;
    }

#define SIM_LOOP(NAME)                                                                    \
    SIM_NOTSAN bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) \
    {                                                                                     \
        simomp::loop_start(s, e, i, c);                                                   \
        return simomp::loop_next(a, b);                                                   \
    }                                                                                     \
    SIM_NOTSAN bool GOMP_loop_##NAME##_next(long* a, long* b)                             \
    {                                                                                     \
        return simomp::loop_next(a, b);                                                   \
    }                                                                                     \
    SIM_NOTSAN bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) \
    {                                                                                     \
        (void)up;                                                                         \
        simomp::loop_start((long)s, (long)e, (long)i, (long)c);                           \
        return simomp::loop_next((long*)a, (long*)b);                                     \
    }                                                                                     \
    SIM_NOTSAN bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) \
    {                                                                                     \
        return simomp::loop_next((long*)a, (long*)b);                                     \
    }
    SIM_LOOP(dynamic)
    SIM_LOOP(guided)
    SIM_LOOP(nonmonotonic_dynamic)
    SIM_LOOP(nonmonotonic_guided)
#undef SIM_LOOP
#define SIM_PLOOP(NAME)                                                                                                        \
    SIM_NOTSAN void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
    {                                                                                                                          \
        struct A                                                                                                               \
        {                                                                                                                      \
            void (*fn)(void*);                                                                                                 \
            void* d;                                                                                                           \
            long s, e, i, c;                                                                                                   \
        } x{fn, d, s, e, i, c};                                                                                                \
        simomp::parallel(                                                                                                      \
            [](void* p)                                                                                                        \
            {                                                                                                                  \
                A* q = static_cast<A*>(p);                                                                                     \
                simomp::loop_start(q->s, q->e, q->i, q->c);                                                                    \
                q->fn(q->d);                                                                                                   \
            },                                                                                                                 \
            &x,                                                                                                                \
            n);                                                                                                                \
    }
    SIM_PLOOP(dynamic)
    SIM_PLOOP(guided)
    SIM_PLOOP(nonmonotonic_dynamic)
    SIM_PLOOP(nonmonotonic_guided)
#undef SIM_PLOOP

    SIM_NOTSAN void GOMP_loop_end()
    {
        simomp::barrier();
    }

    SIM_NOTSAN void GOMP_loop_end_nowait()
    {
    }

    SIM_NOTSAN int omp_get_num_threads() noexcept
    {
        return simomp::me()->team->n;
    }

    SIM_NOTSAN int omp_get_thread_num() noexcept
    {
        return simomp::me()->tid;
    }

    SIM_NOTSAN int omp_get_max_threads() noexcept
    {
        return simomp::G().max_threads;
    }

    SIM_NOTSAN void omp_set_num_threads(int n) noexcept
    {
        simomp::G().max_threads = n;
    }

    SIM_NOTSAN int omp_get_num_procs() noexcept
    {
        return simomp::G().max_threads;
    }

    SIM_NOTSAN int omp_in_parallel() noexcept
    {
        return simomp::me()->team->n > 1;
    }

    SIM_NOTSAN int omp_get_level() noexcept
    {
        return sim::self() >= 0;
    }

    SIM_NOTSAN double omp_get_wtime() noexcept
    {
        return sim::W().sim_time * 1e-9;
    }

    typedef struct
    {
        bool held;
    } sim_lock_t;

    SIM_NOTSAN void omp_init_lock(omp_lock_t* l) noexcept
    {
        reinterpret_cast<sim_lock_t*>(l)->held = false;
    }

    SIM_NOTSAN void omp_destroy_lock(omp_lock_t*) noexcept
    {
    }

    SIM_NOTSAN void omp_set_lock(omp_lock_t* l) noexcept
    {
        simomp::lock(reinterpret_cast<sim_lock_t*>(l)->held, "lock");
    }

    SIM_NOTSAN void omp_unset_lock(omp_lock_t* l) noexcept
    {
        reinterpret_cast<sim_lock_t*>(l)->held = false;
    }

    SIM_NOTSAN int omp_test_lock(omp_lock_t* l) noexcept
    {
        auto* k = reinterpret_cast<sim_lock_t*>(l);
        if (k->held)
        {
            return 0;
        }
        k->held = true;
        return 1;
    }

    // ---- instrumentation entry points ------------------------------------------------------------------------
    SIM_NOTSAN void __tsan_init()
    {
    }

    SIM_NOTSAN void __tsan_func_entry(void*)
    {
    }

    SIM_NOTSAN void __tsan_func_exit()
    {
    }

#define SIM_ACC(N)                                  \
    SIM_NOTSAN void __tsan_read##N(void* a)         \
    {                                               \
        simomp::access((uint64_t)a, false);         \
    }                                               \
    SIM_NOTSAN void __tsan_write##N(void* a)        \
    {                                               \
        simomp::access((uint64_t)a, true);          \
    }                                               \
    SIM_NOTSAN void __tsan_unaligned_read##N(void* a)  \
    {                                               \
        simomp::access((uint64_t)a, false);         \
    }                                               \
    SIM_NOTSAN void __tsan_unaligned_write##N(void* a) \
    {                                               \
        simomp::access((uint64_t)a, true);          \
    }                                               \
    SIM_NOTSAN void __tsan_volatile_read##N(void* a)  \
    {                                               \
        simomp::access((uint64_t)a, false);         \
    }                                               \
    SIM_NOTSAN void __tsan_volatile_write##N(void* a) \
    {                                               \
        simomp::access((uint64_t)a, true);          \
    }
    SIM_ACC(1)
    SIM_ACC(2)
    SIM_ACC(4)
    SIM_ACC(8)
    SIM_ACC(16)
#undef SIM_ACC

    SIM_NOTSAN void __tsan_read_range(void* a, unsigned long n)
    {
        for (unsigned long k = 0; k < n; k += 8)
        {
            simomp::access((uint64_t)a + k, false);
        }
    }

    SIM_NOTSAN void __tsan_write_range(void* a, unsigned long n)
    {
        for (unsigned long k = 0; k < n; k += 8)
        {
            simomp::access((uint64_t)a + k, true);
        }
    }

    SIM_NOTSAN void __tsan_vptr_update(void** a, void*)
    {
        simomp::access((uint64_t)a, true);
    }

    SIM_NOTSAN void __tsan_vptr_read(void** a)
    {
        simomp::access((uint64_t)a, false);
    }

    SIM_NOTSAN static inline void sim_atomic_point()
    {
        if (simomp::g_hook && simomp::g_count > 0)
        {
            if ((simomp::g_count -= 4) <= 0)
            {
                simomp::preempt();
            }
        }
    }

#define SIM_AT(N, T)                                                                                  \
    SIM_NOTSAN T __tsan_atomic##N##_load(const volatile T* a, int)                                    \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        return *a;                                                                                    \
    }                                                                                                 \
    SIM_NOTSAN void __tsan_atomic##N##_store(volatile T* a, T v, int)                                 \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        *a = v;                                                                                       \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_exchange(volatile T* a, T v, int)                                 \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        *a  = v;                                                                                      \
        return o;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int)                                \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        *a  = (T)(o + v);                                                                             \
        return o;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int)                                \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        *a  = (T)(o - v);                                                                             \
        return o;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int)                                 \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        *a  = (T)(o | v);                                                                             \
        return o;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int)                                \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        *a  = (T)(o & v);                                                                             \
        return o;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)     \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        if (*a == *c)                                                                                 \
        {                                                                                             \
            *a = v;                                                                                   \
            return 1;                                                                                 \
        }                                                                                             \
        *c = *a;                                                                                      \
        return 0;                                                                                     \
    }                                                                                                 \
    SIM_NOTSAN int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y)   \
    {                                                                                                 \
        return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y);                             \
    }                                                                                                 \
    SIM_NOTSAN T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int)           \
    {                                                                                                 \
        sim_atomic_point();                                                                           \
        T o = *a;                                                                                     \
        if (o == c)                                                                                   \
        {                                                                                             \
            *a = v;                                                                                   \
        }                                                                                             \
        return o;                                                                                     \
    }
    SIM_AT(8, unsigned char)
    SIM_AT(16, unsigned short)
    SIM_AT(32, unsigned int)
    SIM_AT(64, unsigned long)
#undef SIM_AT

    SIM_NOTSAN void __tsan_atomic_thread_fence(int)
    {
    }

    SIM_NOTSAN void __tsan_atomic_signal_fence(int)
    {
    }
}
