// Deterministic simulation core: one seed = one execution.
//  * two decision streams (W: workload, S: schedule and faults), recorded while running from a seed and
//    replayed verbatim from a file; a missing entry means 0 = "the simplest choice / no fault";
//  * cooperative fibers, a scheduler that takes every "who runs next / which message arrives next" decision;
//  * a violation ends the run at once and is reported with its class.
// Logging never draws from the streams and never reads a real clock.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

namespace __cxxabiv1
{
    struct __cxa_eh_globals;
    extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}

namespace sim
{
    inline bool g_arena_on = false; // allocations come from the arena of alloc.hpp (code under test), not from malloc (simulator)

    struct Rng
    {
        uint64_t s = 0;

        explicit Rng(uint64_t seed = 1)
            : s(seed)
        {
        }

        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }

        uint32_t below(uint32_t n)
        {
            return n <= 1 ? 0 : static_cast<uint32_t>((next() >> 11) % n);
        }

        double unit()
        {
            return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0);
        }
    };

    struct Result
    {
        int status = 0; // 0 ok, 1 violation, 2 crash, 3 internal error
        uint64_t hash = 0, sched_hash = 0, state_hash = 0;
        std::string cls, msg;
        std::map<std::string, uint64_t> counters;
        std::vector<uint32_t> w, s;
        std::string sample;
    };

    struct World
    {
        bool replay = false;
        Rng rw, rs, rp;
        std::vector<uint32_t> w, s;
        std::size_t wi = 0, si = 0;
        uint64_t hash = 1469598103934665603ull, sched_hash = 1469598103934665603ull, state_hash = 1469598103934665603ull;
        std::map<std::string, uint64_t> counters;
        bool verbose     = false;
        int log_left     = 4000;
        int out_fd       = -1;
        std::string prop = "";
        std::string sample;
        std::string phase = "start";
        uint64_t sim_time = 0; // simulated nanoseconds
    };

    inline World& W()
    {
        static World w;
        return w;
    }

    inline void mix(uint64_t& h, uint64_t v)
    {
        for (int k = 0; k < 8; ++k)
        {
            h ^= (v >> (8 * k)) & 0xff;
            h *= 1099511628211ull;
        }
    }

    inline void log_event(int who, const char* what, uint64_t a = 0, uint64_t b = 0)
    {
        auto& w    = W();
        uint64_t h = 0;
        for (const char* p = what; *p; ++p)
        {
            h = h * 131 + static_cast<unsigned char>(*p);
        }
        mix(w.hash, static_cast<uint64_t>(who));
        mix(w.hash, h);
        mix(w.hash, a);
        mix(w.hash, b);
        mix(w.sched_hash, (static_cast<uint64_t>(who) << 32) ^ (h & 0xffffffffu));
        if (w.verbose && w.log_left-- > 0)
        {
            std::fprintf(stderr, "[ev] t=%lluns who=%d %s %llu %llu\n", (unsigned long long)w.sim_time, who, what, (unsigned long long)a, (unsigned long long)b);
        }
    }

    // a fingerprint of the system state that a run reached (only for the coverage measure and determinism gate)
    inline void log_state(uint64_t v)
    {
        mix(W().state_hash, v);
        mix(W().hash, v);
    }

    inline void count(const std::string& k, uint64_t n = 1)
    {
        W().counters[k] += n;
    }

    // the run exercised what property `prop` speaks about (coverage measure)
    inline void nontrivial(const std::string& prop)
    {
        W().counters["nontrivial:" + prop] = 1;
    }

    // ---- decisions -------------------------------------------------------------------------------
    inline uint32_t record_s(uint32_t n, uint32_t fresh)
    {
        auto& w = W();
        uint32_t v;
        if (w.replay)
        {
            v = w.si < w.s.size() ? w.s[w.si] % (n ? n : 1) : 0;
            ++w.si;
        }
        else
        {
            v = fresh;
            w.s.push_back(v);
        }
        return v;
    }

    inline uint32_t choose_s(uint32_t n)
    {
        if (n <= 1)
        {
            return 0;
        }
        return record_s(n, W().replay ? 0 : W().rs.below(n));
    }

    inline bool fault(const char* kind, double p)
    {
        if (p <= 0)
        {
            return false;
        }
        bool f = record_s(2, W().replay ? 0 : (W().rs.unit() < p ? 1u : 0u)) != 0;
        if (f)
        {
            count(std::string("fault:") + kind);
        }
        return f;
    }

    inline uint32_t choose_w(uint32_t n)
    {
        auto& w = W();
        if (n <= 1)
        {
            return 0;
        }
        uint32_t v;
        if (w.replay)
        {
            v = w.wi < w.w.size() ? w.w[w.wi] % n : 0;
            ++w.wi;
        }
        else
        {
            v = w.rw.below(n);
            w.w.push_back(v);
        }
        mix(w.hash, v + 77);
        return v;
    }

    inline int range_w(int lo, int hi) // inclusive
    {
        return lo + static_cast<int>(choose_w(static_cast<uint32_t>(hi - lo + 1)));
    }

    // ---- reporting -------------------------------------------------------------------------------
    inline void put(std::string& o, const std::string& s)
    {
        uint32_t n = static_cast<uint32_t>(s.size());
        o.append(reinterpret_cast<char*>(&n), 4);
        o += s;
    }

    inline void putv(std::string& o, const std::vector<uint32_t>& v)
    {
        uint32_t n = static_cast<uint32_t>(v.size());
        o.append(reinterpret_cast<char*>(&n), 4);
        o.append(reinterpret_cast<const char*>(v.data()), 4 * v.size());
    }

    inline void send_all(int fd, const std::string& o)
    {
        std::size_t k = 0;
        while (k < o.size())
        {
            ssize_t r = ::write(fd, o.data() + k, o.size() - k);
            if (r <= 0)
            {
                break;
            }
            k += static_cast<std::size_t>(r);
        }
    }

    [[noreturn]] inline void finish(int status, const std::string& cls, const std::string& msg)
    {
        auto& w = W();
        std::string o;
        uint64_t head[4] = {static_cast<uint64_t>(status), w.hash, w.sched_hash, w.state_hash};
        o.append(reinterpret_cast<char*>(head), sizeof head);
        put(o, cls);
        put(o, msg);
        uint32_t n = static_cast<uint32_t>(w.counters.size());
        o.append(reinterpret_cast<char*>(&n), 4);
        for (auto& [k, v] : w.counters)
        {
            put(o, k);
            o.append(reinterpret_cast<const char*>(&v), 8);
        }
        putv(o, w.w);
        if (status)
        {
            putv(o, w.s);
        }
        else
        {
            putv(o, {});
        }
        put(o, w.sample);
        send_all(w.out_fd, o);
        ::_exit(status ? 10 : 0);
    }

    // A property violation seen by an oracle.  `prop` is the property it belongs to; the run only reports it when
    // this is the property under check (or when prop is "*": a crash-like failure of the code under test).
    inline bool relevant(const std::string& prop)
    {
        if (prop == "*" || W().prop.empty() || W().prop == "*")
        {
            return true;
        }
        // prop may be a comma separated list
        std::stringstream ss(prop);
        std::string p;
        while (std::getline(ss, p, ','))
        {
            if (p == W().prop)
            {
                return true;
            }
        }
        return false;
    }

    inline void violation(const std::string& prop, const std::string& cls, const std::string& msg)
    {
        if (!relevant(prop))
        {
            count("other_property_violation:" + prop + ":" + cls);
            return;
        }
        finish(1, cls, "[" + W().phase + "] " + msg);
    }

    // ---- fibers ----------------------------------------------------------------------------------
    struct Fiber
    {
        int id = 0;
        ucontext_t ctx;
        void* stack         = nullptr;
        std::size_t stacksz = 0;
        enum St
        {
            runnable,
            blocked,
            done
        } st = runnable;
        std::function<bool()> ready;
        const char* why = "";
        std::function<void()> body;
        void* eh[2] = {nullptr, nullptr};
        uint64_t clock_skew = 0;
        int starve          = 0;
    };

    struct Sched
    {
        std::vector<std::unique_ptr<Fiber>> fibers;
        int cur = -1;
        ucontext_t main_ctx;
        uint64_t steps = 0, max_steps = 2000000;
        // environment events (message deliveries): list of (label, action) offered to the scheduler
        std::function<void(std::vector<std::function<void()>>&)> env_events;
        std::function<void(int)> switch_in, switch_out;
        std::function<void()> on_deadlock;
        // schedule policy of this run
        int policy  = 0;
        int victim  = -1;
        double p_preempt = 0.2;
        std::vector<uint32_t> prio;
        bool active = false;
    };

    inline Sched*& S()
    {
        static Sched* s = nullptr;
        return s;
    }

    inline int self()
    {
        return (S() && S()->active) ? S()->cur : -1;
    }

    inline void fiber_main(uint32_t lo, uint32_t hi)
    {
        Fiber* f = reinterpret_cast<Fiber*>((static_cast<uint64_t>(hi) << 32) | lo);
        try
        {
            f->body();
        }
        catch (std::exception& e)
        {
            violation("*", "uncaught-exception", std::string("rank/thread ") + std::to_string(f->id) + ": " + e.what());
            finish(1, "uncaught-exception", e.what());
        }
        catch (...)
        {
            finish(1, "uncaught-exception", "unknown exception");
        }
        f->st = Fiber::done;
        Sched* s = S();
        swapcontext(&f->ctx, &s->main_ctx);
        std::abort();
    }

    inline void to_scheduler()
    {
        Sched* s = S();
        Fiber* f = s->fibers[static_cast<std::size_t>(s->cur)].get();
        swapcontext(&f->ctx, &s->main_ctx);
    }

    // preemption point
    inline void yield()
    {
        if (self() >= 0)
        {
            to_scheduler();
        }
    }

    inline void block_until(std::function<bool()> pred, const char* why)
    {
        if (self() < 0)
        {
            if (!pred())
            {
                finish(3, "internal", std::string("blocking outside a fiber: ") + why);
            }
            return;
        }
        Sched* s = S();
        Fiber* f = s->fibers[static_cast<std::size_t>(s->cur)].get();
        f->ready = std::move(pred);
        f->why   = why;
        f->st    = Fiber::blocked;
        to_scheduler();
        f->ready = nullptr;
    }

    inline uint32_t pick(Sched& s, const std::vector<int>& cand)
    {
        // cand: fiber ids first (current one first if runnable), then -1 entries for environment events
        uint32_t n = static_cast<uint32_t>(cand.size());
        if (n <= 1)
        {
            return 0;
        }
        if (W().replay)
        {
            return record_s(n, 0);
        }
        Rng& r     = W().rs;
        uint32_t k = 0;
        switch (s.policy)
        {
            case 0: // uniform
                k = r.below(n);
                break;
            case 1: // sticky: keep running, preempt rarely
                k = r.unit() < s.p_preempt ? r.below(n) : 0;
                break;
            case 2: // starve one fiber: only picked when nothing else can run (or with small probability)
            {
                std::vector<uint32_t> ok;
                for (uint32_t i = 0; i < n; ++i)
                {
                    if (cand[i] != s.victim)
                    {
                        ok.push_back(i);
                    }
                }
                k = (ok.empty() || r.unit() < 0.01) ? r.below(n) : ok[r.below(static_cast<uint32_t>(ok.size()))];
                break;
            }
            case 3: // delay the network: deliveries last
            {
                std::vector<uint32_t> ok;
                for (uint32_t i = 0; i < n; ++i)
                {
                    if (cand[i] >= 0)
                    {
                        ok.push_back(i);
                    }
                }
                k = (ok.empty() || r.unit() < 0.02) ? r.below(n) : ok[r.below(static_cast<uint32_t>(ok.size()))];
                break;
            }
            case 4: // eager network: deliveries first
            {
                std::vector<uint32_t> ok;
                for (uint32_t i = 0; i < n; ++i)
                {
                    if (cand[i] < 0)
                    {
                        ok.push_back(i);
                    }
                }
                k = (ok.empty() || r.unit() < 0.05) ? r.below(n) : ok[r.below(static_cast<uint32_t>(ok.size()))];
                break;
            }
            default: // priorities with random change points
            {
                if (r.unit() < 0.02)
                {
                    for (auto& p : s.prio)
                    {
                        p = static_cast<uint32_t>(r.next() >> 40);
                    }
                }
                uint32_t best = 0;
                bool first    = true;
                for (uint32_t i = 0; i < n; ++i)
                {
                    uint32_t p = cand[i] >= 0 ? s.prio[static_cast<std::size_t>(cand[i])] : static_cast<uint32_t>(r.next() >> 40);
                    if (first || p > best)
                    {
                        best  = p;
                        k     = i;
                        first = false;
                    }
                }
            }
        }
        return record_s(n, k);
    }

    inline void draw_policy(Sched& s, int nf)
    {
        // drawn from a side generator: only the resulting choices are part of the trace
        Rng& r      = W().rp;
        s.policy    = static_cast<int>(r.below(6));
        if (!s.env_events)
        {
            static const int plain[] = {0, 1, 2, 5, 5, 1}; // no network to delay
            s.policy                 = plain[s.policy];
        }
        s.victim    = static_cast<int>(r.below(static_cast<uint32_t>(nf)));
        s.p_preempt = 0.02 + 0.4 * r.unit();
        s.prio.clear();
        for (int i = 0; i < nf; ++i)
        {
            s.prio.push_back(static_cast<uint32_t>(r.next() >> 40));
        }
        if (nf > 1)
        {
            static const char* nm[] = {"schedule_uniform", "schedule_sticky", "fault:stalled_party", "fault:delayed_delivery", "schedule_eager_delivery", "schedule_priorities"};
            count(nm[s.policy]);
        }
    }

    inline unsigned char g_fill          = 0; // contents of fresh memory
    inline std::size_t g_stack_fill      = 0; // how much of a fresh stack to fill with it

    inline std::vector<void*>& stack_pool()
    {
        static std::vector<void*> p;
        return p;
    }

    inline void run_fibers(Sched& s)
    {
        Sched* prev      = S();
        S()              = &s;
        const bool arena = g_arena_on;
        g_arena_on       = false;
        s.active    = true;
        draw_policy(s, static_cast<int>(s.fibers.size()));
        for (auto& f : s.fibers)
        {
            f->stacksz = 8u << 20;
            if (stack_pool().empty())
            {
                f->stack = mmap(nullptr, f->stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            }
            else
            {
                f->stack = stack_pool().back();
                stack_pool().pop_back();
            }
            getcontext(&f->ctx);
            if (g_stack_fill)
            {
                std::memset(static_cast<char*>(f->stack) + f->stacksz - g_stack_fill, g_fill, g_stack_fill);
            }
            f->ctx.uc_stack.ss_sp   = f->stack;
            f->ctx.uc_stack.ss_size = f->stacksz;
            f->ctx.uc_link          = nullptr;
            uint64_t p              = reinterpret_cast<uint64_t>(f.get());
            makecontext(&f->ctx, reinterpret_cast<void (*)()>(fiber_main), 2, static_cast<uint32_t>(p), static_cast<uint32_t>(p >> 32));
        }
        int last = 0;
        std::vector<int> cand;
        std::vector<std::function<void()>> env;
        while (true)
        {
            cand.clear();
            env.clear();
            bool all_done = true;
            auto add      = [&](int i)
            {
                Fiber& f = *s.fibers[static_cast<std::size_t>(i)];
                if (f.st == Fiber::done)
                {
                    return;
                }
                all_done = false;
                if (f.st == Fiber::blocked && f.ready())
                {
                    f.st = Fiber::runnable;
                }
                if (f.st == Fiber::runnable)
                {
                    cand.push_back(i);
                }
            };
            add(last);
            for (int i = 0; i < static_cast<int>(s.fibers.size()); ++i)
            {
                if (i != last)
                {
                    add(i);
                }
            }
            if (s.env_events)
            {
                s.env_events(env);
            }
            if (all_done)
            {
                break;
            }
            std::size_t nf = cand.size();
            for (std::size_t i = 0; i < env.size(); ++i)
            {
                cand.push_back(-1);
            }
            if (cand.empty())
            {
                std::string m = "deadlock:";
                for (auto& f : s.fibers)
                {
                    if (f->st != Fiber::done)
                    {
                        m += " [" + std::to_string(f->id) + " blocked in " + f->why + "]";
                    }
                    else
                    {
                        m += " [" + std::to_string(f->id) + " finished]";
                    }
                }
                if (s.on_deadlock)
                {
                    s.on_deadlock();
                }
                violation("*", "deadlock", m);
                finish(1, "deadlock", m);
            }
            if (++s.steps > s.max_steps)
            {
                finish(1, "livelock", "no termination within " + std::to_string(s.max_steps) + " simulated steps");
            }
            uint32_t k = pick(s, cand);
            W().sim_time += 100;
            if (k >= nf)
            {
                env[k - nf]();
                continue;
            }
            s.cur    = cand[k];
            last     = s.cur;
            Fiber& f = *s.fibers[static_cast<std::size_t>(s.cur)];
            if (s.switch_in)
            {
                s.switch_in(s.cur);
            }
            void** g = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
            void* g0 = g[0];
            void* g1 = g[1];
            g[0]     = f.eh[0];
            g[1]     = f.eh[1];
            g_arena_on = arena;
            swapcontext(&s.main_ctx, &f.ctx);
            g_arena_on = false;
            f.eh[0] = g[0];
            f.eh[1] = g[1];
            g[0]    = g0;
            g[1]    = g1;
            if (s.switch_out)
            {
                s.switch_out(s.cur);
            }
        }
        for (auto& f : s.fibers)
        {
            stack_pool().push_back(f->stack);
        }
        count("sim_steps", s.steps);
        s.active   = false;
        S()        = prev;
        g_arena_on = arena;
    }
} // namespace sim
