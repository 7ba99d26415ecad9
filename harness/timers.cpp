// Timers under simulated clocks. Build plain (one process, chrono clocks) or with -DSAMURAI_WITH_MPI (several processes).
#include "main.hpp"
#include "model.hpp"
#ifdef SAMURAI_WITH_MPI
#include <boost/mpi.hpp>
#endif
#include <algorithm>
#include <cmath>
#include <dlfcn.h>
#include <iostream>
#include <regex>
#include <sstream>
#include <samurai/timers.hpp>
#include <sys/time.h>
#include <time.h>

static bool g_clock      = false; // simulated clocks on
static int64_t g_mono    = 0;     // ns since boot
static int64_t g_wall    = 0;     // offset of the wall clock, moved by jumps

extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
    static auto real = reinterpret_cast<int (*)(clockid_t, timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
    if (!g_clock)
    {
        return real(id, t);
    }
    int64_t v  = g_mono + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? g_wall : 0);
    t->tv_sec  = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}

extern "C" int gettimeofday(timeval* t, void*) noexcept
{
    timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec  = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}

static std::vector<double> numbers(const std::string& line)
{
    static const std::regex re("[-+]?[0-9]+(\\.[0-9]+)?(e[-+]?[0-9]+)?|-?nan|-?inf");
    std::vector<double> o;
    for (std::sregex_iterator it(line.begin(), line.end(), re), end; it != end; ++it)
    {
        o.push_back(std::strtod(it->str().c_str(), nullptr));
    }
    return o;
}

static const char* all_names[] = {"ghost update", "mesh adaptation", "data saving", "field expressions", "total runtime"};

#ifdef SAMURAI_WITH_MPI
static void body()
{
    int ranks   = 1 + static_cast<int>(sim::choose_w(6));
    int ntimers = 1 + static_cast<int>(sim::choose_w(5));
    int nops    = 2 + static_cast<int>(sim::choose_w(20));
    std::vector<std::pair<int, int>> ops; // timer, rank that is slow
    for (int i = 0; i < nops; ++i)
    {
        ops.emplace_back(i < ntimers ? i : static_cast<int>(sim::choose_w(static_cast<uint32_t>(ntimers))), static_cast<int>(sim::choose_w(static_cast<uint32_t>(ranks + 1))));
    }
    sim::W().sample = "ranks " + std::to_string(ranks) + " timers " + std::to_string(ntimers) + " uses " + std::to_string(nops);
    std::vector<char> instant(5); // timers around work too short for the clock
    for (auto& x : instant)
    {
        x = sim::choose_w(5) == 4;
    }
    simmpi::Net net(ranks);
    simmpi::net() = &net;
    for (int r = 0; r < ranks; ++r)
    {
        net.skew[static_cast<std::size_t>(r)] = (static_cast<int>(sim::choose_w(2001)) - 1000) * 1.7;
        sim::count("fault:clock_skew");
    }
    sim::Sched sc;
    sc.env_events = simmpi::env_events;
    std::vector<std::vector<double>> truth(static_cast<std::size_t>(ranks), std::vector<double>(5, 0.));
    std::vector<int> calls(5, 0);
    for (auto& o : ops)
    {
        calls[static_cast<std::size_t>(o.first)]++;
    }
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    std::vector<samurai::Timers> tm(static_cast<std::size_t>(ranks));
    for (int r = 0; r < ranks; ++r)
    {
        auto f  = std::make_unique<sim::Fiber>();
        f->id   = r;
        f->body = [&, r]()
        {
            auto& T  = tm[static_cast<std::size_t>(r)];
            auto& me = truth[static_cast<std::size_t>(r)];
            for (auto& [t, slow] : ops)
            {
                T.start(all_names[t]);
                double a = MPI_Wtime();
                if (slow == r && !instant[static_cast<std::size_t>(t)])
                {
                    sim::W().sim_time += 1000000ull * (1 + sim::choose_s(2000)); // up to two seconds
                }
                if (!instant[static_cast<std::size_t>(t)])
                {
                    sim::yield();
                }
                T.stop(all_names[t]);
                me[static_cast<std::size_t>(t)] += MPI_Wtime() - a;
                double got = T.getElapsedTime(all_names[t]);
                if (!(std::abs(got - me[static_cast<std::size_t>(t)]) < 1e-9 * (1 + 1e4)))
                {
                    sim::violation("C12", "elapsed", std::string("timer ") + all_names[t] + " of process " + std::to_string(r) + " says " + std::to_string(got) + " s, " + std::to_string(me[static_cast<std::size_t>(t)]) + " s passed");
                }
            }
            T.print();
        };
        sc.fibers.push_back(std::move(f));
    }
    sim::run_fibers(sc);
    simmpi::final_check();
    std::cout.rdbuf(old);
    std::istringstream is(out.str());
    std::string line;
    std::map<std::string, std::vector<double>> rows;
    while (std::getline(is, line))
    {
        for (auto* n : all_names)
        {
            auto at = line.find(n);
            if (at != std::string::npos)
            {
                if (!rows.emplace(n, numbers(line.substr(at + std::strlen(n)))).second)
                {
                    sim::violation("C12", "report", std::string("timer ") + n + " is reported twice");
                }
            }
        }
    }
    for (int t = 0; t < 5; ++t)
    {
        if (!calls[static_cast<std::size_t>(t)])
        {
            continue;
        }
        auto it = rows.find(all_names[t]);
        if (it == rows.end() || it->second.size() != 7)
        {
            sim::violation("C12", "report", std::string("timer ") + all_names[t] + " is not reported");
            continue;
        }
        double mn = 1e300, mx = -1e300, av = 0, sd = 0;
        for (auto& x : truth)
        {
            mn = std::min(mn, x[static_cast<std::size_t>(t)]);
            mx = std::max(mx, x[static_cast<std::size_t>(t)]);
            av += x[static_cast<std::size_t>(t)] / ranks;
        }
        for (auto& x : truth)
        {
            double z = x[static_cast<std::size_t>(t)] - av;
            sd += z * z / ranks;
        }
        sd          = std::sqrt(sd);
        auto& v     = it->second;
        double tol  = 2e-5 + 1e-9 * mx;
        auto at     = [&](double rk) { return rk >= 0 && rk < ranks ? truth[static_cast<std::size_t>(rk)][static_cast<std::size_t>(t)] : 1e300; };
        auto expect = [&](const char* what, double got, double want)
        {
            if (!(std::abs(got - want) <= tol))
            {
                char z[200];
                std::snprintf(z, sizeof z, "%s of timer %s over %d processes is reported as %.6g, it is %.6g", what, all_names[t], ranks, got, want);
                sim::violation("C12", "report", z);
            }
        };
        expect("minimum", v[0], mn);
        expect("time of the process reported as the fastest", at(v[1]), mn);
        expect("maximum", v[2], mx);
        expect("time of the process reported as the slowest", at(v[3]), mx);
        expect("average", v[4], av);
        expect("standard deviation", v[5], sd);
        expect("number of calls", v[6], calls[static_cast<std::size_t>(t)]);
        sim::count("timer_rows_checked");
        sim::nontrivial("C12");
    }
}
#else
static void body()
{
    int ntimers = 1 + static_cast<int>(sim::choose_w(5));
    int nops    = 2 + static_cast<int>(sim::choose_w(20));
    sim::W().sample = "timers " + std::to_string(ntimers) + " uses " + std::to_string(nops);
    g_mono          = 1000000000ll * (1 + sim::choose_w(100000));
    g_wall          = 1700000000000000000ll;
    samurai::Timers T;
    std::map<std::string, int64_t> truth, uses;
    std::set<std::string> running;
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    g_clock   = true;
    sim::Sched sc;
    auto f  = std::make_unique<sim::Fiber>();
    f->id   = 0;
    f->body = [&]()
    {
        auto pass = [&]()
        {
            // time passes, and the wall clock may be set meanwhile
            int64_t d = 1000ll * (1 + sim::choose_s(3000000)); // up to 3 s
            if (sim::choose_s(40) == 0)
            {
                d *= 5000; // a stalled process
                sim::count("fault:stall");
            }
            g_mono += d;
            sim::count("sim_ns", static_cast<uint64_t>(d));
            if (sim::fault("clock_jump", 0.25))
            {
                g_wall += 1000000ll * (static_cast<int64_t>(sim::choose_s(20000000)) - 10000000);
            }
            for (auto& n : running)
            {
                truth[n] += d;
            }
        };
        // nested uses of different timers, as the library nests its own
        std::vector<std::string> stack;
        for (int i = 0; i < nops || !stack.empty(); ++i)
        {
            bool open = i < nops && (stack.empty() || sim::choose_w(2)) && stack.size() < static_cast<std::size_t>(ntimers);
            if (open)
            {
                std::string n = all_names[sim::choose_w(static_cast<uint32_t>(ntimers))];
                if (running.count(n))
                {
                    pass();
                    continue;
                }
                T.start(n);
                running.insert(n);
                stack.push_back(n);
                pass();
            }
            else
            {
                std::string n = stack.back();
                stack.pop_back();
                T.stop(n);
                running.erase(n);
                uses[n]++;
                double got = std::chrono::duration<double>(T.getElapsedTime(n)).count(), want = truth[n] * 1e-9;
                if (!(std::abs(got - want) <= 1e-6 * uses[n] + 1e-9 * want))
                {
                    char z[200];
                    std::snprintf(z, sizeof z, "timer '%s' says %.6f s, %.6f s passed while it ran", n.c_str(), got, want);
                    sim::violation("C12", "elapsed", z);
                }
                sim::nontrivial("C12");
                pass();
            }
        }
        T.print();
    };
    sc.fibers.push_back(std::move(f));
    sim::run_fibers(sc);
    g_clock = false;
    std::cout.rdbuf(old);
    bool runtime = truth.count("total runtime");
    double total = 0, sum = 0;
    for (auto& [n, v] : truth)
    {
        (n == "total runtime" ? total : sum) += v * 1e-9;
    }
    if (!runtime)
    {
        total = sum;
    }
    std::istringstream is(out.str());
    std::string line;
    std::map<std::string, std::vector<double>> rows;
    while (std::getline(is, line))
    {
        for (std::string n : {"ghost update", "mesh adaptation", "data saving", "field expressions", "total runtime", "(untimed)", "Total"})
        {
            auto at = line.find(n);
            if (at != std::string::npos)
            {
                rows[n] = numbers(line.substr(at + n.size()));
            }
        }
    }
    auto expect = [&](const std::string& n, double secs, double perc)
    {
        auto it = rows.find(n);
        if (it == rows.end() || it->second.size() != 2)
        {
            sim::violation("C12", "report", "'" + n + "' is not reported");
            return;
        }
        auto& v = it->second;
        if (!(std::abs(v[0] - secs) <= 1.1e-3 && std::abs(v[1] - perc) <= 0.11))
        {
            char z[240];
            std::snprintf(z, sizeof z, "'%s' is reported as %.6g s and %.4g %%, it is %.6g s and %.4g %%", n.c_str(), v[0], v[1], secs, perc);
            sim::violation("C12", "report", z);
        }
        sim::count("timer_rows_checked");
    };
    for (auto& [n, v] : truth)
    {
        expect(n, v * 1e-9, n == "total runtime" ? 100. : 100. * v * 1e-9 / total);
    }
    if (runtime)
    {
        expect("(untimed)", total - sum, 100. * (total - sum) / total);
    }
    else
    {
        expect("Total", sum, 100.);
    }
}
#endif

int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, "timers", body);
}
