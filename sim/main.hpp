// Driver shared by every harness: seeded search, gate, minimisation, replay.
#pragma once
#include "alloc.hpp"
#include "core.hpp"
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace sim
{
    inline void crash_handler(int sig)
    {
        g_alloc_armed = false;
        const char* n = sig == SIGSEGV  ? "SIGSEGV"
                      : sig == SIGABRT  ? "SIGABRT"
                      : sig == SIGFPE   ? "SIGFPE"
                      : sig == SIGBUS   ? "SIGBUS"
                      : sig == SIGILL   ? "SIGILL"
                      : sig == SIGPROF  ? "CPU-LIMIT"
                                        : "SIGNAL";
        finish(2, std::string("crash-") + n, std::string("[") + W().phase + "] the code under test died: " + n);
    }

    struct Spec
    {
        uint64_t seed = 0;
        bool replay   = false;
        std::vector<uint32_t> w, s;
        bool verbose = false;
    };

    inline bool g_any_class = false; // memory errors may show differently from run to run: any failure counts as the same one
    inline std::string g_prop;
    inline std::string g_scenario; // a pinned workload instead of a random one
    inline std::string g_harness;
    inline std::function<void()> g_body;
    inline int g_cpu_limit = 60;

    inline void child_main(const Spec& sp, int fd)
    {
        auto& w    = W();
        w.out_fd   = fd;
        w.prop     = g_prop;
        w.replay   = sp.replay;
        w.w        = sp.w;
        w.s        = sp.s;
        w.rw       = Rng(sp.seed * 0x9E3779B97F4A7C15ull + 11);
        w.rs       = Rng(sp.seed * 0xBF58476D1CE4E5B9ull + 29);
        w.rp       = Rng(sp.seed * 0x94D049BB133111EBull + 47);
        w.verbose  = sp.verbose;
        static char alt[1 << 18];
        stack_t ss{};
        ss.ss_sp   = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa
        {
        };
        sa.sa_handler = crash_handler;
        sa.sa_flags   = SA_ONSTACK | static_cast<int>(SA_RESETHAND);
        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF})
        {
            sigaction(sig, &sa, nullptr);
        }
        itimerval it{};
        it.it_value.tv_sec = g_cpu_limit;
        setitimer(ITIMER_PROF, &it, nullptr);
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        rlimit as{static_cast<rlim_t>(4) << 30, static_cast<rlim_t>(4) << 30};
        setrlimit(RLIMIT_AS, &as);
        int nul = ::open("/dev/null", O_RDWR);
        if (nul >= 0)
        {
            dup2(nul, 0);
            dup2(nul, 1);
            if (!sp.verbose)
            {
                dup2(nul, 2);
            }
        }
        w.s.reserve(4u << 20);
        w.w.reserve(1u << 20);
        arena_start();
        g_body();
        finish(0, "", "");
    }

    struct Running
    {
        pid_t pid;
        int fd;
        std::size_t idx;
        std::string buf;
    };

    inline Running start(const Spec& sp, std::size_t idx)
    {
        int p[2];
        if (pipe(p))
        {
            std::perror("pipe");
            std::exit(2);
        }
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid < 0)
        {
            std::perror("fork");
            std::exit(2);
        }
        if (pid == 0)
        {
            ::close(p[0]);
            child_main(sp, p[1]);
        }
        ::close(p[1]);
        return {pid, p[0], idx, {}};
    }

    inline Result parse(const std::string& b, int wstatus)
    {
        Result r;
        std::size_t k = 0;
        auto need     = [&](std::size_t n)
        {
            return k + n <= b.size();
        };
        auto bad = [&]()
        {
            r.status = 2;
            if (WIFSIGNALED(wstatus))
            {
                r.cls = "crash-signal-" + std::to_string(WTERMSIG(wstatus));
            }
            else
            {
                r.cls = "crash-exit-" + std::to_string(WIFEXITED(wstatus) ? WEXITSTATUS(wstatus) : -1);
            }
            r.msg = "the process under test ended without a report";
            return r;
        };
        if (!need(32))
        {
            return bad();
        }
        uint64_t head[4];
        std::memcpy(head, b.data(), 32);
        k            = 32;
        r.status     = static_cast<int>(head[0]);
        r.hash       = head[1];
        r.sched_hash = head[2];
        r.state_hash = head[3];
        auto gets    = [&](std::string& s)
        {
            uint32_t n = 0;
            if (!need(4))
            {
                return false;
            }
            std::memcpy(&n, b.data() + k, 4);
            k += 4;
            if (!need(n))
            {
                return false;
            }
            s = b.substr(k, n);
            k += n;
            return true;
        };
        auto getv = [&](std::vector<uint32_t>& v)
        {
            uint32_t n = 0;
            if (!need(4))
            {
                return false;
            }
            std::memcpy(&n, b.data() + k, 4);
            k += 4;
            if (!need(4ul * n))
            {
                return false;
            }
            v.resize(n);
            std::memcpy(v.data(), b.data() + k, 4ul * n);
            k += 4ul * n;
            return true;
        };
        uint32_t n = 0;
        if (!gets(r.cls) || !gets(r.msg) || !need(4))
        {
            return bad();
        }
        std::memcpy(&n, b.data() + k, 4);
        k += 4;
        for (uint32_t i = 0; i < n; ++i)
        {
            std::string key;
            if (!gets(key) || !need(8))
            {
                return bad();
            }
            uint64_t v;
            std::memcpy(&v, b.data() + k, 8);
            k += 8;
            r.counters[key] = v;
        }
        if (!getv(r.w) || !getv(r.s) || !gets(r.sample))
        {
            return bad();
        }
        return r;
    }

    // runs specs with up to `jobs` at a time; calls back with results in completion order; stops early when cb returns false
    inline void run_pool(std::size_t total, const std::function<Spec(std::size_t)>& make, int jobs, const std::function<bool(std::size_t, Result&&)>& cb)
    {
        std::vector<Running> run;
        std::size_t next = 0;
        bool stop        = false;
        while (true)
        {
            while (!stop && next < total && static_cast<int>(run.size()) < jobs)
            {
                run.push_back(start(make(next), next));
                ++next;
            }
            if (run.empty())
            {
                break;
            }
            std::vector<pollfd> pf;
            for (auto& r : run)
            {
                pf.push_back({r.fd, POLLIN, 0});
            }
            poll(pf.data(), pf.size(), 1000);
            for (std::size_t i = run.size(); i-- > 0;)
            {
                if (pf[i].revents)
                {
                    char tmp[65536];
                    ssize_t n = ::read(run[i].fd, tmp, sizeof tmp);
                    if (n > 0)
                    {
                        run[i].buf.append(tmp, static_cast<std::size_t>(n));
                    }
                    else
                    {
                        ::close(run[i].fd);
                        int st = 0;
                        waitpid(run[i].pid, &st, 0);
                        Result res      = parse(run[i].buf, st);
                        std::size_t idx = run[i].idx;
                        run.erase(run.begin() + static_cast<long>(i));
                        if (!cb(idx, std::move(res)))
                        {
                            stop = true;
                        }
                    }
                }
            }
        }
    }

    inline Result run_one(const Spec& sp)
    {
        Result out;
        run_pool(
            1,
            [&](std::size_t)
            {
                return sp;
            },
            1,
            [&](std::size_t, Result&& r)
            {
                out = std::move(r);
                return true;
            });
        return out;
    }

    inline void trim(std::vector<uint32_t>& v)
    {
        while (!v.empty() && v.back() == 0)
        {
            v.pop_back();
        }
    }

    inline double now_s()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    inline Spec minimise(Spec base, const std::string& cls, int jobs, double budget, std::size_t& tried)
    {
        double t0 = now_s();
        tried     = 0;
        trim(base.w);
        trim(base.s);
        auto out_of_time = [&]()
        {
            return now_s() - t0 > budget;
        };
        // evaluates candidates in parallel and returns the first (lowest index) that still fails in the same way
        auto first_failing = [&](const std::vector<Spec>& c) -> int
        {
            for (std::size_t b = 0; b < c.size() && !out_of_time(); b += static_cast<std::size_t>(jobs))
            {
                std::size_t m = std::min(c.size() - b, static_cast<std::size_t>(jobs));
                int best      = -1;
                run_pool(
                    m,
                    [&](std::size_t i)
                    {
                        return c[b + i];
                    },
                    jobs,
                    [&](std::size_t i, Result&& r)
                    {
                        ++tried;
                        if (r.status && r.status != 3 && (g_any_class || r.cls == cls) && (best < 0 || static_cast<int>(i) < best))
                        {
                            best = static_cast<int>(i);
                        }
                        return true;
                    });
                if (best >= 0)
                {
                    return static_cast<int>(b) + best;
                }
            }
            return -1;
        };
        auto shrink_stream = [&](bool is_w)
        {
            auto& vec = is_w ? base.w : base.s;
            // whole stream
            {
                Spec c = base;
                (is_w ? c.w : c.s).clear();
                if (!vec.empty() && first_failing({c}) == 0)
                {
                    base = c;
                    return;
                }
            }
            // tail cuts, then zeroing chunks
            for (std::size_t chunk = std::max<std::size_t>(1, vec.size() / 2); chunk >= 1 && !out_of_time(); chunk /= 2)
            {
                for (bool again = true; again && !out_of_time();)
                {
                    again = false;
                    if (vec.size() > chunk)
                    {
                        Spec c  = base;
                        auto& v = is_w ? c.w : c.s;
                        v.resize(v.size() - chunk);
                        trim(v);
                        if (first_failing({c}) == 0)
                        {
                            base  = c;
                            again = true;
                        }
                    }
                }
                std::vector<Spec> cs;
                for (std::size_t a = 0; a < vec.size(); a += chunk)
                {
                    bool nz = false;
                    Spec c  = base;
                    auto& v = is_w ? c.w : c.s;
                    for (std::size_t i = a; i < std::min(a + chunk, vec.size()); ++i)
                    {
                        nz   = nz || v[i];
                        v[i] = 0;
                    }
                    if (nz)
                    {
                        trim(v);
                        cs.push_back(c);
                    }
                }
                if (cs.size() > 4000)
                {
                    cs.resize(4000);
                }
                // apply greedily: re-derive after each success
                std::size_t pos = 0;
                while (pos < cs.size() && !out_of_time())
                {
                    std::vector<Spec> rest(cs.begin() + static_cast<long>(pos), cs.end());
                    int k = first_failing(rest);
                    if (k < 0)
                    {
                        break;
                    }
                    Spec won = rest[static_cast<std::size_t>(k)];
                    // fold the win into the remaining candidates
                    std::vector<Spec> nx;
                    auto& wv = is_w ? won.w : won.s;
                    for (std::size_t i = pos + static_cast<std::size_t>(k) + 1; i < cs.size(); ++i)
                    {
                        Spec c  = cs[i];
                        auto& v = is_w ? c.w : c.s;
                        for (std::size_t q = 0; q < v.size(); ++q)
                        {
                            if (q >= wv.size() || wv[q] == 0)
                            {
                                v[q] = 0;
                            }
                        }
                        trim(v);
                        if (v != wv)
                        {
                            nx.push_back(c);
                        }
                    }
                    base = won;
                    cs   = nx;
                    pos  = 0;
                }
                if (chunk == 1)
                {
                    break;
                }
            }
            // lower remaining values
            for (std::size_t i = 0; is_w && i < vec.size() && !out_of_time(); ++i)
            {
                while (vec[i] > 0 && !out_of_time())
                {
                    std::vector<Spec> cs;
                    for (uint32_t nv : {vec[i] / 2, vec[i] - 1})
                    {
                        Spec c            = base;
                        (is_w ? c.w : c.s)[i] = nv;
                        cs.push_back(c);
                    }
                    int k = first_failing(cs);
                    if (k < 0)
                    {
                        break;
                    }
                    base = cs[static_cast<std::size_t>(k)];
                    if (i >= vec.size())
                    {
                        break;
                    }
                }
            }
        };
        shrink_stream(false);
        shrink_stream(true);
        shrink_stream(false);
        return base;
    }

    inline void write_replay(const std::string& path, const Spec& sp, const Result& r, uint64_t seed, std::size_t s0, std::size_t w0)
    {
        std::ofstream f(path);
        f << "samurai-sim-replay 1\n";
        f << "harness " << g_harness << "\nproperty " << g_prop << "\nseed " << seed << "\n";
        f << "scenario " << (g_scenario.empty() ? "-" : g_scenario) << "\n";
        f << "mode " << (sp.replay ? "decisions" : "seed") << (g_any_class ? " any-failure" : "") << "\n";
        f << "class " << r.cls << "\n";
        std::string m = r.msg;
        std::replace(m.begin(), m.end(), '\n', ' ');
        f << "message " << m << "\n";
        f << "hash " << r.hash << "\n";
        f << "original_decisions workload=" << w0 << " schedule_and_faults=" << s0 << "\n";
        f << "w " << sp.w.size();
        for (auto v : sp.w)
        {
            f << ' ' << v;
        }
        f << "\ns " << sp.s.size();
        for (auto v : sp.s)
        {
            f << ' ' << v;
        }
        f << "\n";
    }

    inline std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += c;
            }
            else if (static_cast<unsigned char>(c) < 32)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
            {
                o += c;
            }
        }
        return o + "\"";
    }

    inline uint64_t mix_seed(uint64_t base, uint64_t k)
    {
        Rng r(base * 0x2545F4914F6CDD1Dull + k * 0x9E3779B97F4A7C15ull + 0x1234567);
        return r.next();
    }

    inline int sim_main(int argc, char** argv, const std::string& harness, std::function<void()> body)
    {
        g_harness = harness;
        g_body    = std::move(body);
        std::map<std::string, std::string> o;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            o[argv[i]] = argv[i + 1];
        }
        auto get = [&](const std::string& k, const std::string& d)
        {
            return o.count(k) ? o[k] : d;
        };
        g_prop        = get("--prop", "");
        g_scenario    = get("--scenario", "");
        g_cpu_limit   = std::stoi(get("--cpu-limit", "40"));
        uint64_t base = std::stoull(get("--seed", "1"));
        std::size_t count_n = std::stoull(get("--count", "100"));
        int jobs            = std::stoi(get("--jobs", "8"));
        double budget       = std::stod(get("--budget", "1e9"));

        if (o.count("--replay"))
        {
            std::ifstream f(o["--replay"]);
            std::string line;
            Spec sp;
            sp.replay  = true;
            sp.verbose = get("--verbose", "0") == "1";
            std::string want;
            uint64_t want_hash = 0;
            while (std::getline(f, line))
            {
                std::stringstream ss(line);
                std::string k;
                ss >> k;
                if (k == "class")
                {
                    ss >> want;
                }
                else if (k == "property" && g_prop.empty())
                {
                    ss >> g_prop;
                }
                else if (k == "mode")
                {
                    std::string m;
                    ss >> m;
                    sp.replay = m != "seed";
                    if (ss >> m)
                    {
                        g_any_class = true;
                    }
                }
                else if (k == "scenario")
                {
                    ss >> g_scenario;
                    g_scenario = g_scenario == "-" ? "" : g_scenario;
                }
                else if (k == "hash")
                {
                    ss >> want_hash;
                }
                else if (k == "seed")
                {
                    ss >> sp.seed;
                }
                else if (k == "w" || k == "s")
                {
                    std::size_t n;
                    ss >> n;
                    auto& v = k == "w" ? sp.w : sp.s;
                    v.resize(n);
                    for (auto& x : v)
                    {
                        ss >> x;
                    }
                }
            }
            Result r = run_one(sp);
            std::cout << "REPLAY status=" << r.status << " class=" << r.cls << " hash=" << r.hash
                      << (r.cls == want && (want_hash == r.hash || r.status == 2) ? " reproduced" : " NOT-reproduced") << "\n"
                      << r.msg << "\n" << r.sample << "\n";
            return r.status == 0 ? 0 : (r.cls == want || (g_any_class && r.status != 3) ? 1 : 3);
        }

        if (o.count("--hashes")) // determinism proof: print one line per seed
        {
            std::vector<std::string> lines(count_n);
            run_pool(
                count_n,
                [&](std::size_t i)
                {
                    Spec sp;
                    sp.seed = mix_seed(base, i);
                    return sp;
                },
                jobs,
                [&](std::size_t i, Result&& r)
                {
                    std::stringstream ss;
                    ss << i << " " << r.status << " " << r.hash << " " << r.sched_hash << " " << r.state_hash << " " << r.cls << " " << r.msg;
                    lines[i] = ss.str();
                    return true;
                });
            for (auto& l : lines)
            {
                std::cout << l << "\n";
            }
            return 0;
        }

        double t0 = now_s();
        std::map<std::string, uint64_t> counters;
        std::set<uint64_t> scheds, states, fulls, nontriv;
        std::size_t done = 0;
        std::vector<std::string> samples;
        long bad_idx = -1;
        Result bad;
        bool internal = false;
        run_pool(
            count_n,
            [&](std::size_t i)
            {
                Spec sp;
                sp.seed = mix_seed(base, i);
                return sp;
            },
            jobs,
            [&](std::size_t i, Result&& r)
            {
                ++done;
                for (auto& [k, v] : r.counters)
                {
                    counters[k] += v;
                }
                scheds.insert(r.sched_hash);
                states.insert(r.state_hash);
                fulls.insert(r.hash);
                bool nt = r.counters.count("nontrivial:" + g_prop) > 0;
                if (nt)
                {
                    nontriv.insert(r.hash);
                }
                if (samples.size() < 3 && nt && !r.sample.empty())
                {
                    samples.push_back("seed#" + std::to_string(i) + ": " + r.sample);
                }
                if (r.status == 3)
                {
                    internal = true;
                    bad      = std::move(r);
                    bad_idx  = static_cast<long>(i);
                    return false;
                }
                if (r.status && (bad_idx < 0 || static_cast<long>(i) < bad_idx))
                {
                    bad     = std::move(r);
                    bad_idx = static_cast<long>(i);
                }
                return bad_idx < 0 && now_s() - t0 < budget;
            });
        double wall = now_s() - t0;
        std::string verdict = "ok";
        std::string replay_path;
        if (internal)
        {
            std::cout << "INTERNAL-ERROR " << bad.cls << " " << bad.msg << "\n";
            return 2;
        }
        if (bad_idx >= 0)
        {
            uint64_t seed = mix_seed(base, static_cast<uint64_t>(bad_idx));
            Spec sp;
            sp.seed   = seed;
            Result r2 = run_one(sp);
            if (r2.hash != bad.hash && bad.status != 2)
            {
                std::cout << "note: the executions of this seed differ in detail (hash " << bad.hash << " / " << r2.hash << ")\n";
            }
            if (r2.status && r2.status != 3 && r2.cls != bad.cls)
            {
                g_any_class = true;
            }
            else if (!(r2.status == bad.status && r2.cls == bad.cls))
            {
                std::cout << "INTERNAL-ERROR same seed did not reproduce: " << bad.cls << " / " << r2.cls << " " << bad.msg << " / " << r2.msg << "\n";
                return 2;
            }
            std::cout << "violation in seed#" << bad_idx << " (run seed " << seed << "): " << bad.cls << ": " << bad.msg << "\n";
            Spec m;
            m.seed            = seed;
            std::size_t tried = 0, s0 = bad.s.size(), w0 = bad.w.size();
            if (bad.w.empty() && bad.s.empty())
            {
                m = sp; // the report was lost in the crash: the seed itself is the replay
            }
            else
            {
                m.replay = true;
                m.w      = bad.w;
                m.s      = bad.s;
                Result c = run_one(m);
                if (!c.status || c.status == 3 || (!g_any_class && c.cls != bad.cls))
                {
                    std::cout << "note: the recorded decisions gave " << c.cls << "; the seed itself is the replay\n";
                    m = sp;
                }
                else
                {
                    m = minimise(m, bad.cls, jobs, std::stod(get("--min-budget", "60")), tried);
                }
            }
            Result fin = run_one(m);
            replay_path = get("--replay-out", "/tmp/replay.txt");
            write_replay(replay_path, m, fin, seed, s0, w0);
            std::cout << "minimised: workload decisions " << w0 << " -> " << m.w.size() << ", schedule/fault decisions " << s0 << " -> "
                      << std::count_if(m.s.begin(),
                                       m.s.end(),
                                       [](uint32_t v)
                                       {
                                           return v != 0;
                                       })
                      << " non-default of " << m.s.size() << " (" << tried << " candidate runs)\n";
            std::cout << "minimal: " << fin.cls << ": " << fin.msg << "\n  workload: " << fin.sample << "\n";
            verdict = "violation";
        }
        if (o.count("--out"))
        {
            std::ofstream f(o["--out"]);
            f << "{\"harness\":" << jstr(harness) << ",\"verdict\":" << jstr(verdict) << ",\"runs\":" << done << ",\"requested\":" << count_n
              << ",\"wall_s\":" << wall << ",\"distinct_interleavings\":" << scheds.size() << ",\"distinct_states\":" << states.size()
              << ",\"distinct_executions\":" << fulls.size() << ",\"distinct_nontrivial\":" << nontriv.size() << ",\"replay\":" << jstr(replay_path) << ",\"class\":" << jstr(bad.cls)
              << ",\"message\":" << jstr(bad.msg) << ",\"counters\":{";
            bool first = true;
            for (auto& [k, v] : counters)
            {
                f << (first ? "" : ",") << jstr(k) << ":" << v;
                first = false;
            }
            f << "},\"samples\":[";
            first = true;
            for (auto& s : samples)
            {
                f << (first ? "" : ",") << jstr(s);
                first = false;
            }
            f << "]}\n";
        }
        std::cout << harness << ": " << done << " runs, " << wall << " s, verdict " << verdict << "\n";
        return bad_idx >= 0 ? 1 : 0;
    }
} // namespace sim
