// Simulated boost::mpi: the same interface, on top of the simulator's scheduler and network model.
//  - reliable, non-overtaking per (source, destination), arbitrarily delayed and reordered across pairs
//  - a send may be buffered (completes at once) or synchronous (completes when matched; the user buffer is read then)
//  - collectives are matched in call order; kind, element type and root must agree
#pragma once
#include "../../core.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <cmath>
#include <sstream>
#include <type_traits>
#include <typeinfo>

using MPI_Comm = int;
using MPI_Info = int;
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_THREAD_MULTIPLE 3

namespace simmpi
{
    struct ReqState
    {
        bool complete = false;
        int src = -1, tag = -1;
        std::string bytes, type;
        std::function<void(ReqState&)> on_complete; // stores received data into the user's object
        bool stored = false;
    };

    struct Msg
    {
        int src, dst, tag;
        std::string bytes, type;
        const void* user = nullptr; // deferred read of the user buffer
        std::shared_ptr<ReqState> sreq;
        bool sync    = false;
        uint64_t seq = 0;
    };

    struct Posted
    {
        int src, tag;
        std::shared_ptr<ReqState> req;
    };

    struct Coll
    {
        std::string kind, type;
        int root   = -1;
        int joined = 0;
        std::vector<char> in;
        std::vector<std::string> data;
    };

    struct Net
    {
        int size = 1;
        double p_sync = 0.3;
        std::map<std::pair<int, int>, std::deque<Msg>> flight;
        std::vector<std::deque<Msg>> arrived;
        std::vector<std::vector<Posted>> posted;
        std::vector<Coll> colls;
        std::vector<std::size_t> coll_pos;
        std::vector<double> skew, drift;
        uint64_t n_msgs = 0, last_seq = 0;

        explicit Net(int n)
            : size(n)
            , arrived(static_cast<std::size_t>(n))
            , posted(static_cast<std::size_t>(n))
            , coll_pos(static_cast<std::size_t>(n), 0)
            , skew(static_cast<std::size_t>(n), 0.)
            , drift(static_cast<std::size_t>(n), 0.)
        {
        }
    };

    inline Net*& net()
    {
        static Net* n = nullptr;
        return n;
    }

    inline int rank()
    {
        int s = sim::self();
        return s < 0 ? 0 : s;
    }

    inline int size()
    {
        return net() ? net()->size : 1;
    }

    inline void take(Msg& m, ReqState& r)
    {
        if (m.user)
        {
            // synchronous mode: the transport reads the user's buffer only now
            if (std::memcmp(m.user, m.bytes.data(), m.bytes.size()) != 0)
            {
                sim::violation("*", "send-buffer-modified", "the buffer of a non-blocking send was modified or released before the send completed");
            }
        }
        r.bytes    = std::move(m.bytes);
        r.type     = m.type;
        r.src      = m.src;
        r.tag      = m.tag;
        r.complete = true;
        if (m.sreq)
        {
            m.sreq->complete = true;
        }
        if (r.on_complete && !r.stored)
        {
            r.stored = true;
            r.on_complete(r);
        }
    }

    inline bool matches(int want_src, int want_tag, const Msg& m)
    {
        return (want_src < 0 || want_src == m.src) && (want_tag < 0 || want_tag == m.tag);
    }

    inline void deliver(int src, int dst)
    {
        auto& q = net()->flight[{src, dst}];
        Msg m   = std::move(q.front());
        q.pop_front();
        if (m.seq < net()->last_seq)
        {
            sim::count("fault:overtaken_message");
        }
        net()->last_seq = std::max(net()->last_seq, m.seq);
        sim::log_event(dst, "deliver", static_cast<uint64_t>(src), static_cast<uint64_t>(m.tag));
        auto& po = net()->posted[static_cast<std::size_t>(dst)];
        for (std::size_t i = 0; i < po.size(); ++i)
        {
            if (matches(po[i].src, po[i].tag, m))
            {
                auto req = po[i].req;
                po.erase(po.begin() + static_cast<long>(i));
                take(m, *req);
                return;
            }
        }
        net()->arrived[static_cast<std::size_t>(dst)].push_back(std::move(m));
    }

    inline void env_events(std::vector<std::function<void()>>& ev)
    {
        for (auto& [k, q] : net()->flight)
        {
            if (!q.empty())
            {
                auto key = k;
                ev.push_back(
                    [key]()
                    {
                        deliver(key.first, key.second);
                    });
            }
        }
    }

    inline std::shared_ptr<ReqState> post_send(int dst, int tag, std::string bytes, const std::string& type, const void* user)
    {
        sim::yield();
        auto r = std::make_shared<ReqState>();
        if (dst < 0 || dst >= size())
        {
            sim::violation("*", "mpi-bad-rank", "send to rank " + std::to_string(dst) + " of " + std::to_string(size()));
        }
        if (tag < 0)
        {
            sim::violation("*", "mpi-bad-tag", "negative tag");
        }
        bool sync = sim::fault("sync_send", net()->p_sync);
        sim::log_event(rank(), "send", static_cast<uint64_t>(dst), bytes.size());
        sim::count("messages");
        Msg m;
        m.seq   = ++net()->n_msgs;
        m.src   = rank();
        m.dst   = dst;
        m.tag   = tag;
        m.bytes = std::move(bytes);
        m.type  = type;
        m.sync  = sync;
        if (sync)
        {
            m.user = user;
            m.sreq = r;
        }
        else
        {
            r->complete = true;
        }
        net()->flight[{rank(), dst}].push_back(std::move(m));
        return r;
    }

    inline std::shared_ptr<ReqState> post_recv(int src, int tag, std::function<void(ReqState&)> store)
    {
        sim::yield();
        auto r         = std::make_shared<ReqState>();
        r->on_complete = std::move(store);
        auto& a        = net()->arrived[static_cast<std::size_t>(rank())];
        sim::log_event(rank(), "recv", static_cast<uint64_t>(src + 1), static_cast<uint64_t>(tag + 1));
        for (std::size_t i = 0; i < a.size(); ++i)
        {
            if (matches(src, tag, a[i]))
            {
                Msg m = std::move(a[i]);
                a.erase(a.begin() + static_cast<long>(i));
                take(m, *r);
                return r;
            }
        }
        net()->posted[static_cast<std::size_t>(rank())].push_back({src, tag, r});
        return r;
    }

    inline void wait(const std::shared_ptr<ReqState>& r, const char* why)
    {
        if (!r->complete)
        {
            sim::block_until(
                [r]()
                {
                    return r->complete;
                },
                why);
        }
    }

    inline void check_type(const ReqState& r, const std::string& want)
    {
        if (r.type != want)
        {
            sim::violation("*", "message-type-mismatch", "received a message of type " + r.type + " where " + want + " was expected (source " + std::to_string(r.src) + ", tag " + std::to_string(r.tag) + ")");
        }
    }

    // ---- packing -----------------------------------------------------------------------------------
    template <class T>
    constexpr bool is_prim = std::is_arithmetic_v<T> || std::is_enum_v<T>;

    template <class T>
    std::string tname()
    {
        return typeid(T).name();
    }

    template <class T>
    std::string pack(const T& v)
    {
        if constexpr (is_prim<T>)
        {
            return std::string(reinterpret_cast<const char*>(&v), sizeof(T));
        }
        else
        {
            std::ostringstream os(std::ios::binary);
            {
                boost::archive::binary_oarchive oa(os, boost::archive::no_header);
                oa << v;
            }
            return os.str();
        }
    }

    template <class T>
    void unpack(const std::string& b, T& v)
    {
        if constexpr (is_prim<T>)
        {
            std::memcpy(&v, b.data(), sizeof(T));
        }
        else
        {
            std::istringstream is(b, std::ios::binary);
            boost::archive::binary_iarchive ia(is, boost::archive::no_header);
            ia >> v;
        }
    }

    template <class T>
    std::string pack_n(const T* v, std::size_t n)
    {
        if constexpr (is_prim<T>)
        {
            return std::string(reinterpret_cast<const char*>(v), sizeof(T) * n);
        }
        else
        {
            return pack(std::vector<T>(v, v + n));
        }
    }

    // ---- collectives -------------------------------------------------------------------------------
    inline Coll& join(const std::string& kind, const std::string& type, int root, std::string mine, std::size_t& pos)
    {
        sim::yield();
        Net& n  = *net();
        auto me = static_cast<std::size_t>(rank());
        pos     = n.coll_pos[me]++;
        if (n.colls.size() <= pos)
        {
            n.colls.resize(pos + 1);
        }
        Coll& c = n.colls[pos];
        sim::log_event(rank(), "coll", pos, 0);
        sim::count("collectives");
        if (c.joined == 0)
        {
            c.kind = kind;
            c.type = type;
            c.root = root;
            c.in.assign(static_cast<std::size_t>(n.size), 0);
            c.data.resize(static_cast<std::size_t>(n.size));
        }
        else if (c.kind != kind || c.type != type || c.root != root)
        {
            sim::violation("*", "collective-mismatch", "collective #" + std::to_string(pos) + ": rank " + std::to_string(me) + " calls " + kind + "<" + type + "> while others called " + c.kind + "<" + c.type + ">");
            sim::finish(1, "collective-mismatch", kind);
        }
        c.in[me]   = 1;
        c.data[me] = std::move(mine);
        ++c.joined;
        return c;
    }

    inline void wait_everyone(std::size_t pos, const char* why)
    {
        if (net()->colls[pos].joined < net()->size)
        {
            sim::block_until(
                [pos]()
                {
                    return net()->colls[pos].joined == net()->size;
                },
                why);
        }
    }

    inline void wait_rank(std::size_t pos, int r, const char* why)
    {
        if (!net()->colls[pos].in[static_cast<std::size_t>(r)])
        {
            sim::block_until(
                [pos, r]()
                {
                    return net()->colls[pos].in[static_cast<std::size_t>(r)] != 0;
                },
                why);
        }
    }

    inline void maybe_wait_everyone(std::size_t pos, const char* why)
    {
        if (sim::fault("sync_collective", net()->p_sync))
        {
            wait_everyone(pos, why);
        }
    }

    // to be called when all ranks are done
    inline void final_check()
    {
        Net& n = *net();
        for (auto& [k, q] : n.flight)
        {
            if (!q.empty())
            {
                sim::violation("*", "unmatched-message", std::to_string(q.size()) + " message(s) from rank " + std::to_string(k.first) + " to rank " + std::to_string(k.second) + " were never received");
            }
        }
        for (std::size_t d = 0; d < n.arrived.size(); ++d)
        {
            if (!n.arrived[d].empty())
            {
                sim::violation("*", "unmatched-message", "a message from rank " + std::to_string(n.arrived[d][0].src) + " to rank " + std::to_string(d) + " was never received");
            }
            if (!n.posted[d].empty())
            {
                sim::violation("*", "unmatched-receive", "rank " + std::to_string(d) + " posted a receive that never matched");
            }
        }
        for (auto& c : n.colls)
        {
            if (c.joined != n.size)
            {
                sim::violation("*", "collective-mismatch", "a collective (" + c.kind + ") was joined by " + std::to_string(c.joined) + " of " + std::to_string(n.size) + " ranks");
            }
        }
    }
} // namespace simmpi

inline int MPI_Init(int*, char***)
{
    return 0;
}

inline int MPI_Init_thread(int*, char***, int, int* p)
{
    if (p)
    {
        *p = 3;
    }
    return 0;
}

inline int MPI_Finalize()
{
    return 0;
}

inline int MPI_Initialized(int* f)
{
    *f = 1;
    return 0;
}

inline int MPI_Comm_rank(MPI_Comm, int* r)
{
    *r = simmpi::rank();
    return 0;
}

inline int MPI_Comm_size(MPI_Comm, int* s)
{
    *s = simmpi::size();
    return 0;
}

inline int MPI_Barrier(MPI_Comm)
{
    std::size_t p;
    simmpi::join("barrier", "", -1, "", p);
    simmpi::wait_everyone(p, "barrier");
    return 0;
}

// each rank has its own clock: common simulated time, plus its skew, times its drift
inline double MPI_Wtime()
{
    double t = static_cast<double>(sim::W().sim_time) * 1e-9;
    if (simmpi::net())
    {
        auto r = static_cast<std::size_t>(simmpi::rank());
        return t * (1. + simmpi::net()->drift[r]) + simmpi::net()->skew[r];
    }
    return t;
}

namespace boost
{
    namespace mpi
    {
        constexpr int any_source = -1;
        constexpr int any_tag    = -1;
        enum comm_create_kind
        {
            comm_duplicate,
            comm_take_ownership,
            comm_attach
        };

        namespace threading
        {
            enum level
            {
                single,
                funneled,
                serialized,
                multiple
            };
        }

        class status
        {
          public:

            int m_src = -1, m_tag = -1;
            std::size_t m_bytes = 0;

            int source() const
            {
                return m_src;
            }

            int tag() const
            {
                return m_tag;
            }

            int error() const
            {
                return 0;
            }

            template <class T>
            optional<int> count() const
            {
                return static_cast<int>(m_bytes / sizeof(T));
            }
        };

        class request
        {
          public:

            std::shared_ptr<simmpi::ReqState> st;

            request() = default;

            explicit request(std::shared_ptr<simmpi::ReqState> s)
                : st(std::move(s))
            {
            }

            status wait()
            {
                status r;
                if (st)
                {
                    sim::yield();
                    simmpi::wait(st, "request.wait");
                    r.m_src   = st->src;
                    r.m_tag   = st->tag;
                    r.m_bytes = st->bytes.size();
                }
                return r;
            }

            optional<status> test()
            {
                sim::yield();
                if (!st || st->complete)
                {
                    return wait();
                }
                return {};
            }

            void cancel()
            {
                sim::finish(3, "internal", "request::cancel is not simulated");
            }

            bool active() const
            {
                return st && !st->complete;
            }
        };

        class communicator
        {
          public:

            communicator() = default;

            communicator(const MPI_Comm&, comm_create_kind)
            {
            }

            int rank() const
            {
                return simmpi::rank();
            }

            int size() const
            {
                return simmpi::size();
            }

            operator MPI_Comm() const
            {
                return MPI_COMM_WORLD;
            }

            operator bool() const
            {
                return true;
            }

            void barrier() const
            {
                MPI_Barrier(0);
            }

            void abort(int e) const
            {
                sim::finish(1, "mpi-abort", "MPI_Abort(" + std::to_string(e) + ")");
            }

            template <class T>
            request isend(int dest, int tag, const T& value) const
            {
                return request(simmpi::post_send(dest, tag, simmpi::pack(value), simmpi::tname<T>(), simmpi::is_prim<T> ? static_cast<const void*>(&value) : nullptr));
            }

            template <class T, class A>
            request isend(int dest, int tag, const std::vector<T, A>& value) const
            {
                if constexpr (simmpi::is_prim<T> && !std::is_same_v<T, bool>)
                {
                    return request(simmpi::post_send(dest, tag, simmpi::pack_n(value.data(), value.size()), "v" + simmpi::tname<T>(), value.empty() ? nullptr : value.data()));
                }
                else
                {
                    return request(simmpi::post_send(dest, tag, simmpi::pack(value), "v" + simmpi::tname<T>(), nullptr));
                }
            }

            template <class T>
            request isend(int dest, int tag, const T* values, int n) const
            {
                return request(simmpi::post_send(dest, tag, simmpi::pack_n(values, static_cast<std::size_t>(n)), "a" + simmpi::tname<T>(), simmpi::is_prim<T> && n > 0 ? values : nullptr));
            }

            request isend(int dest, int tag) const
            {
                return request(simmpi::post_send(dest, tag, "", "empty", nullptr));
            }

            template <class... A>
            void send(int dest, int tag, const A&... a) const
            {
                auto r = isend(dest, tag, a...);
                simmpi::wait(r.st, "send");
            }

            template <class T>
            request irecv(int source, int tag, T& value) const
            {
                return request(simmpi::post_recv(source,
                                                 tag,
                                                 [&value](simmpi::ReqState& r)
                                                 {
                                                     simmpi::check_type(r, simmpi::tname<T>());
                                                     simmpi::unpack(r.bytes, value);
                                                 }));
            }

            template <class T, class A>
            request irecv(int source, int tag, std::vector<T, A>& value) const
            {
                return request(simmpi::post_recv(source,
                                                 tag,
                                                 [&value](simmpi::ReqState& r)
                                                 {
                                                     simmpi::check_type(r, "v" + simmpi::tname<T>());
                                                     if constexpr (simmpi::is_prim<T> && !std::is_same_v<T, bool>)
                                                     {
                                                         value.resize(r.bytes.size() / sizeof(T));
                                                         std::memcpy(static_cast<void*>(value.data()), r.bytes.data(), value.size() * sizeof(T));
                                                     }
                                                     else
                                                     {
                                                         simmpi::unpack(r.bytes, value);
                                                     }
                                                 }));
            }

            template <class T>
            request irecv(int source, int tag, T* values, int n) const
            {
                return request(simmpi::post_recv(source,
                                                 tag,
                                                 [values, n](simmpi::ReqState& r)
                                                 {
                                                     simmpi::check_type(r, "a" + simmpi::tname<T>());
                                                     if constexpr (simmpi::is_prim<T>)
                                                     {
                                                         if (r.bytes.size() > sizeof(T) * static_cast<std::size_t>(n))
                                                         {
                                                             sim::violation("*", "message-truncated", "receive buffer too small");
                                                         }
                                                         std::memcpy(static_cast<void*>(values), r.bytes.data(), r.bytes.size());
                                                     }
                                                     else
                                                     {
                                                         std::vector<T> v;
                                                         simmpi::unpack(r.bytes, v);
                                                         std::copy(v.begin(), v.end(), values);
                                                     }
                                                 }));
            }

            request irecv(int source, int tag) const
            {
                return request(simmpi::post_recv(source, tag, nullptr));
            }

            template <class... A>
            status recv(int source, int tag, A&&... a) const
            {
                auto r = irecv(source, tag, std::forward<A>(a)...);
                simmpi::wait(r.st, "recv");
                status s;
                s.m_src   = r.st->src;
                s.m_tag   = r.st->tag;
                s.m_bytes = r.st->bytes.size();
                return s;
            }

            template <class T>
            status sendrecv(int dest, int stag, const T& sval, int src, int rtag, T& rval) const
            {
                auto rr = irecv(src, rtag, rval);
                auto rs = isend(dest, stag, sval);
                rs.wait();
                return rr.wait();
            }

            optional<status> iprobe(int source = any_source, int tag = any_tag) const
            {
                sim::yield();
                for (auto& m : simmpi::net()->arrived[static_cast<std::size_t>(rank())])
                {
                    if (simmpi::matches(source, tag, m))
                    {
                        status s;
                        s.m_src   = m.src;
                        s.m_tag   = m.tag;
                        s.m_bytes = m.bytes.size();
                        return s;
                    }
                }
                return {};
            }

            status probe(int source = any_source, int tag = any_tag) const
            {
                int me = rank();
                auto f = [me, source, tag]()
                {
                    for (auto& m : simmpi::net()->arrived[static_cast<std::size_t>(me)])
                    {
                        if (simmpi::matches(source, tag, m))
                        {
                            return true;
                        }
                    }
                    return false;
                };
                if (!f())
                {
                    sim::block_until(f, "probe");
                }
                return *iprobe(source, tag);
            }
        };

        class cartesian_communicator : public communicator
        {
        };

        class environment
        {
          public:

            template <class... A>
            explicit environment(A&&...)
            {
            }
        };

        class timer
        {
            double t0 = MPI_Wtime();

          public:

            void restart()
            {
                t0 = MPI_Wtime();
            }

            double elapsed() const
            {
                return MPI_Wtime() - t0;
            }
        };

        template <class It>
        void wait_all(It b, It e)
        {
            for (; b != e; ++b)
            {
                b->wait();
            }
        }

        template <class It, class Out>
        Out wait_all(It b, It e, Out o)
        {
            for (; b != e; ++b)
            {
                *o++ = b->wait();
            }
            return o;
        }

        template <class It>
        bool test_all(It b, It e)
        {
            sim::yield();
            for (; b != e; ++b)
            {
                if (b->active())
                {
                    return false;
                }
            }
            return true;
        }

        template <class It>
        std::pair<status, It> wait_any(It b, It e)
        {
            sim::block_until(
                [b, e]()
                {
                    for (It i = b; i != e; ++i)
                    {
                        if (i->st && i->st->complete)
                        {
                            return true;
                        }
                    }
                    return false;
                },
                "wait_any");
            std::vector<It> c;
            for (It i = b; i != e; ++i)
            {
                if (i->st && i->st->complete)
                {
                    c.push_back(i);
                }
            }
            It k = c[sim::choose_s(static_cast<uint32_t>(c.size()))];
            auto s = k->wait();
            k->st.reset();
            return {s, k};
        }

        // ---- operations ----
        template <class T>
        struct maximum
        {
            T operator()(const T& a, const T& b) const
            {
                return a < b ? b : a;
            }
        };

        template <class T>
        struct minimum
        {
            T operator()(const T& a, const T& b) const
            {
                return a < b ? a : b;
            }
        };

        template <class T>
        struct bitwise_and
        {
            T operator()(const T& a, const T& b) const
            {
                return a & b;
            }
        };

        template <class T>
        struct bitwise_or
        {
            T operator()(const T& a, const T& b) const
            {
                return a | b;
            }
        };

        template <class T>
        struct logical_xor
        {
            T operator()(const T& a, const T& b) const
            {
                return (a || b) && !(a && b);
            }
        };

        // ---- collectives ----
        template <class T, class Op>
        void all_reduce(const communicator&, const T* in, int n, T* out, Op op)
        {
            std::vector<T> mine(in, in + n);
            std::size_t p;
            simmpi::join("all_reduce", simmpi::tname<T>() + "#" + std::to_string(n), -1, simmpi::pack(mine), p);
            simmpi::wait_everyone(p, "all_reduce");
            std::vector<T> acc, v;
            for (int r = 0; r < simmpi::size(); ++r)
            {
                v.clear();
                simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(r)], v);
                if (r == 0)
                {
                    acc = v;
                }
                else
                {
                    for (std::size_t i = 0; i < acc.size(); ++i)
                    {
                        acc[i] = op(acc[i], v[i]);
                    }
                }
            }
            std::copy(acc.begin(), acc.end(), out);
        }

        template <class T, class Op>
        void all_reduce(const communicator& c, const T& in, T& out, Op op)
        {
            std::size_t p;
            simmpi::join("all_reduce", simmpi::tname<T>(), -1, simmpi::pack(in), p);
            simmpi::wait_everyone(p, "all_reduce");
            T acc{};
            for (int r = 0; r < c.size(); ++r)
            {
                T v{};
                simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(r)], v);
                acc = r == 0 ? v : static_cast<T>(op(acc, v));
            }
            out = acc;
        }

        template <class T, class Op>
        T all_reduce(const communicator& c, const T& in, Op op)
        {
            T out{};
            all_reduce(c, in, out, op);
            return out;
        }

        template <class T>
        void all_gather(const communicator& c, const T& in, std::vector<T>& out)
        {
            std::size_t p;
            simmpi::join("all_gather", simmpi::tname<T>(), -1, simmpi::pack(in), p);
            simmpi::wait_everyone(p, "all_gather");
            out.resize(static_cast<std::size_t>(c.size()));
            for (std::size_t r = 0; r < out.size(); ++r)
            {
                simmpi::unpack(simmpi::net()->colls[p].data[r], out[r]);
            }
        }

        template <class T>
        void all_gather(const communicator& c, const T& in, T* out)
        {
            std::vector<T> v;
            all_gather(c, in, v);
            std::copy(v.begin(), v.end(), out);
        }

        template <class T>
        void all_gather(const communicator& c, const T* in, int n, std::vector<T>& out)
        {
            std::vector<std::vector<T>> v;
            all_gather(c, std::vector<T>(in, in + n), v);
            out.clear();
            for (auto& x : v)
            {
                out.insert(out.end(), x.begin(), x.end());
            }
        }

        template <class T>
        void all_gather(const communicator& c, const T* in, int n, T* out)
        {
            std::vector<T> v;
            all_gather(c, in, n, v);
            std::copy(v.begin(), v.end(), out);
        }

        template <class T>
        void all_gatherv(const communicator& c, const std::vector<T>& in, std::vector<T>& out, const std::vector<int>&)
        {
            std::vector<std::vector<T>> v;
            all_gather(c, in, v);
            out.clear();
            for (auto& x : v)
            {
                out.insert(out.end(), x.begin(), x.end());
            }
        }

        template <class T>
        void all_to_all(const communicator& c, const std::vector<T>& in, std::vector<T>& out)
        {
            std::vector<std::vector<T>> v;
            all_gather(c, in, v);
            out.clear();
            for (auto& x : v)
            {
                out.push_back(x[static_cast<std::size_t>(c.rank())]);
            }
        }

        template <class T>
        void broadcast(const communicator& c, T& value, int root)
        {
            std::size_t p;
            simmpi::join("broadcast", simmpi::tname<T>(), root, c.rank() == root ? simmpi::pack(value) : std::string(), p);
            simmpi::wait_rank(p, root, "broadcast");
            simmpi::maybe_wait_everyone(p, "broadcast");
            if (c.rank() != root)
            {
                simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(root)], value);
            }
        }

        template <class T>
        void broadcast(const communicator& c, T* values, int n, int root)
        {
            std::vector<T> v(values, values + n);
            broadcast(c, v, root);
            std::copy(v.begin(), v.end(), values);
        }

        template <class T>
        void gather(const communicator& c, const T& in, std::vector<T>& out, int root)
        {
            std::size_t p;
            simmpi::join("gather", simmpi::tname<T>(), root, simmpi::pack(in), p);
            if (c.rank() == root)
            {
                simmpi::wait_everyone(p, "gather");
                out.resize(static_cast<std::size_t>(c.size()));
                for (std::size_t r = 0; r < out.size(); ++r)
                {
                    simmpi::unpack(simmpi::net()->colls[p].data[r], out[r]);
                }
            }
            else
            {
                simmpi::maybe_wait_everyone(p, "gather");
            }
        }

        template <class T>
        void gather(const communicator& c, const T& in, T* out, int root)
        {
            std::vector<T> v;
            gather(c, in, v, root);
            std::copy(v.begin(), v.end(), out);
        }

        template <class T>
        void gather(const communicator& c, const T& in, int root)
        {
            std::vector<T> v;
            gather(c, in, v, root);
        }

        template <class T>
        void scatter(const communicator& c, const std::vector<T>& in, T& out, int root)
        {
            std::size_t p;
            simmpi::join("scatter", simmpi::tname<T>(), root, c.rank() == root ? simmpi::pack(in) : std::string(), p);
            simmpi::wait_rank(p, root, "scatter");
            simmpi::maybe_wait_everyone(p, "scatter");
            std::vector<T> v;
            simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(root)], v);
            out = v[static_cast<std::size_t>(c.rank())];
        }

        template <class T>
        void scatter(const communicator& c, T& out, int root)
        {
            scatter(c, std::vector<T>(), out, root);
        }

        template <class T, class Op>
        void reduce(const communicator& c, const T& in, T& out, Op op, int root)
        {
            std::size_t p;
            simmpi::join("reduce", simmpi::tname<T>(), root, simmpi::pack(in), p);
            if (c.rank() != root)
            {
                simmpi::maybe_wait_everyone(p, "reduce");
                return;
            }
            simmpi::wait_everyone(p, "reduce");
            T acc{};
            for (int r = 0; r < c.size(); ++r)
            {
                T v{};
                simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(r)], v);
                acc = r == 0 ? v : static_cast<T>(op(acc, v));
            }
            out = acc;
        }

        template <class T, class Op>
        void reduce(const communicator& c, const T& in, Op op, int root)
        {
            T out{};
            reduce(c, in, out, op, root);
        }

        template <class T, class Op>
        void scan(const communicator& c, const T& in, T& out, Op op)
        {
            std::size_t p;
            simmpi::join("scan", simmpi::tname<T>(), -1, simmpi::pack(in), p);
            for (int r = 0; r <= c.rank(); ++r)
            {
                simmpi::wait_rank(p, r, "scan");
            }
            simmpi::maybe_wait_everyone(p, "scan");
            T acc{};
            for (int r = 0; r <= c.rank(); ++r)
            {
                T v{};
                simmpi::unpack(simmpi::net()->colls[p].data[static_cast<std::size_t>(r)], v);
                acc = r == 0 ? v : static_cast<T>(op(acc, v));
            }
            out = acc;
        }

        template <class T, class Op>
        T scan(const communicator& c, const T& in, Op op)
        {
            T out{};
            scan(c, in, out, op);
            return out;
        }
    } // namespace mpi
} // namespace boost
