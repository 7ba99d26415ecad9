// Simulated storage: an in-memory disk holding HDF5-like files (written through the HighFive stand-in) and plain
// byte files (written through an interposed fopen), with seeded faults.
#pragma once
#include "core.hpp"
#include <cerrno>
#include <dlfcn.h>

namespace simdisk
{
    struct Dataset
    {
        std::vector<std::size_t> dims;
        std::string type;
        std::vector<long double> v;
        std::vector<char> written;
        int creators = 0;
    };

    struct H5
    {
        std::map<std::string, Dataset> ds;
        std::set<std::string> groups;
        bool complete = false; // closed by every rank
        bool dirty = false;    // something is buffered that the medium has not accepted yet
        bool lost  = false;    // the medium refused what was buffered, and nobody was told
        int opens = 0, closes = 0;
        uint64_t generation = 0;
    };

    struct Disk
    {
        std::map<std::string, std::shared_ptr<H5>> h5;
        std::map<std::string, std::string> bytes; // plain files
        double p_open = 0, p_create = 0, p_write = 0, p_flush = 0, p_xopen = 0, p_xwrite = 0, p_xclose = 0;
        uint64_t errors_injected = 0;
        std::vector<std::string> injected;
        bool intercept = false;
    };

    inline Disk& disk()
    {
        static Disk d;
        return d;
    }

    inline bool inject(const char* kind, double p, const std::string& what)
    {
        if (sim::fault(kind, p))
        {
            disk().errors_injected++;
            disk().injected.push_back(std::string(kind) + ":" + what);
            sim::log_event(sim::self(), kind);
            return true;
        }
        return false;
    }

    struct Cookie
    {
        std::string path;
        std::string data;
        bool failed = false;
    };

    inline ssize_t cookie_write(void* c, const char* b, std::size_t n)
    {
        auto* k = static_cast<Cookie*>(c);
        if (inject("xdmf_write_enospc", disk().p_xwrite, k->path))
        {
            std::size_t part = n ? sim::choose_s(static_cast<uint32_t>(std::min<std::size_t>(n, 64))) : 0; // short write, then no space
            k->data.append(b, part);
            k->failed = true;
            errno     = ENOSPC;
            return 0;
        }
        k->data.append(b, n);
        return static_cast<ssize_t>(n);
    }

    inline std::map<int, Cookie*>& fds()
    {
        static std::map<int, Cookie*> m;
        return m;
    }

    inline std::map<FILE*, int>& streams()
    {
        static std::map<FILE*, int> m;
        return m;
    }

    inline int cookie_close(void* c)
    {
        auto* k               = static_cast<Cookie*>(c);
        disk().bytes[k->path] = k->data;
        bool bad              = inject("xdmf_close_eio", disk().p_xclose, k->path);
        for (auto it = fds().begin(); it != fds().end();)
        {
            int fd = it->first;
            if (it->second == k)
            {
                for (auto j = streams().begin(); j != streams().end();)
                {
                    j = j->second == fd ? streams().erase(j) : std::next(j);
                }
                it = fds().erase(it);
            }
            else
            {
                ++it;
            }
        }
        delete k;
        if (bad)
        {
            errno = EIO;
            return -1;
        }
        return 0;
    }

    constexpr int fd_base = 1 << 20;

    inline FILE* open_simulated(const char* path)
    {
        if (inject("xdmf_open_eacces", disk().p_xopen, path))
        {
            errno = EACCES;
            return nullptr;
        }
        auto* k            = new Cookie{path, {}, false};
        disk().bytes[path] = "";
        cookie_io_functions_t io{};
        io.write = cookie_write;
        io.close = cookie_close;
        FILE* f  = fopencookie(k, "w", io);
        static int next_fd = fd_base;
        fds()[next_fd]     = k;
        streams()[f]       = next_fd++;
        return f;
    }
}

#ifdef SIM_INTERPOSE_FOPEN
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

template <class F>
static F sim_next(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

extern "C" FILE* fopen(const char* path, const char* mode)
{
    static auto real = sim_next<FILE* (*)(const char*, const char*)>("fopen");
    if (simdisk::disk().intercept && mode && mode[0] == 'w')
    {
        return simdisk::open_simulated(path);
    }
    return real(path, mode);
}

extern "C" FILE* fopen64(const char* path, const char* mode)
{
    return fopen(path, mode);
}

// std::ofstream opens with fopen and then writes to the descriptor of the stream
extern "C" int fileno(FILE* f) noexcept
{
    static auto real = sim_next<int (*)(FILE*)>("fileno");
    auto it          = simdisk::streams().find(f);
    return it != simdisk::streams().end() ? it->second : real(f);
}

extern "C" ssize_t write(int fd, const void* b, std::size_t n)
{
    static auto real = sim_next<ssize_t (*)(int, const void*, std::size_t)>("write");
    if (fd >= simdisk::fd_base)
    {
        auto r = simdisk::cookie_write(simdisk::fds().at(fd), static_cast<const char*>(b), n);
        return r == 0 && n ? -1 : r;
    }
    return real(fd, b, n);
}

extern "C" ssize_t writev(int fd, const iovec* v, int n)
{
    static auto real = sim_next<ssize_t (*)(int, const iovec*, int)>("writev");
    if (fd >= simdisk::fd_base)
    {
        ssize_t t = 0;
        for (int i = 0; i < n; ++i)
        {
            if (v[i].iov_len == 0)
            {
                continue;
            }
            auto r = write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0)
            {
                return t ? t : -1;
            }
            t += r;
        }
        return t;
    }
    return real(fd, v, n);
}

extern "C" int rename(const char* a, const char* b) noexcept
{
    static auto real = sim_next<int (*)(const char*, const char*)>("rename");
    auto& d          = simdisk::disk();
    if (d.intercept)
    {
        auto it = d.bytes.find(a);
        if (it == d.bytes.end())
        {
            errno = ENOENT;
            return -1;
        }
        d.bytes[b] = it->second;
        d.bytes.erase(a);
        return 0;
    }
    return real(a, b);
}

extern "C" char* getcwd(char* b, std::size_t n) noexcept
{
    static auto real = sim_next<char* (*)(char*, std::size_t)>("getcwd");
    if (simdisk::disk().intercept)
    {
        if (!b)
        {
            return strdup("/simulated");
        }
        if (n < 11)
        {
            errno = ERANGE;
            return nullptr;
        }
        std::strcpy(b, "/simulated");
        return b;
    }
    return real(b, n);
}
#endif
