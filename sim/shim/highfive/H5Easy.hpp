// Stand-in for HighFive over the simulated disk (HighFive itself is not installed in this sandbox).
#pragma once
#include "../../core.hpp"
#include "../../disk.hpp"
#ifdef SAMURAI_WITH_MPI
#include <boost/mpi.hpp>
#endif
#include <stdexcept>
#include <string>
#include <vector>

namespace HighFive
{
    class Exception : public std::exception
    {
      public:

        explicit Exception(const std::string& m)
            : _errmsg(m)
        {
        }

        const char* what() const noexcept override
        {
            return _errmsg.c_str();
        }

      protected:

        std::string _errmsg;
    };

    struct FileException : Exception
    {
        using Exception::Exception;
    };

    struct DataSetException : Exception
    {
        using Exception::Exception;
    };

    struct DataSpaceException : Exception
    {
        using Exception::Exception;
    };

    struct GroupException : Exception
    {
        using Exception::Exception;
    };

    template <class C, class I>
    struct MPIOFileAccessT
    {
        MPIOFileAccessT(C, I)
        {
        }
    };

    struct MPIOFileAccess
    {
        template <class C, class I>
        MPIOFileAccess(C, I)
        {
        }
    };

    struct MPIOCollectiveMetadata
    {
        explicit MPIOCollectiveMetadata(bool = true)
        {
        }
    };

    struct MPIOCollectiveMetadataRead
    {
    };

    struct MPIOCollectiveMetadataWrite
    {
    };

    struct UseCollectiveIO
    {
        bool on;

        explicit UseCollectiveIO(bool b = true)
            : on(b)
        {
        }
    };

    struct FileAccessProps
    {
        bool mpio = false;

        void add(const MPIOFileAccess&)
        {
            mpio = true;
        }

        template <class T>
        void add(const T&)
        {
        }
    };

    struct DataTransferProps
    {
        bool collective = false;

        void add(const UseCollectiveIO& u)
        {
            collective = u.on;
        }

        template <class T>
        void add(const T&)
        {
        }
    };

    template <class T>
    struct AtomicType
    {
        using type = T;
    };

    struct DataSpace
    {
        std::vector<std::size_t> dims;

        explicit DataSpace(const std::vector<std::size_t>& d)
            : dims(d)
        {
        }

        DataSpace(std::initializer_list<std::size_t> d)
            : dims(d)
        {
        }
    };

    struct DataSetCreateProps
    {
        template <class T>
        void add(const T&)
        {
        }
    };

    namespace detail
    {
        inline int nranks()
        {
#ifdef SAMURAI_WITH_MPI
            return simmpi::size();
#else
            return 1;
#endif
        }

        // a collective HDF5 operation: every rank must take part with the same description.
        // Returns true when the simulated storage fails the operation (the same outcome on every rank).
        inline bool collective(bool mpio, const std::string& what, const char* kind, double p)
        {
#ifdef SAMURAI_WITH_MPI
            if (mpio)
            {
                std::size_t pos;
                auto& c = simmpi::join("hdf5 " + what, "", -1, "", pos);
                if (c.joined == simmpi::size())
                {
                    bool f = simdisk::inject(kind, p, what);
                    simmpi::net()->colls[pos].data[0] = f ? "F" : "k";
                }
                simmpi::wait_everyone(pos, "hdf5 collective");
                return simmpi::net()->colls[pos].data[0] == "F";
            }
#else
            (void)mpio;
#endif
            sim::yield();
            return simdisk::inject(kind, p, what);
        }
    }

    class Selection
    {
      public:

        std::shared_ptr<simdisk::H5> f;
        std::string path;
        std::vector<std::size_t> off, cnt;
        bool mpio = false;

        template <class T, class U>
        void write_raw(const T* p, const AtomicType<U>&, const DataTransferProps& x = {}) const
        {
            // the memory datatype U tells HDF5 how to read the buffer
            const char* raw = reinterpret_cast<const char*>(p);
            bool bad        = detail::collective(mpio && x.collective, "write " + path, "h5_write_enospc", simdisk::disk().p_write);
            auto& d         = f->ds.at(path);
            std::size_t n   = 1;
            for (auto c : cnt)
            {
                n *= c;
            }
            if (cnt.size() != d.dims.size() || off.size() != d.dims.size())
            {
                throw DataSpaceException("rank of the selection differs from the rank of the dataset " + path);
            }
            if (n)
            {
                for (std::size_t k = 0; k < cnt.size(); ++k)
                {
                    if (off[k] + cnt[k] > d.dims[k])
                    {
                        throw DataSpaceException("selection out of the extent of dataset " + path);
                    }
                }
            }
            std::size_t limit = n;
            if (bad)
            {
                limit = n ? sim::choose_s(static_cast<uint32_t>(std::min<std::size_t>(n, 1000))) : 0; // torn write
            }
            std::vector<std::size_t> idx(cnt.size(), 0);
            for (std::size_t e = 0; e < limit; ++e)
            {
                std::size_t lin = 0;
                for (std::size_t k = 0; k < cnt.size(); ++k)
                {
                    lin = lin * d.dims[k] + off[k] + idx[k];
                }
                U val;
                std::memcpy(&val, raw + e * sizeof(U), sizeof(U));
                if (d.written[lin])
                {
                    sim::count("h5_overwritten_elements");
                }
                f->dirty       = true;
                d.v[lin]       = static_cast<long double>(val);
                d.written[lin] = 1;
                for (std::size_t k = cnt.size(); k-- > 0;)
                {
                    if (++idx[k] < cnt[k])
                    {
                        break;
                    }
                    idx[k] = 0;
                }
            }
            sim::log_event(sim::self(), "h5write", n, limit);
            if (bad)
            {
                throw DataSetException("simulated: no space left on device while writing " + path);
            }
        }

        template <class T>
        void write_raw(const T* p, const DataTransferProps& x = {}) const
        {
            write_raw(p, AtomicType<T>{}, x);
        }

        template <class C>
        void write(const C& c, const DataTransferProps& x = {}) const
        {
            write_raw(c.data(), x);
        }
    };

    class DataSet : public Selection
    {
      public:

        Selection select(const std::vector<std::size_t>& o, const std::vector<std::size_t>& c, const std::vector<std::size_t>& stride = {}) const
        {
            if (!stride.empty())
            {
                sim::finish(3, "internal", "strided selections are not simulated");
            }
            Selection s = *this;
            s.off       = o;
            s.cnt       = c;
            return s;
        }

        std::vector<std::size_t> getDimensions() const
        {
            return f->ds.at(path).dims;
        }
    };

    class File
    {
      public:

        enum : unsigned
        {
            ReadOnly  = 0,
            ReadWrite = 1,
            Truncate  = 2,
            Excl      = 4,
            Debug     = 8,
            Create    = 16,
            Overwrite = Truncate,
            OpenOrCreate = ReadWrite | Create
        };

        File() = default;

        explicit File(const std::string& name, unsigned flags = ReadOnly, const FileAccessProps& fapl = {})
            : m_name(name)
            , m_mpio(fapl.mpio)
        {
            open(flags);
        }

        File(File&& o) noexcept
            : m_name(std::move(o.m_name))
            , m_mpio(o.m_mpio)
            , m_f(std::move(o.m_f))
        {
            o.m_f.reset();
        }

        File& operator=(File&& o) noexcept
        {
            close();
            m_name = o.m_name;
            m_mpio = o.m_mpio;
            m_f    = o.m_f;
            o.m_f.reset();
            return *this;
        }

        ~File()
        {
            close();
        }

        void flush()
        {
            if (detail::collective(m_mpio, "flush " + m_name, "h5_flush_enospc", m_f->dirty ? simdisk::disk().p_flush : 0))
            {
                m_f->lost = true;
                throw FileException("simulated: unable to flush file " + m_name);
            }
            m_f->dirty = false;
        }

        std::string getName() const
        {
            return m_name;
        }

        bool exist(const std::string& p) const
        {
            return m_f->ds.count(norm(p)) || m_f->groups.count(norm(p));
        }

        void createGroup(const std::string& p, bool = true)
        {
            if (detail::collective(m_mpio, "group " + norm(p), "h5_create_eio", simdisk::disk().p_create))
            {
                throw GroupException("simulated: cannot create group " + p);
            }
            m_f->groups.insert(norm(p));
        }

        DataSet getDataSet(const std::string& p) const
        {
            if (!m_f->ds.count(norm(p)))
            {
                throw DataSetException("no dataset " + p);
            }
            DataSet d;
            d.f    = m_f;
            d.path = norm(p);
            d.mpio = m_mpio;
            d.cnt  = m_f->ds.at(d.path).dims;
            d.off.assign(d.cnt.size(), 0);
            return d;
        }

        template <class T>
        DataSet createDataSet(const std::string& p, const DataSpace& sp, const DataSetCreateProps& = {})
        {
            std::string desc = "create " + norm(p) + " " + typeid(T).name();
            for (auto x : sp.dims)
            {
                desc += " " + std::to_string(x);
            }
            bool bad  = detail::collective(m_mpio, desc, "h5_create_eio", simdisk::disk().p_create);
            auto path = norm(p);
            if (bad)
            {
                throw DataSetException("simulated: unable to create the dataset " + p);
            }
            auto it = m_f->ds.find(path);
            if (it != m_f->ds.end() && (!m_mpio || it->second.creators >= detail::nranks()))
            {
                throw DataSetException("unable to create the dataset \"" + p + "\": name already exists");
            }
            auto& d    = m_f->ds[path];
            m_f->dirty = true;
            if (d.creators == 0)
            {
                d.dims        = sp.dims;
                d.type        = typeid(T).name();
                std::size_t n = 1;
                for (auto x : sp.dims)
                {
                    n *= x;
                }
                d.v.assign(n, 0);
                d.written.assign(n, 0);
            }
            d.creators++;
            return getDataSet(path);
        }

        static std::string norm(const std::string& p)
        {
            std::string o = "/";
            for (char c : p)
            {
                if (c == '/' && o.back() == '/')
                {
                    continue;
                }
                o += c;
            }
            return o;
        }

      private:

        std::string m_name;
        bool m_mpio = false;
        std::shared_ptr<simdisk::H5> m_f;

        void open(unsigned flags)
        {
            if (!(flags & (Truncate | Create | ReadWrite)))
            {
                throw FileException("simulated: reading files is not supported by the stand-in");
            }
            bool bad = detail::collective(m_mpio, "open " + m_name, "h5_open_eacces", simdisk::disk().p_open);
            if (bad)
            {
                throw FileException("simulated: unable to open file " + m_name);
            }
            auto& slot = simdisk::disk().h5[m_name];
            if (!slot || slot->complete || (!m_mpio) || slot->opens >= detail::nranks())
            {
                auto fresh = std::make_shared<simdisk::H5>();
                if (slot && !(flags & Truncate)) // an existing file keeps what it holds
                {
                    if (flags & Excl)
                    {
                        throw FileException("unable to create file " + m_name + ": it exists");
                    }
                    fresh->ds     = slot->ds;
                    fresh->groups = slot->groups;
                    for (auto& d : fresh->ds)
                    {
                        d.second.creators = 1 << 30;
                    }
                }
                slot = fresh;
            }
            slot->opens++;
            m_f = slot;
        }

        void close()
        {
            if (!m_f)
            {
                return;
            }
#ifdef SAMURAI_WITH_MPI
            if (m_mpio && std::uncaught_exceptions() == 0)
            {
                std::size_t pos;
                simmpi::join("hdf5 close " + m_name, "", -1, "", pos);
                simmpi::wait_everyone(pos, "hdf5 close");
            }
#endif
            m_f->closes++;
            // closing writes what is still buffered; HighFive swallows the error of a close
            if (m_f->dirty && m_f->closes == (m_mpio ? detail::nranks() : 1) && simdisk::inject("h5_close_enospc", simdisk::disk().p_flush, m_name))
            {
                m_f->lost = true;
            }
            if (m_f->closes == detail::nranks() || !m_mpio)
            {
                m_f->complete = true;
            }
            m_f.reset();
        }
    };
} // namespace HighFive

namespace H5Easy
{
    using HighFive::File;
    using HighFive::DataSet;
    using HighFive::DataSpace;
    using HighFive::AtomicType;
}
