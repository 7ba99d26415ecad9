// Saving meshes and fields: simulated processes write through the simulated HDF5 layer and the simulated file system.
// Build with -DDIM=1|2|3 -DSAMURAI_WITH_MPI
#define SIM_INTERPOSE_FOPEN
#include "main.hpp"
#include "disk.hpp"
#include "model.hpp"
#include <boost/mpi.hpp>
#include <samurai/bc.hpp>
#include <samurai/field.hpp>
#include <samurai/hdf5.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>

constexpr std::size_t dim = DIM;
using Config              = samurai::MRConfig<dim>;
using Mesh                = samurai::MRMesh<Config>;
using mesh_id_t           = Mesh::mesh_id_t;
using UConfig             = samurai::UniformConfig<dim>;
using UMesh               = samurai::UniformMesh<UConfig>;

using Bits = std::map<std::string, uint64_t>; // field name -> value as bits of a double

static uint64_t bits(double x)
{
    if (std::isnan(x))
    {
        return 0x7ff8000000000000ull;
    }
    uint64_t z;
    std::memcpy(&z, &x, 8);
    return z;
}

struct Want
{
    std::multimap<Key, Bits> cells;
    std::vector<std::string> names;
    std::string file; // without extension
    std::string what;
    int returned = 0, failed = 0, ranks = 1;
    uint64_t errors_before = 0;
};

struct P
{
    int ranks, minl, maxl;
    std::array<double, 3> lo{0, 0, 0};
    double unit = 1;
    std::array<int, 3> aspect{1, 1, 1};
    double c[3];
    bool faults = false;
};

struct SaveOp
{
    int change;  // 0 none, 1 modify, 2 adapt
    int kind;    // 0 MR with fields, 1 MR without fields, 2 cell array of the leaves, 3 leaves of one level, 4 uniform mesh with a field
    bool by_level, by_id;
    int name;    // which file
    bool with_path;
    bool all_fields;
};

static double dimless(const P& p, double x, std::size_t d)
{
    return (x - p.lo[d]) / p.unit;
}

template <class Cell>
static Key key_of(const P& p, const Cell& cell)
{
    Key k{static_cast<int>(cell.level), 0, 0, 0};
    for (std::size_t d = 0; d < dim; ++d)
    {
        k[d + 1] = static_cast<int>(std::llround(dimless(p, cell.center(d), d) * (1 << cell.level) - 0.5));
    }
    return k;
}

// reads back what the simulated disk holds and compares it with what was asked to be saved.
// Returns "" or what is wrong
static std::string verify(const P& p, const Want& w)
{
    auto& D = simdisk::disk();
    auto hf = D.h5.find(w.file + ".h5");
    auto xf = D.bytes.find(w.file + ".xdmf");
    if (hf == D.h5.end())
    {
        return "no HDF5 file";
    }
    if (xf == D.bytes.end())
    {
        return "no XDMF file";
    }
    auto& H = *hf->second;
    if (!H.complete)
    {
        return "the HDF5 file was not closed by every process";
    }
    if (H.lost)
    {
        return "the medium refused part of the HDF5 file when it was flushed or closed";
    }
    for (auto& [n, d] : H.ds)
    {
        for (char c : d.written)
        {
            if (!c)
            {
                return "dataset " + n + " is only partly written";
            }
        }
    }
    pugi::xml_document doc;
    if (!doc.load_buffer(xf->second.data(), xf->second.size()))
    {
        return "the XDMF file is not well-formed XML (" + std::to_string(xf->second.size()) + " bytes)";
    }
    std::string h5name = w.file.substr(w.file.rfind('/') + 1) + ".h5:";
    std::string err;
    auto data = [&](pugi::xml_node item, std::size_t want) -> const simdisk::Dataset*
    {
        std::string t = item.text().get();
        if (t.compare(0, h5name.size(), h5name) != 0)
        {
            err = "the XDMF file refers to " + t;
            return nullptr;
        }
        auto it = H.ds.find(t.substr(h5name.size()));
        if (it == H.ds.end())
        {
            err = "the XDMF file refers to a dataset that does not exist: " + t;
            return nullptr;
        }
        if (want != std::size_t(-1) && it->second.v.size() != want)
        {
            err = "dataset " + t + " has " + std::to_string(it->second.v.size()) + " values, expected " + std::to_string(want);
            return nullptr;
        }
        std::size_t n = 1;
        std::istringstream is(item.attribute("Dimensions").value());
        std::size_t f;
        while (is >> f)
        {
            n *= f;
        }
        if (n != it->second.v.size())
        {
            err = "the XDMF file announces " + std::to_string(n) + " values for " + t + " which has " + std::to_string(it->second.v.size());
            return nullptr;
        }
        return &it->second;
    };
    std::multimap<Key, Bits> got;
    std::function<void(pugi::xml_node)> walk = [&](pugi::xml_node g)
    {
        auto topo = g.child("Topology");
        if (topo && err.empty())
        {
            static const char* types[] = {"", "Polyline", "Quadrilateral", "Hexahedron"};
            constexpr std::size_t npt  = 1 << dim;
            std::size_t n              = topo.attribute("NumberOfElements").as_ullong();
            if (std::string(topo.attribute("TopologyType").value()) != types[dim])
            {
                err = std::string("element type ") + topo.attribute("TopologyType").value();
                return;
            }
            auto* con = data(topo.child("DataItem"), n * npt);
            auto* pts = con ? data(g.child("Geometry").child("DataItem"), std::size_t(-1)) : nullptr;
            if (!pts)
            {
                return;
            }
            std::map<std::string, const simdisk::Dataset*> at;
            for (auto a : g.children("Attribute"))
            {
                auto* x = data(a.child("DataItem"), n);
                if (!x)
                {
                    return;
                }
                if (!at.emplace(a.attribute("Name").value(), x).second)
                {
                    err = std::string("attribute ") + a.attribute("Name").value() + " appears twice";
                    return;
                }
            }
            if (at.size() != w.names.size())
            {
                err = std::to_string(at.size()) + " attributes instead of " + std::to_string(w.names.size());
                return;
            }
            for (auto& nm : w.names)
            {
                if (!at.count(nm))
                {
                    err = "attribute " + nm + " is missing";
                    return;
                }
            }
            std::size_t np = pts->v.size() / 3;
            for (std::size_t e = 0; e < n; ++e)
            {
                double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
                double q[npt][3];
                for (std::size_t i = 0; i < npt; ++i)
                {
                    auto id = static_cast<std::size_t>(con->v[e * npt + i]);
                    if (id >= np)
                    {
                        err = "element " + std::to_string(e) + " refers to point " + std::to_string(id) + " of " + std::to_string(np);
                        return;
                    }
                    for (std::size_t d = 0; d < 3; ++d)
                    {
                        q[i][d] = static_cast<double>(pts->v[id * 3 + d]);
                        lo[d]   = std::min(lo[d], q[i][d]);
                        hi[d]   = std::max(hi[d], q[i][d]);
                    }
                }
                // the corners in the order the element type prescribes
                static const int order[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
                Key k{0, 0, 0, 0};
                double len = (hi[0] - lo[0]) / p.unit;
                int lev    = static_cast<int>(std::llround(-std::log2(len)));
                bool good  = len > 0 && std::abs(len * (1 << std::max(lev, 0)) - 1) < 1e-9 && lev >= 0;
                k[0]       = lev;
                for (std::size_t d = 0; d < dim && good; ++d)
                {
                    double x = dimless(p, lo[d], d) * (1 << lev);
                    k[d + 1] = static_cast<int>(std::llround(x));
                    good     = std::abs(x - k[d + 1]) < 1e-6 && std::abs((hi[d] - lo[d]) / p.unit - len) < 1e-9 * len;
                    for (std::size_t i = 0; i < npt && good; ++i)
                    {
                        good = std::abs(q[i][d] - (order[i][d] ? hi[d] : lo[d])) < 1e-9 * (1 + std::abs(lo[d]));
                    }
                }
                if (!good)
                {
                    err = "element " + std::to_string(e) + " is not a cell of the grid";
                    return;
                }
                Bits b;
                for (auto& [nm, x] : at)
                {
                    b[nm] = bits(static_cast<double>(x->v[e]));
                }
                got.emplace(k, std::move(b));
            }
        }
        for (auto c : g.children("Grid"))
        {
            walk(c);
        }
    };
    auto domain = doc.child("Xdmf").child("Domain");
    walk(domain);
    if (!err.empty())
    {
        return err;
    }
    auto flat = [](const std::multimap<Key, Bits>& m)
    {
        std::vector<std::pair<Key, Bits>> o(m.begin(), m.end());
        std::sort(o.begin(), o.end());
        return o;
    };
    auto a = flat(got), b = flat(w.cells);
    sim::count("saved_cells_checked", b.size());
    std::size_t i = 0;
    for (; i < a.size() && i < b.size() && a[i] == b[i]; ++i)
    {
    }
    if (i < a.size() || i < b.size())
    {
        std::string z = "the file holds " + std::to_string(a.size()) + " cells, " + std::to_string(b.size()) + " were to be saved; ";
        if (i < a.size() && i < b.size() && a[i].first == b[i].first)
        {
            for (auto& [nm, v] : b[i].second)
            {
                if (a[i].second.at(nm) != v)
                {
                    double x, y;
                    std::memcpy(&x, &a[i].second.at(nm), 8);
                    std::memcpy(&y, &v, 8);
                    char t[160];
                    std::snprintf(t, sizeof t, "%s in cell %s is %.17g in the file, %.17g in the field", nm.c_str(), show(b[i].first).c_str(), x, y);
                    return z + t;
                }
            }
        }
        return z + "first difference: file " + (i < a.size() ? show(a[i].first) : std::string("end")) + ", mesh " + (i < b.size() ? show(b[i].first) : std::string("end"));
    }
    return "";
}

static void body()
{
    P p;
    p.ranks  = 1 + static_cast<int>(sim::choose_w(5));
    p.minl   = sim::range_w(1, dim == 3 ? 2 : 3);
    p.maxl   = p.minl + sim::range_w(0, dim == 3 ? 1 : 3);
    p.faults = sim::relevant("C11") && !sim::relevant("C10") ? sim::choose_w(6) != 0 : false;
    int shape = static_cast<int>(sim::choose_w(4));
    if (shape == 1)
    {
        p.unit = 2;
        p.lo   = {-1, -1, -1};
    }
    else if (shape == 2)
    {
        p.unit   = 0.5;
        p.aspect = {dim > 1 ? 2 : 1, 1, 1};
        p.lo     = {0.25, -0.75, 3};
    }
    else if (shape == 3)
    {
        p.aspect = {1, dim == 2 ? 2 : 1, 1};
    }
    for (auto& x : p.c)
    {
        x = 0.1 * sim::range_w(1, 9) + 0.00317;
    }
    int nops = 1 + static_cast<int>(sim::choose_w(4));
    std::vector<SaveOp> ops;
    std::string names;
    for (int k = 0; k < nops; ++k)
    {
        SaveOp o;
        o.change     = k == 0 ? 2 : static_cast<int>(sim::choose_w(3));
        o.kind       = static_cast<int>(sim::choose_w(8));
        o.kind       = o.kind > 4 ? 0 : o.kind;
        o.by_level   = sim::choose_w(2);
        o.by_id      = sim::choose_w(2);
        o.name       = static_cast<int>(sim::choose_w(2));
        o.with_path  = sim::choose_w(2);
        o.all_fields = sim::choose_w(3) != 0;
        ops.push_back(o);
        static const char* kn[] = {"mr+fields", "mr", "cell-array", "level-cell-array", "uniform+field"};
        static const char* cn[] = {"", "modify,", "adapt,"};
        names += std::string(" [") + cn[o.change] + "save " + kn[o.kind] + (o.by_level ? " by level" : "") + (o.by_id ? " by mesh id" : "") + "]";
        sim::count(std::string("save_") + kn[o.kind]);
    }
    char b[200];
    std::snprintf(b, sizeof b, "dim %d levels %d-%d ranks %d shape %d%s:", DIM, p.minl, p.maxl, p.ranks, shape, p.faults ? " faults" : "");
    sim::W().sample = b + names;
    static const unsigned char fills[] = {0, 0xff, 0x7b, 0xc1};
    sim::g_fill = fills[sim::choose_w(4)];

    auto& D     = simdisk::disk();
    D           = simdisk::Disk{};
    D.intercept = true;
    if (p.faults)
    {
        // one or two kinds of storage fault per run, so that each kind also strikes alone
        auto pick = [&]()
        {
            double rate = sim::choose_w(2) ? 0.3 : 0.03;
            switch (sim::choose_w(7))
            {
                case 0: D.p_open = rate; break;
                case 1: D.p_create = rate / 3; break;
                case 2: D.p_write = rate / 3; break;
                case 3: D.p_flush = 2 * rate; break;
                case 4: D.p_xopen = 2 * rate; break;
                case 5: D.p_xwrite = 2 * rate; break;
                default: D.p_xclose = 2 * rate; break;
            }
        };
        pick();
        if (sim::choose_w(3) == 0)
        {
            pick();
        }
    }
    std::vector<Want> wants(ops.size());
    simmpi::Net net(p.ranks);
    simmpi::net() = &net;
    sim::Sched sc;
    sc.env_events = simmpi::env_events;
    std::vector<samurai::Timers> tm(p.ranks);
    auto sw = [&](int r)
    {
        std::swap(samurai::times::timers, tm[r]);
    };
    sc.switch_in  = sw;
    sc.switch_out = sw;
    for (int r = 0; r < p.ranks; ++r)
    {
        auto f  = std::make_unique<sim::Fiber>();
        f->id   = r;
        f->body = [&, r]()
        {
            xt::xtensor_fixed<double, xt::xshape<dim>> mn, mx;
            for (std::size_t d = 0; d < dim; ++d)
            {
                mn[d] = p.lo[d];
                mx[d] = p.lo[d] + p.unit * p.aspect[d];
            }
            samurai::Box<double, dim> box(mn, mx);
            Mesh mesh{box, static_cast<std::size_t>(p.minl), static_cast<std::size_t>(p.maxl)};
            auto u  = samurai::make_field<double, 1>("u", mesh);
            auto v  = samurai::make_field<double, 2>("vel", mesh);
            auto lv = samurai::make_field<int, 1>("level", mesh);
            u.fill(0.);
            v.fill(0.);
            auto set = [&](double shift)
            {
                samurai::for_each_cell(mesh,
                                       [&](auto& cell)
                                       {
                                           double q = 0;
                                           for (std::size_t d = 0; d < dim; ++d)
                                           {
                                               double z = dimless(p, cell.center(d), d) / p.aspect[d] - p.c[d] - shift;
                                               q += z * z;
                                           }
                                           u[cell]    = std::exp(-50 * q);
                                           v[cell][0] = q + shift;
                                           v[cell][1] = std::sin(10 * q);
                                       });
            };
            set(0);
            samurai::make_bc<samurai::Neumann<1>>(u, 0.);
            samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
            auto adapt = samurai::make_MRAdapt(u);
            // under MPI a uniform mesh is one per process; each process gets a strip of its own
            auto ubox = box;
            UMesh um{ubox, static_cast<std::size_t>(p.minl)};
            auto uf = samurai::make_field<double, 1>("uf", um);
            samurai::for_each_cell(um[samurai::UniformMeshId::cells_and_ghosts],
                                   [&](auto& cell)
                                   {
                                       uf[cell] = 100. * r + cell.center(0);
                                   });
            for (std::size_t o = 0; o < ops.size(); ++o)
            {
                const SaveOp& op = ops[o];
                Want& w          = wants[o];
                if (r == 0)
                {
                    sim::W().phase = "operation " + std::to_string(o);
                }
                if (op.change == 1)
                {
                    set(0.05 * double(o));
                }
                else if (op.change == 2)
                {
                    if (o)
                    {
                        set(0.05 * double(o));
                    }
                    adapt(1e-3, 1., v);
                }
                lv.resize();
                lv.fill(0);
                samurai::for_each_cell(mesh,
                                       [&](auto& cell)
                                       {
                                           lv[cell] = static_cast<int>(cell.level) + 1000 * r;
                                       });
                // what this process asks to be saved
                w.ranks                 = p.ranks;
                std::string dir         = op.with_path ? "/data/run" : "/simulated";
                std::string nm          = op.name ? "other" : "state";
                w.file                  = dir + "/" + nm;
                w.names.clear();
                auto& leaves = mesh[mesh_id_t::cells];
                std::vector<const std::decay_t<decltype(leaves)>*> parts{&leaves};
                if (op.kind < 2 && op.by_id)
                {
                    parts.clear();
                    for (std::size_t i = 0; i < static_cast<std::size_t>(mesh_id_t::count); ++i)
                    {
                        parts.push_back(&mesh[static_cast<mesh_id_t>(i)]);
                    }
                }
                bool fu = op.kind == 0, fv = op.kind == 0 && op.all_fields;
                if (fu)
                {
                    w.names.push_back("u");
                }
                if (fv)
                {
                    w.names.insert(w.names.end(), {"vel_0", "vel_1", "level"});
                }
                auto add = [&](const auto& part)
                {
                    samurai::for_each_cell(part,
                                           [&](auto& cell)
                                           {
                                               Bits q;
                                               if (fu)
                                               {
                                                   q["u"] = bits(u[cell]);
                                               }
                                               if (fv)
                                               {
                                                   q["vel_0"] = bits(v[cell][0]);
                                                   q["vel_1"] = bits(v[cell][1]);
                                                   q["level"] = bits(lv[cell]);
                                               }
                                               if (op.by_level && static_cast<int>(cell.level) < p.minl - 1)
                                               {
                                                   return; // grouped by level: from one below the minimum level up
                                               }
                                               w.cells.emplace(key_of(p, cell), q);
                                           });
                };
                std::size_t one = static_cast<std::size_t>(p.minl + (p.maxl - p.minl) / 2);
                if (op.kind < 3)
                {
                    for (auto* m : parts)
                    {
                        add(*m);
                    }
                }
                else if (op.kind == 3)
                {
                    if (leaves[one].nb_cells())
                    {
                        add(leaves[one]);
                    }
                }
                else
                {
                    w.names.push_back("uf");
                    auto addu = [&](const auto& part)
                    {
                        samurai::for_each_cell(part,
                                               [&](auto& cell)
                                               {
                                                   w.cells.emplace(key_of(p, cell), Bits{{"uf", bits(uf[cell])}});
                                               });
                    };
                    addu(um[samurai::UniformMeshId::cells]);
                    if (op.by_id)
                    {
                        addu(um[samurai::UniformMeshId::cells_and_ghosts]);
                    }
                }
                bool failed = false;
                std::string why;
                fs::path pth = dir;
                try
                {
                    samurai::Hdf5Options<samurai::Mesh_base<Mesh, Config>> opt(op.by_level, op.by_id);
                    if (op.kind == 0 && op.all_fields)
                    {
                        if (!op.with_path)
                        {
                            op.by_level || op.by_id ? samurai::save(nm, opt, mesh, u, v, lv) : samurai::save(nm, mesh, u, v, lv);
                        }
                        else
                        {
                            op.by_level || op.by_id ? samurai::save(pth, nm, opt, mesh, u, v, lv) : samurai::save(pth, nm, mesh, u, v, lv);
                        }
                    }
                    else if (op.kind == 0)
                    {
                        op.with_path ? samurai::save(pth, nm, opt, mesh, u) : samurai::save(nm, opt, mesh, u);
                    }
                    else if (op.kind == 1)
                    {
                        op.with_path ? samurai::save(pth, nm, opt, mesh) : samurai::save(nm, opt, mesh);
                    }
                    else if (op.kind == 2)
                    {
                        samurai::Hdf5Options<Mesh::ca_type> co(op.by_level, op.by_id);
                        op.with_path ? samurai::save(pth, nm, co, leaves) : samurai::save(nm, co, leaves);
                    }
                    else if (op.kind == 3)
                    {
                        samurai::Hdf5Options<Mesh::lca_type> co(false, op.by_id);
                        op.with_path ? samurai::save(pth, nm, co, leaves[one]) : samurai::save(nm, co, leaves[one]);
                    }
                    else
                    {
                        samurai::Hdf5Options<UMesh> co(op.by_id);
                        op.with_path ? samurai::save(pth, nm, co, um, uf) : samurai::save(nm, co, um, uf);
                    }
                }
                catch (const std::exception& e)
                {
                    failed = true;
                    why    = e.what();
                }
                w.failed += failed;
                w.returned++;
                std::string what = "save " + std::to_string(o) + " of " + w.file + " by " + std::to_string(p.ranks) + " processes: ";
                if (failed && D.injected.empty())
                {
                    sim::violation("C10", "save-fails", what + "process " + std::to_string(r) + " got an exception although the storage works: " + why);
                }
                if (w.returned == p.ranks)
                {
                    bool hit        = !D.injected.empty();
                    std::string bad = w.failed == p.ranks ? "" : verify(p, w);
                    if (!hit)
                    {
                        sim::nontrivial("C10");
                        if (!bad.empty())
                        {
                            sim::violation("C10", "saved-content", what + bad);
                        }
                    }
                    else
                    {
                        sim::nontrivial("C11");
                        sim::count(w.failed ? "failed_saves_reported" : "failed_saves_harmless");
                        if (!bad.empty())
                        {
                            sim::violation("C11", "silent-save-failure", what + "it returned normally on " + std::to_string(p.ranks - w.failed) + " processes although "
                                           + D.injected[0] + " was injected: " + bad);
                        }
                    }
                    D.injected.clear();
                    sim::log_state(w.cells.size());
                }
            }
        };
        sc.fibers.push_back(std::move(f));
    }
    sim::run_fibers(sc);
    simmpi::final_check();
}

int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, "io", body);
}
