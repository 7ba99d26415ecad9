// One process whose memory is the adversary: contents of fresh heap and stack memory are chosen by the run (C14), and any
// allocation can fail (C13). Build with -DDIM=1|2|3
#include "main.hpp"
#include "model.hpp"
#include <samurai/amr/mesh.hpp>
#include <samurai/algorithm/graduation.hpp>
#include <samurai/algorithm/update.hpp>
#include <samurai/bc.hpp>
#include <samurai/field.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/schemes/fv.hpp>
#include <samurai/stencil_field.hpp>
#include <samurai/uniform_mesh.hpp>

constexpr std::size_t dim = DIM;
#ifndef GRAD
#define GRAD 1
#endif

enum Kind
{
    k_adapt,
    k_modify,
    k_ghost,
    k_upwind,
    k_diffusion,
    k_subset,
    k_copy,
    k_kinds
};

static const char* kind_name[] = {"adapt", "modify", "ghost", "upwind", "diffusion", "subset-loop", "copy"};

struct Op
{
    int kind;
    double eps, reg, x;
    int fn;
};

struct Params
{
    Domain D;
    int mesh; // 0 multiresolution, 1 AMR, 2 uniform
    bool two; // a second field is carried along
    std::array<double, 3> c{};
    std::vector<Op> ops;
};

struct Fail
{
    int op           = -1; // in which operation (-1: none)
    uint64_t at      = 0;  // which allocation of it
    uint64_t burst   = 1;
};

struct Snap
{
    LeafMap leaf;
    LeafMap ghost; // after a ghost update: the cells around the leaves of the same level
    double aux = 0;
};

struct Outcome
{
    std::vector<Snap> h;
    std::vector<uint64_t> allocs; // per operation
    bool failed = false, reported = false;
    Snap before, after; // around the failed operation
};

static double fval(const Params& p, int fn, double shift, const double* x)
{
    double r = 0, s = 0;
    for (std::size_t d = 0; d < dim; ++d)
    {
        double y = x[d] / p.D.aspect[d];
        double z = y - p.c[d] - shift;
        r += z * z;
        s += (3 + d) * y;
    }
    switch (fn)
    {
        case 0:
            return r < 0.07 ? 1. : 0.;
        case 1:
            return std::exp(-50 * r);
        case 2:
            return std::sin(s + shift) + (r < 0.1 ? 1 : 0);
        default:
            return std::cos(s);
    }
}

template <class Cell>
static void center_of(const Cell& cell, double* x)
{
    for (std::size_t d = 0; d < dim; ++d)
    {
        x[d] = cell.center(d);
    }
}

template <class Mesh, class Field, class Field2>
struct Program
{
    const Params& p;
    Mesh& mesh;
    Field &u, &un;
    Field2& v;
    Outcome& out;

    using mesh_id_t = typename Mesh::mesh_id_t;

    Snap snap(bool carried)
    {
        Snap s;
        samurai::for_each_cell(mesh,
                               [&](auto& cell)
                               {
                                   double x[3] = {0, 0, 0};
                                   center_of(cell, x);
                                   Key k{static_cast<int>(cell.level), 0, 0, 0};
                                   for (std::size_t d = 0; d < dim; ++d)
                                   {
                                       k[d + 1] = static_cast<int>(std::llround(x[d] / cell.length - 0.5));
                                   }
                                   Vals w{};
                                   w[0] = u[cell];
                                   if (carried)
                                   {
                                       w[1] = v[cell][0];
                                       w[2] = v[cell][1];
                                   }
                                   if (!s.leaf.emplace(k, w).second)
                                   {
                                       sim::violation("C13", "tiling", "leaf " + show(k) + " appears twice");
                                   }
                               });
        return s;
    }

    LeafMap ghosts(const LeafMap& leaf)
    {
        LeafMap g;
        samurai::for_each_cell(mesh[mesh_id_t::cells_and_ghosts],
                               [&](auto& cell)
                               {
                                   double x[3] = {0, 0, 0};
                                   center_of(cell, x);
                                   Key k{static_cast<int>(cell.level), 0, 0, 0};
                                   for (std::size_t d = 0; d < dim; ++d)
                                   {
                                       k[d + 1] = static_cast<int>(std::llround(x[d] / cell.length - 0.5));
                                   }
                                   bool near = false;
                                   for (int m = 0; m < (dim == 1 ? 3 : dim == 2 ? 9 : 27) && !near; ++m)
                                   {
                                       Key q = k;
                                       for (int d = 0, t = m; d < int(dim); ++d, t /= 3)
                                       {
                                           q[d + 1] += t % 3 - 1;
                                       }
                                       near = leaf.count(q);
                                   }
                                   if (near)
                                   {
                                       Vals w{};
                                       w[0] = u[cell];
                                       if (p.two)
                                       {
                                           w[1] = v[cell][0];
                                           w[2] = v[cell][1];
                                       }
                                       g[k] = w;
                                   }
                               });
        return g;
    }

    void set(int fn, double shift, double mix)
    {
        samurai::for_each_cell(mesh,
                               [&](auto& cell)
                               {
                                   double x[3] = {0, 0, 0};
                                   center_of(cell, x);
                                   double f = fval(p, fn, shift, x);
                                   u[cell]  = mix == 0 ? f : mix * u[cell] + (1 - mix) * f;
                                   if (p.two)
                                   {
                                       v[cell][0] = fval(p, fn + 1, shift, x);
                                       v[cell][1] = fval(p, fn, shift + 0.1, x);
                                   }
                               });
    }
};

template <class Prog, class Adapt, class Ghost>
static void play(const Params& p, const Fail& fail, Prog& P, Outcome& out, Adapt&& adapt, Ghost&& ghost)
{
    auto& mesh     = P.mesh;
    auto& u        = P.u;
    auto& un       = P.un;
    using Mesh     = std::decay_t<decltype(mesh)>;
    using mesh_id_t = typename Mesh::mesh_id_t;
    out.h.push_back(P.snap(p.two));
    for (std::size_t o = 0; o < p.ops.size(); ++o)
    {
        const Op& op   = p.ops[o];
        sim::W().phase = "op " + std::to_string(o) + " " + kind_name[op.kind];
        double aux     = 0;
        auto once      = [&]()
        {
            switch (op.kind)
            {
                case k_adapt:
                    adapt(op);
                    break;
                case k_modify:
                    P.set(op.fn, 0.05 * double(o + 1), 0.5);
                    break;
                case k_ghost:
                    ghost();
                    break;
                case k_upwind:
                {
                    ghost();
                    un.resize();
                    double dt = 0.2 / (1 << p.D.maxl);
                    if constexpr (dim == 1)
                    {
                        un = u - dt * samurai::upwind(1.0, u);
                    }
                    else
                    {
                        std::array<double, dim> a;
                        for (std::size_t d = 0; d < dim; ++d)
                        {
                            a[d] = d == 1 ? -0.7 : 1.0 - 0.3 * double(d);
                        }
                        un = u - dt * samurai::upwind(a, u);
                    }
                    std::swap(u.array(), un.array());
                    break;
                }
                case k_diffusion:
                {
                    ghost();
                    if constexpr (!std::is_same_v<mesh_id_t, samurai::UniformMeshId>)
                    {
                        auto diff = samurai::make_diffusion_order2<std::decay_t<decltype(u)>>();
                        un.resize();
                        un = u - (0.1 / (1 << (2 * p.D.maxl))) * diff(u);
                        std::swap(u.array(), un.array());
                    }
                    break;
                }
                case k_subset: // leaves of one level that are next to a coarser leaf (or all of them)
                {
                    if constexpr (!std::is_same_v<mesh_id_t, samurai::UniformMeshId>)
                    {
                        for (int l = p.D.minl; l <= p.D.maxl; ++l)
                        {
                            auto lev      = static_cast<std::size_t>(l);
                            auto& leaves  = mesh[mesh_id_t::cells];
                            auto& support = mesh[mesh_id_t::cells_and_ghosts];
                            if (leaves[lev].empty() || support[lev].empty())
                            {
                                continue;
                            }
                            auto set = samurai::intersection(leaves[lev], support[lev]);
                            samurai::for_each_cell(leaves[lev],
                                                   set,
                                                   [&](auto& cell)
                                                   {
                                                       u[cell] += 0.001 * cell.center(0);
                                                       if (p.two)
                                                       {
                                                           P.v[cell][1] += 0.002;
                                                       }
                                                   });
                            auto set2 = samurai::intersection(leaves[lev], support[lev]);
                            samurai::for_each_cell(mesh,
                                                   set2,
                                                   [&](auto& cell)
                                                   {
                                                       aux += u[cell] * std::pow(cell.length, double(dim));
                                                   });
                        }
                    }
                    break;
                }
                case k_copy:
                {
                    auto w = u; // a copy of the field keeps its values whatever happens to the original
                    samurai::for_each_cell(mesh,
                                           [&](auto& cell)
                                           {
                                               aux += w[cell] * std::pow(cell.length, double(dim));
                                           });
                    un.resize();
                    un = u + 0.5 * w;
                    u  = un - 0.5 * w;
                    break;
                }
            }
        };
        bool hit            = fail.op == static_cast<int>(o);
        out.before          = hit ? P.snap(p.two) : Snap{};
        sim::g_alloc_count  = 0;
        sim::g_alloc_failed = 0;
        sim::g_alloc_fail_at = hit ? fail.at : 0;
        sim::g_alloc_burst   = fail.burst;
        bool caught          = false;
        std::string other;
        sim::g_alloc_armed = true;
        try
        {
            once();
        }
        catch (const std::bad_alloc&)
        {
            sim::g_alloc_armed = false;
            caught             = true;
        }
        catch (const std::exception& e)
        {
            sim::g_alloc_armed = false;
            caught             = true;
            other              = e.what();
        }
        sim::g_alloc_armed = false;
        out.allocs.push_back(sim::g_alloc_count);
        if (caught && !sim::g_alloc_failed)
        {
            sim::violation("*", "exception", std::string("an exception although nothing failed: ") + other);
        }
        if (hit && sim::g_alloc_failed)
        {
            out.failed = true;
            sim::count("fault:allocation_failure");
            if (caught)
            {
                out.reported   = true;
                sim::W().phase = "state after allocation failure in op " + std::to_string(o) + " " + kind_name[op.kind];
                out.after      = P.snap(p.two);
                return;
            }
            sim::count("allocation_failure_absorbed");
        }
        out.h.push_back(P.snap(p.two));
        out.h.back().aux = aux;
        if (op.kind == k_ghost && p.mesh == 1 && sim::relevant("C04"))
        {
            out.h.back().ghost = P.ghosts(out.h.back().leaf);
        }
    }
}

static Outcome run(const Params& p, const Fail& fail)
{
    Outcome out;
    sim::Sched sc;
    auto f  = std::make_unique<sim::Fiber>();
    f->id   = 0;
    f->body = [&]()
    {
        xt::xtensor_fixed<double, xt::xshape<dim>> mn, mx;
        for (std::size_t d = 0; d < dim; ++d)
        {
            mn[d] = 0;
            mx[d] = p.D.aspect[d];
        }
        samurai::Box<double, dim> box(mn, mx);
        auto bc = [&](auto& u, auto& v)
        {
            if (p.D.bc == BcKind::neumann0)
            {
                samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
            }
            else
            {
                samurai::make_bc<samurai::Dirichlet<1>>(u, p.D.bcval);
                samurai::make_bc<samurai::Dirichlet<1>>(v, p.D.bcval, p.D.bcval);
            }
        };
        auto go = [&](auto& mesh, auto&& mk_adapt, auto&& ghosts)
        {
            using Mesh = std::decay_t<decltype(mesh)>;
            auto u     = samurai::make_field<double, 1>("u", mesh);
            auto v     = samurai::make_field<double, 2>("v", mesh);
            auto un    = samurai::make_field<double, 1>("un", mesh);
            Program<Mesh, decltype(u), decltype(v)> P{p, mesh, u, un, v, out};
            P.set(p.ops.empty() ? 0 : p.ops[0].fn, 0, 0);
            bc(u, v);
            if constexpr (!std::is_same_v<typename Mesh::mesh_id_t, samurai::UniformMeshId>)
            {
                samurai::make_bc<samurai::Neumann<1>>(un, 0.);
            }
            play(p, fail, P, out, mk_adapt(u, v), [&]() { ghosts(u, v); });
        };
        if (p.mesh == 0)
        {
            using Mesh = samurai::MRMesh<samurai::MRConfig<dim>>;
            Mesh mesh{box, static_cast<std::size_t>(p.D.minl), static_cast<std::size_t>(p.D.maxl)};
            go(
                mesh,
                [&](auto& u, auto& v)
                {
                    return [&u, &v, &p, ad = samurai::make_MRAdapt(u)](const Op& op) mutable
                    {
                        if (p.two)
                        {
                            ad(op.eps, op.reg, v);
                        }
                        else
                        {
                            ad(op.eps, op.reg);
                        }
                    };
                },
                [&](auto& u, auto& v)
                {
                    if (p.two)
                    {
                        samurai::update_ghost_mr(u, v);
                    }
                    else
                    {
                        samurai::update_ghost_mr(u);
                    }
                });
        }
        else
        {
            using Mesh = samurai::amr::Mesh<samurai::amr::Config<dim>>;
            Mesh mesh{box, static_cast<std::size_t>(p.D.maxl), static_cast<std::size_t>(p.D.minl), static_cast<std::size_t>(p.D.maxl)};
            go(
                mesh,
                [&](auto& u, auto& v)
                {
                    return [&u, &v, &p, &mesh](const Op& op)
                    {
                        auto tag = samurai::make_field<int, 1>("tag", mesh);
                        // every offset in a 5^dim box: leaves that far apart differ by at most one level
                        constexpr std::size_t wid = 2 * GRAD + 1, ns = dim == 1 ? wid : dim == 2 ? wid * wid : wid * wid * wid;
                        xt::xtensor_fixed<int, xt::xshape<ns, dim>> st;
                        for (std::size_t k = 0; k < ns; ++k)
                        {
                            std::size_t r = k;
                            for (std::size_t d = 0; d < dim; ++d, r /= wid)
                            {
                                st(k, d) = static_cast<int>(r % wid) - GRAD;
                            }
                        }
                        for (int it = 0; it < 6; ++it)
                        {
                            if (p.two)
                            {
                                samurai::update_ghost(u, v);
                            }
                            else
                            {
                                samurai::update_ghost(u);
                            }
                            tag.resize();
                            tag.fill(static_cast<int>(samurai::CellFlag::keep));
                            samurai::for_each_cell(mesh,
                                                   [&](auto& cell)
                                                   {
                                                       double x[3] = {0, 0, 0};
                                                       center_of(cell, x);
                                                       double r = 0;
                                                       for (std::size_t d = 0; d < dim; ++d)
                                                       {
                                                           double z = x[d] - op.x * p.D.aspect[d];
                                                           r += z * z;
                                                       }
                                                       bool near = r < 0.03 + 4 * cell.length * cell.length;
                                                       auto flag = near ? samurai::CellFlag::refine : samurai::CellFlag::coarsen;
                                                       uint64_t z = static_cast<uint64_t>(op.x * 64);
                                                       if (z % 2) // flags without any order
                                                       {
                                                           z = z * 1000003u + static_cast<uint64_t>(it) * 31 + cell.level;
                                                           for (std::size_t d = 0; d < dim; ++d)
                                                           {
                                                               z = (z ^ static_cast<uint64_t>(x[d] / cell.length)) * 0x9e3779b97f4a7c15ull;
                                                               z ^= z >> 29;
                                                           }
                                                           flag = z % 16 == 0 ? samurai::CellFlag::refine : z % 16 < 12 ? samurai::CellFlag::coarsen : samurai::CellFlag::keep;
                                                       }
                                                       tag[cell] = static_cast<int>(flag);
                                                   });
                            samurai::graduation(tag, st);
                            bool same = p.two ? samurai::update_field(tag, u, v) : samurai::update_field(tag, u);
                            if (same)
                            {
                                break;
                            }
                        }
                    };
                },
                [&](auto& u, auto& v)
                {
                    if (p.two)
                    {
                        samurai::update_ghost(u, v);
                    }
                    else
                    {
                        samurai::update_ghost(u);
                    }
                });
        }
    };
    sc.fibers.push_back(std::move(f));
    sim::run_fibers(sc);
    return out;
}

static bool same(const LeafMap& x, const LeafMap& y, int nc, std::string& why)
{
    for (auto& [k, v] : y)
    {
        auto it = x.find(k);
        if (it == x.end())
        {
            why = "leaf " + show(k) + " does not exist (" + std::to_string(x.size()) + " leaves against " + std::to_string(y.size()) + ")";
            return false;
        }
        for (int q = 0; q < nc; ++q)
        {
            if (!(std::abs(v[q] - it->second[q]) <= 1e-10 * (1 + std::abs(v[q]))))
            {
                char z[200];
                std::snprintf(z, sizeof z, "component %d of leaf %s is %.15g against %.15g", q, show(k).c_str(), it->second[q], v[q]);
                why = z;
                return false;
            }
        }
    }
    if (x.size() != y.size())
    {
        why = "extra leaves";
        return false;
    }
    return true;
}

static void compare(const Params& p, const Outcome& a, const Outcome& b, const char* prop, const char* cls)
{
    for (std::size_t o = 0; o < a.h.size() && o < b.h.size(); ++o)
    {
        std::string why, at = o == 0 ? std::string("after construction: ") : "after op " + std::to_string(o - 1) + " (" + kind_name[p.ops[o - 1].kind] + "): ";
        if (!same(a.h[o].leaf, b.h[o].leaf, p.two ? 3 : 1, why))
        {
            sim::violation(prop, cls, at + why);
            return;
        }
        if (!(std::abs(a.h[o].aux - b.h[o].aux) <= 1e-10 * (1 + std::abs(a.h[o].aux))))
        {
            sim::violation(prop, cls, at + "the values the loop saw differ");
            return;
        }
        sim::count("leaves_compared", a.h[o].leaf.size());
    }
}

static double integral(const LeafMap& m, int q, double* mag = nullptr)
{
    double s = 0, g = 0;
    for (auto& [k, v] : m)
    {
        double w = std::pow(0.5, double(dim) * k[0]);
        s += v[q] * w;
        g += std::abs(v[q]) * w;
    }
    if (mag)
    {
        *mag = g;
    }
    return s;
}

static void body()
{
    Params p;
    p.D.dim   = dim;
    p.D.minl  = sim::range_w(1, 2);
    p.D.maxl  = p.D.minl + sim::range_w(1, dim == 3 ? 2 : 3);
    p.mesh    = static_cast<int>(sim::choose_w(2));
    p.two     = sim::choose_w(2);
    p.D.bc    = sim::choose_w(3) == 2 ? BcKind::dirichlet : BcKind::neumann0;
    p.D.bcval = p.D.bc == BcKind::dirichlet ? 0.5 : 0;
    if (dim > 1 && sim::choose_w(3) == 2)
    {
        p.D.aspect[0] = 2;
    }
    for (auto& x : p.c)
    {
        x = 0.1 * sim::range_w(1, 9) + 0.00317;
    }
    if (sim::g_scenario == "several-fields")
    {
        p.two = true;
    }
    int n = 2 + static_cast<int>(sim::choose_w(5));
    std::string names;
    for (int k = 0; k < n; ++k)
    {
        Op o;
        o.kind = k == 0 ? int(k_adapt) : static_cast<int>(sim::choose_w(k_kinds));
        o.eps  = std::pow(10., -sim::range_w(1, 4));
        o.reg  = sim::range_w(0, 2);
        o.fn   = static_cast<int>(sim::choose_w(3));
        o.x    = (sim::choose_w(64) + 0.37) / 64;
        p.ops.push_back(o);
        names += std::string(" ") + kind_name[o.kind];
        sim::count(std::string("op_") + kind_name[o.kind]);
    }
    char b[200];
    std::snprintf(b, sizeof b, "dim %d %s levels %d-%d%s bc %d aspect %d:", DIM, p.mesh == 0 ? "MR" : "AMR", p.D.minl, p.D.maxl, p.two ? " two fields" : "", int(p.D.bc), p.D.aspect[0]);
    sim::W().sample = b + names;
    static const unsigned char fills[] = {0, 0xff, 0x7b, 0xc1};
    sim::g_fill       = fills[sim::choose_w(4)];
    sim::g_stack_fill = 256 << 10;

    Outcome ref = run(p, Fail{});
    for (auto& s : ref.h)
    {
        for (auto& [k, v] : s.leaf)
        {
            uint64_t z;
            std::memcpy(&z, &v[0], 8);
            sim::log_state(z ^ (static_cast<uint64_t>(k[0]) << 50));
        }
    }
    if (sim::relevant("C01") || sim::relevant("C02") || sim::relevant("C04") || sim::relevant("C06"))
    {
        for (std::size_t o = 0; o < ref.h.size(); ++o)
        {
            if (o == 0 || p.ops[o - 1].kind == k_adapt)
            {
                std::set<Key> keys;
                for (auto& kv : ref.h[o].leaf)
                {
                    keys.insert(kv.first);
                }
                Cover c(p.D, keys);
                sim::nontrivial("C01");
                if (!c.ok())
                {
                    sim::violation("C01", "tiling", "after " + std::to_string(o) + " operations: " + std::to_string(c.missing) + " finest cells uncovered, " + std::to_string(c.dup) + " covered twice, " + std::to_string(c.outside) + " leaves out of place; " + c.first);
                }
                std::string ex;
                std::size_t bad = o ? c.ungraded(p.D, ex) : 0;
                if (o && ref.h[o].leaf.begin()->first[0] != ref.h[o].leaf.rbegin()->first[0])
                {
                    sim::nontrivial("C02");
                }
                if (bad)
                {
                    sim::violation("C02", "grading", "after " + std::to_string(o) + " operations: " + std::to_string(bad) + " neighbour pairs differ by more than one level; " + ex);
                }
            }
            if (o == 0)
            {
                continue;
            }
            std::string at = "after op " + std::to_string(o - 1) + " (" + kind_name[p.ops[o - 1].kind] + "): ";
            if (p.ops[o - 1].kind == k_adapt)
            {
                for (int q = 0; q < (p.two ? 3 : 1); ++q)
                {
                    double mag, a = integral(ref.h[o - 1].leaf, q, &mag), z = integral(ref.h[o].leaf, q);
                    sim::nontrivial("C06");
                    if (!(std::abs(a - z) <= 1e-10 * (1 + mag)))
                    {
                        sim::violation("C06", "integral", at + "the integral of component " + std::to_string(q) + " went from " + std::to_string(a) + " to " + std::to_string(z));
                    }
                }
            }
            if (!ref.h[o].ghost.empty())
            {
                Model M(p.D, ref.h[o].leaf);
                for (auto& [k, v] : ref.h[o].ghost)
                {
                    auto& w = M.val(k);
                    if (!w.known)
                    {
                        sim::count("ghosts_without_statement");
                        continue;
                    }
                    sim::count("ghosts_checked");
                    sim::nontrivial("C04");
                    for (int q = 0; q < (p.two ? 3 : 1); ++q)
                    {
                        if (!(std::abs(w.v[q] - v[q]) <= 1e-10 * (1 + std::abs(v[q]))))
                        {
                            char z[240];
                            std::snprintf(z, sizeof z, "component %d of cell %s is %.15g; the leaf values imply %.15g", q, show(k).c_str(), v[q], w.v[q]);
                            sim::violation("C04", "ghost-value", at + z);
                        }
                    }
                }
            }
        }
    }
    if (sim::relevant("C14"))
    {
        sim::g_fill    = static_cast<unsigned char>(~sim::g_fill);
        sim::W().phase = "run with other initial memory";
        compare(p, run(p, Fail{}), ref, "C14", "value-differs");
        sim::nontrivial("C14");
        sim::g_fill = static_cast<unsigned char>(~sim::g_fill);
    }
    if (sim::relevant("C13"))
    {
        for (int rep = 0; rep < 4; ++rep)
        {
            Fail f;
            f.op       = static_cast<int>(sim::choose_s(static_cast<uint32_t>(p.ops.size())));
            uint64_t m = ref.allocs[static_cast<std::size_t>(f.op)];
            if (!m)
            {
                continue;
            }
            if (p.two && p.ops[static_cast<std::size_t>(f.op)].kind == k_adapt && sim::g_scenario != "several-fields")
            {
                continue; // known_findings.txt: an adaptation of several fields that runs out of memory loses the first of them
            }
            f.at    = 1 + sim::choose_s(static_cast<uint32_t>(m));
            f.burst = sim::choose_s(4) == 0 ? 1000000 : 1; // memory stays exhausted until the operation gives up
            Outcome g = run(p, f);
            if (!g.failed)
            {
                sim::count("allocation_not_reached");
                continue;
            }
            sim::nontrivial("C13");
            std::string at = std::string("allocation ") + std::to_string(f.at) + " of " + std::to_string(m) + " in op " + std::to_string(f.op) + " (" + kind_name[p.ops[static_cast<std::size_t>(f.op)].kind] + ") failed: ";
            sim::W().phase = "after an allocation failure";
            if (!g.reported)
            {
                // nobody was told, so nothing may have been lost
                std::size_t o = static_cast<std::size_t>(f.op) + 1;
                std::string why;
                if (o < g.h.size() && !same(g.h[o].leaf, ref.h[o].leaf, p.two ? 3 : 1, why))
                {
                    sim::violation("C13", "silent-failure", at + "the operation returned normally with a wrong result: " + why);
                }
                continue;
            }
            std::vector<Key> keys;
            for (auto& [k, v] : g.after.leaf)
            {
                keys.push_back(k);
            }
            Cover cov(p.D, keys);
            if (!cov.ok())
            {
                sim::violation("C13", "tiling", at + "the leaves no longer tile the domain; " + cov.first);
                continue;
            }
            int kd = p.ops[static_cast<std::size_t>(f.op)].kind;
            std::string why;
            if (kd == k_ghost && !same(g.after.leaf, g.before.leaf, p.two ? 3 : 1, why))
            {
                sim::violation("C13", "leaf-values", at + "a failed ghost update changed leaves: " + why);
            }
            if (kd == k_adapt)
            {
                for (int q = 0; q < (p.two ? 3 : 1); ++q)
                {
                    double mag, a = integral(g.before.leaf, q, &mag), c = integral(g.after.leaf, q);
                    if (!(std::abs(a - c) <= 1e-11 * (mag + 1e-3)))
                    {
                        char z[160];
                        std::snprintf(z, sizeof z, "the integral of component %d went from %.15g to %.15g", q, a, c);
                        sim::violation("C13", "conservation", at + z);
                    }
                }
            }
        }
        // nothing is left behind in the library: a fresh start gives the reference result
        sim::W().phase = "fresh run after allocation failures";
        compare(p, run(p, Fail{}), ref, "C13", "left-behind");
    }
}

int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, "mem", body);
}
