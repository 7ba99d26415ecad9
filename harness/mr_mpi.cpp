// MPI-parallel multiresolution: several simulated processes run samurai's real code on the simulated boost::mpi.
// Build with -DDIM=1|2|3 [-DSW=stencil width] [-DGW=graduation width] -DSAMURAI_WITH_MPI
#include "main.hpp"
#include "model.hpp"
#include <functional>
#include <boost/mpi.hpp>
#include <samurai/bc.hpp>
#include <samurai/field.hpp>
#include <samurai/mr/adapt.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/algorithm/update.hpp>
#include <samurai/schemes/fv.hpp>
#include <samurai/stencil_field.hpp>
#ifndef WITH_FLUX
#define WITH_FLUX 1
#endif
#ifndef SW
#define SW 1
#endif
#ifndef GW
#define GW 1
#endif
#ifndef PO
#define PO 1
#endif

// which adaptation calls this binary exercises: 0 adapt(u) carrying v, 1 adapt(u, v), 2 adapt(u); +10: with the enlarge option
#ifndef MODES
#define MODES {0, 1, 2}
#define HAS_ENLARGE 1
#endif
#ifndef HAS_ENLARGE
#define HAS_ENLARGE 0
#endif
constexpr int modes[] = MODES;

constexpr bool has_mode(int m)
{
    for (int x : modes)
    {
        if (x == m)
        {
            return true;
        }
    }
    return false;
}

constexpr std::size_t dim = DIM;
using Config              = samurai::MRConfig<dim, SW, GW, PO>;
using Mesh                = samurai::MRMesh<Config>;
using mesh_id_t           = Mesh::mesh_id_t;

enum OpKind
{
    op_adapt,
    op_modify,
    op_ghost,
    op_upwind,
    op_flux, // diffusion operator of the finite-volume library, evaluated without changing u
    op_kinds
};

struct Op
{
    int kind;
    double eps, reg;
    int fn;
    double pos[3]; // where a spike goes, in units of the domain
    double vel[3]; // transport velocity
    bool burgers;  // the non-linear upwind operator (2D only)
};

struct Params
{
    Domain D;
    int ranks;
    std::array<double, 3> lo{0, 0, 0};
    double unit; // length of a level 0 cell
    int mode;    // 0: adapt(u) carrying v, 1: adapt(u, v), 2: u only
    bool enlarge;
    double c[3], k[3];
    int fn;
    std::vector<Key> start; // leaves of the mesh to begin with (empty: all of the maximum level)
    std::vector<Op> ops;
};

static const char* mesh_parts[] = {"cells", "cells and ghosts", "projection cells", "union cells", "reference cells", "union", "domain", "subdomain", "level range", "periodicity", "origin and scaling"};
using MeshDigest                = std::array<uint64_t, std::size(mesh_parts)>;

template <class LCA>
static uint64_t lca_digest(const LCA& lca, bool level)
{
    uint64_t h = 1469598103934665603ull;
    auto mix   = [&](long long x)
    {
        h = (h ^ static_cast<uint64_t>(x)) * 1099511628211ull;
    };
    if (lca.empty())
    {
        return h;
    }
    if (level)
    {
        mix(static_cast<long long>(lca.level()));
    }
    for (auto it = lca.cbegin(); it != lca.cend(); ++it)
    {
        mix(it->start);
        mix(it->end);
        for (std::size_t d = 0; d + 1 < dim; ++d)
        {
            mix(it.index()[d]);
        }
    }
    return h;
}

static MeshDigest digest(const Mesh& m)
{
    MeshDigest r{};
    auto ca = [&](const auto& a)
    {
        uint64_t h = 0;
        for (std::size_t l = 0; l <= 12; ++l)
        {
            h = h * 31 + (a[l].empty() ? 0 : lca_digest(a[l], true) + l);
        }
        return h;
    };
    for (int k = 0; k < 5; ++k)
    {
        r[k] = ca(m[static_cast<typename Mesh::mesh_id_t>(k)]);
    }
    r[5] = ca(m.get_union());
    r[6] = lca_digest(m.domain(), true);
    r[7] = lca_digest(m.subdomain(), true);
    r[8] = m.min_level() * 1000 + m.max_level();
    for (std::size_t d = 0; d < dim; ++d)
    {
        r[9] = 2 * r[9] + m.is_periodic(d);
    }
    auto geo = [&](const auto& a)
    {
        auto bits = [&](double x)
        {
            uint64_t b;
            std::memcpy(&b, &x, sizeof b);
            r[10] = (r[10] ^ b) * 1099511628211ull;
        };
        for (std::size_t d = 0; d < dim; ++d)
        {
            bits(a.origin_point()[d]);
        }
        bits(a.scaling_factor());
    };
    geo(m);
    for (int k = 0; k < 5; ++k)
    {
        geo(m[static_cast<typename Mesh::mesh_id_t>(k)]);
    }
    return r;
}

struct Snap
{
    std::vector<LeafMap> leaf;  // per rank
    std::vector<LeafMap> ghost; // per rank, only after a ghost update
    std::vector<LeafMap> flux;  // per rank, only after op_flux
    // per rank: digest of each part of its own mesh, and of what it holds of every other process
    std::vector<MeshDigest> own;
    std::vector<std::map<int, MeshDigest>> copies;
    int kind = -1;
};

using History = std::vector<Snap>; // index 0: initial mesh, then one per operation

static double fval(const Params& p, int fn, double shift, const double* x, int comp)
{
    double r = 0, s = 0.3 * comp;
    for (std::size_t d = 0; d < dim; ++d)
    {
        double y = (x[d] - p.lo[d]) / (p.unit * p.D.aspect[d]);
        double z = y - p.c[d] - shift * (d + 1);
        r += z * z;
        s += p.k[d] * y;
    }
    switch (fn)
    {
        case 0:
            return r < 0.06 + 0.02 * comp ? 1. : 0.;
        case 1:
            return std::exp(-(40 + 10 * comp) * r);
        case 2:
            return std::sin(s) + (r < 0.1 ? 1 : 0);
        case 3:
            return std::cos(s) * (1 + 0.2 * comp);
        default:
            return 0.7 + 0.1 * comp;
    }
}

static Key key_of(const Params& p, const Mesh&, std::size_t level, const double* center, double length)
{
    Key k{static_cast<int>(level), 0, 0, 0};
    for (std::size_t d = 0; d < dim; ++d)
    {
        double q = (center[d] - p.lo[d]) / length - 0.5;
        k[d + 1] = static_cast<int>(std::llround(q));
        if (std::abs(q - k[d + 1]) > 1e-6)
        {
            sim::violation("C01", "misplaced-cell", "a cell is not on the grid of its level");
        }
    }
    double want = p.unit / (1 << level);
    if (std::abs(length - want) > 1e-9 * want)
    {
        sim::violation("C01", "cell-size", "cell length does not match its level");
    }
    return k;
}

// A random graded mesh over the whole domain: a walk that refines leaves and, before each, their coarser neighbours.
static std::vector<Key> random_mesh(const Domain& D, uint64_t seed, int steps)
{
    auto rnd = [&](uint64_t n)
    {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        return (seed >> 33) % n;
    };
    std::set<Key> leaf;
    std::array<int, 3> n{1, 1, 1};
    for (int d = 0; d < D.dim; ++d)
    {
        n[d] = D.aspect[d] << D.minl;
    }
    for (int k = 0; k < n[2]; ++k)
    {
        for (int j = 0; j < n[1]; ++j)
        {
            for (int i = 0; i < n[0]; ++i)
            {
                leaf.insert(Key{D.minl, i, j, k});
            }
        }
    }
    std::function<void(Key)> refine = [&](Key c)
    {
        int l = c[0];
        // every coarser leaf around (level l - 1) is refined first
        int lo[3] = {-1, -1, -1}, hi[3] = {1, 1, 1};
        for (int d = D.dim; d < 3; ++d)
        {
            lo[d] = hi[d] = 0;
        }
        for (int a = lo[0]; a <= hi[0]; ++a)
        {
            for (int b = lo[1]; b <= hi[1]; ++b)
            {
                for (int e = lo[2]; e <= hi[2]; ++e)
                {
                    Key q{l - 1, 0, 0, 0};
                    int off[3] = {a, b, e};
                    bool in    = true;
                    for (int d = 0; d < D.dim; ++d)
                    {
                        int m = D.aspect[d] << l;
                        int x = c[d + 1] + off[d];
                        if (x < 0 || x >= m)
                        {
                            in = in && D.periodic[d];
                            x  = (x + m) % m;
                        }
                        q[d + 1] = x >> 1;
                    }
                    if (in && leaf.count(q))
                    {
                        refine(q);
                    }
                }
            }
        }
        leaf.erase(c);
        for (int ch = 0; ch < 1 << D.dim; ++ch)
        {
            Key q{l + 1, 0, 0, 0};
            for (int d = 0; d < D.dim; ++d)
            {
                q[d + 1] = 2 * c[d + 1] + (ch >> d & 1);
            }
            leaf.insert(q);
        }
    };
    for (int s = 0; s < steps; ++s)
    {
        // the leaf at a random point, refined down to a random depth
        std::array<uint64_t, 3> x{};
        for (int d = 0; d < D.dim; ++d)
        {
            x[d] = rnd(static_cast<uint64_t>(D.aspect[d]) << D.maxl);
        }
        int target = D.minl + 1 + static_cast<int>(rnd(static_cast<uint64_t>(D.maxl - D.minl)));
        for (int l = D.minl; l < target; ++l)
        {
            Key q{l, 0, 0, 0};
            for (int d = 0; d < D.dim; ++d)
            {
                q[d + 1] = static_cast<int>(x[d] >> (D.maxl - l));
            }
            if (leaf.count(q))
            {
                refine(q);
            }
        }
    }
    return {leaf.begin(), leaf.end()};
}

static History run(const Params& p)
{
    History h(p.ops.size() + 1);
    for (auto& s : h)
    {
        s.leaf.resize(p.ranks);
        s.ghost.resize(p.ranks);
        s.flux.resize(p.ranks);
        s.own.resize(p.ranks);
        s.copies.resize(p.ranks);
    }
    simmpi::Net net(p.ranks);
    simmpi::net() = &net;
    sim::Sched sc;
    sc.env_events = simmpi::env_events;
    std::vector<samurai::Timers> tm(p.ranks);
    auto sw       = [&](int r)
    {
        std::swap(samurai::times::timers, tm[r]);
    };
    sc.switch_in  = sw;
    sc.switch_out = sw;
    for (int r = 0; r < p.ranks; ++r)
    {
        auto f  = std::make_unique<sim::Fiber>();
        f->id   = r;
        f->body = [&, r]()
        {
            xt::xtensor_fixed<double, xt::xshape<dim>> mn, mx;
            std::array<bool, dim> per{};
            for (std::size_t d = 0; d < dim; ++d)
            {
                mn[d]  = p.lo[d];
                mx[d]  = p.lo[d] + p.unit * p.D.aspect[d];
                per[d] = p.D.periodic[d];
            }
            samurai::Box<double, dim> box(mn, mx);
            Mesh mesh{box, static_cast<std::size_t>(p.D.minl), static_cast<std::size_t>(p.D.maxl), per};
            if (!p.start.empty()) // every process takes the leaves whose first finest cell was given to it
            {
                std::set<Key> own;
                samurai::for_each_cell(mesh[mesh_id_t::cells],
                                       [&](auto& cell)
                                       {
                                           Key k{p.D.maxl, 0, 0, 0};
                                           for (std::size_t d = 0; d < dim; ++d)
                                           {
                                               k[d + 1] = cell.indices[d];
                                           }
                                           own.insert(k);
                                       });
                typename Mesh::cl_type cl;
                for (const Key& k : p.start)
                {
                    Key first{p.D.maxl, 0, 0, 0};
                    for (std::size_t d = 0; d < dim; ++d)
                    {
                        first[d + 1] = k[d + 1] << (p.D.maxl - k[0]);
                    }
                    if (own.count(first))
                    {
                        xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
                        for (std::size_t d = 1; d < dim; ++d)
                        {
                            yz[d - 1] = k[d + 1];
                        }
                        cl[static_cast<std::size_t>(k[0])][yz].add_point(k[1]);
                    }
                }
                mesh = Mesh(cl, mesh);
            }
            auto u  = samurai::make_field<double, 1>("u", mesh);
            auto v  = samurai::make_field<double, 2>("v", mesh);
            auto un = samurai::make_field<double, 1>("un", mesh);
            u.fill(0);
            v.fill(0);
            auto visit = [&](const auto& cell, auto&& g)
            {
                double x[3] = {0, 0, 0};
                for (std::size_t d = 0; d < dim; ++d)
                {
                    x[d] = cell.center(d);
                }
                g(x);
            };
            auto set = [&](int fn, double shift, double mixing)
            {
                samurai::for_each_cell(mesh,
                                       [&](auto& cell)
                                       {
                                           visit(cell,
                                                 [&](const double* x)
                                                 {
                                                     u[cell] = mixing * u[cell] + (1 - mixing) * fval(p, fn, shift, x, 0);
                                                     if (p.mode != 2)
                                                     {
                                                         for (int q = 0; q < 2; ++q)
                                                         {
                                                             v[cell][q] = mixing * v[cell][q] + (1 - mixing) * fval(p, fn, shift, x, q + 1);
                                                         }
                                                     }
                                                 });
                                       });
            };
            // isolated values in some of the leaves
            auto isolated = [&](int fn, double pos)
            {
                samurai::for_each_cell(mesh,
                                       [&](auto& cell)
                                       {
                                           // from 9 on: whole families of siblings whose mean is zero, so that coarser levels do not see them
                                           int family = fn >= 9;
                                           double amp = 1;
                                           uint64_t z = static_cast<uint64_t>(pos * 64) * 1000003u + cell.level;
                                           for (std::size_t d = 0; d < dim; ++d)
                                           {
                                               z = (z ^ static_cast<uint64_t>((cell.indices[d] >> family) + 4096)) * 0x9e3779b97f4a7c15ull;
                                               z ^= z >> 29;
                                               amp *= family && (cell.indices[d] & 1) ? -1 : 1;
                                           }
                                           bool in = z % (fn & 1 ? 64 : 16) == 0;
                                           u[cell] = in ? amp * (1 + (z >> 20) % 4) : 0.;
                                           if (p.mode != 2)
                                           {
                                               v[cell][0] = in ? -amp : 0.;
                                               v[cell][1] = (z >> 8) % 64 == 0 ? 2. * amp : 0.;
                                           }
                                       });
            };
            if (p.fn < 5)
            {
                set(p.fn, 0, 0);
            }
            else
            {
                isolated(p.fn + 2, p.c[0]);
            }
            if (p.D.bc == BcKind::neumann0)
            {
                samurai::make_bc<samurai::Neumann<1>>(u, 0.);
                samurai::make_bc<samurai::Neumann<1>>(un, 0.);
                samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
            }
            else if (p.D.bc == BcKind::dirichlet)
            {
                samurai::make_bc<samurai::Dirichlet<1>>(u, p.D.bcval);
                samurai::make_bc<samurai::Dirichlet<1>>(un, p.D.bcval);
                samurai::make_bc<samurai::Dirichlet<1>>(v, p.D.bcval, p.D.bcval);
            }
            else
            {
                for (std::size_t d = 0; d < dim; ++d)
                {
                    for (int up = 0; up < 2; ++up)
                    {
                        const FaceBc& fb = p.D.face[2 * d + up];
                        samurai::DirectionVector<dim> dir;
                        dir.fill(0);
                        dir[d] = up ? 1 : -1;
                        auto g = [&p, fb](int q, const auto& x)
                        {
                            double pos = 0;
                            for (std::size_t e = 0; e < dim; ++e)
                            {
                                pos += (x[e] - p.lo[e]) / p.unit;
                            }
                            return fb.a[q] + fb.b[q] * pos;
                        };
                        auto attach = [&](auto type)
                        {
                            using bc_t = decltype(type);
                            if (fb.fn)
                            {
                                for (auto* f : {&u, &un})
                                {
                                    samurai::make_bc<bc_t>(*f,
                                                           [g](const auto&, const auto&, const auto& x)
                                                           {
                                                               return g(0, x);
                                                           })
                                        ->on(dir);
                                }
                                samurai::make_bc<bc_t>(v,
                                                       [g](const auto&, const auto&, const auto& x)
                                                       {
                                                           return xt::xtensor_fixed<double, xt::xshape<2>>{g(1, x), g(2, x)};
                                                       })
                                    ->on(dir);
                            }
                            else
                            {
                                samurai::make_bc<bc_t>(u, fb.a[0])->on(dir);
                                samurai::make_bc<bc_t>(un, fb.a[0])->on(dir);
                                samurai::make_bc<bc_t>(v, fb.a[1], fb.a[2])->on(dir);
                            }
                        };
                        if (fb.dirichlet)
                        {
                            attach(samurai::Dirichlet<1>{});
                        }
                        else
                        {
                            attach(samurai::Neumann<1>{});
                        }
                    }
                }
            }
            auto store = [&](LeafMap& m, const auto& cells)
            {
                samurai::for_each_cell(cells,
                                       [&](auto& cell)
                                       {
                                           visit(cell,
                                                 [&](const double* x)
                                                 {
                                                     Key k    = key_of(p, mesh, cell.level, x, cell.length);
                                                     Vals val = {u[cell], 0, 0};
                                                     if (p.mode != 2)
                                                     {
                                                         val[1] = v[cell][0];
                                                         val[2] = v[cell][1];
                                                     }
                                                     if (!m.emplace(k, val).second)
                                                     {
                                                         sim::violation("C01", "tiling", "one process lists " + show(k) + " twice");
                                                     }
                                                 });
                                       });
            };
            auto look = [&](Snap& s)
            {
                s.own[r] = digest(mesh);
                for (auto& n : mesh.mpi_neighbourhood())
                {
                    if (!s.copies[r].emplace(n.rank, digest(n.mesh)).second)
                    {
                        sim::violation("C15", "neighbour-list", "a process is listed twice as neighbour");
                    }
                }
            };
            store(h[0].leaf[r], mesh[mesh_id_t::cells]);
            look(h[0]);
            auto adapt = [&](auto& ad, const Op& op)
            {
                if constexpr (has_mode(0))
                {
                    if (p.mode == 0)
                    {
                        if constexpr (dim < 3 && std::is_same_v<std::decay_t<decltype(ad)>, decltype(samurai::make_MRAdapt(u))>)
                        {
                            // a second carried field that equals u: it must go through the adaptation exactly like u
                            un.resize();
                            un.fill(0);
                            samurai::for_each_cell(mesh,
                                                   [&](auto& cell)
                                                   {
                                                       un[cell] = u[cell];
                                                   });
                            ad(op.eps, op.reg, v, un);
                            samurai::for_each_cell(mesh,
                                                   [&](auto& cell)
                                                   {
                                                       if (!(std::abs(un[cell] - u[cell]) <= 1e-12 * (1 + std::abs(u[cell]))))
                                                       {
                                                           sim::violation("C06", "carried-field", "a field carried along in second position differs from the equal field that drives the adaptation");
                                                       }
                                                   });
                        }
                        else
                        {
                            ad(op.eps, op.reg, v);
                        }
                        return;
                    }
                }
                if constexpr (has_mode(2))
                {
                    ad(op.eps, op.reg);
                }
            };
            // generic, so that what a binary leaves out is not even instantiated
            auto both = [&](auto& ad, const Op& op)
            {
                if constexpr (has_mode(1))
                {
                    ad(op.eps, op.reg);
                }
            };
            auto enlarged = [&](auto& ad, const Op& op)
            {
                if constexpr (HAS_ENLARGE)
                {
                    adapt(ad, op);
                }
            };
            auto a0 = samurai::make_MRAdapt(u);
            auto a1 = samurai::make_MRAdapt(u, v);
            auto a2 = samurai::make_MRAdapt<true>(u);
            for (std::size_t o = 0; o < p.ops.size(); ++o)
            {
                const Op& op = p.ops[o];
                if (r == 0)
                {
                    static const char* nm[] = {"adapt", "modify", "ghost update", "upwind step", "diffusion operator"};
                    sim::W().phase          = "op " + std::to_string(o) + " " + nm[op.kind];
                }
                if (op.kind == op_adapt)
                {
                    if (p.mode == 1)
                    {
                        both(a1, op);
                    }
                    else if (p.enlarge)
                    {
                        enlarged(a2, op);
                    }
                    else
                    {
                        adapt(a0, op);
                    }
                }
                else if (op.kind == op_modify)
                {
                    if (op.fn < 5)
                    {
                        set(op.fn, 0.07 * (o + 1), 0.5);
                    }
                    else if (op.fn >= 7)
                    {
                        isolated(op.fn, op.pos[0]);
                    }
                    else // a spike in the leaves around one point
                    {
                        samurai::for_each_cell(mesh,
                                               [&](auto& cell)
                                               {
                                                   bool in = true;
                                                   for (std::size_t d = 0; d < dim; ++d)
                                                   {
                                                       double x = p.lo[d] + op.pos[d] * p.unit * p.D.aspect[d];
                                                       in       = in && std::abs(cell.center(d) - x) <= (op.fn == 5 ? 0.5 : 1.1) * cell.length;
                                                   }
                                                   if (in)
                                                   {
                                                       u[cell] += 2;
                                                       if (p.mode != 2)
                                                       {
                                                           v[cell][0] -= 1;
                                                       }
                                                   }
                                               });
                    }
                }
                else if (op.kind == op_ghost)
                {
                    if (p.mode == 2)
                    {
                        samurai::update_ghost_mr(u);
                    }
                    else
                    {
                        samurai::update_ghost_mr(u, v);
                    }
                    store(h[o + 1].ghost[r], mesh[mesh_id_t::cells_and_ghosts]);
                }
                else if (op.kind == op_flux)
                {
#if WITH_FLUX
                    samurai::DiffCoeff<dim> K;
                    for (std::size_t d = 0; d < dim; ++d)
                    {
                        K[d] = 1 + 0.5 * double(d);
                    }
                    auto diff = samurai::make_diffusion_order2<std::decay_t<decltype(u)>>(K);
                    samurai::update_ghost_mr(u);
                    auto w = diff(u);
                    samurai::for_each_cell(mesh,
                                           [&](auto& cell)
                                           {
                                               visit(cell,
                                                     [&](const double* x)
                                                     {
                                                         h[o + 1].flux[r][key_of(p, mesh, cell.level, x, cell.length)] = Vals{w[cell], 0, 0};
                                                     });
                                           });
#endif
                }
                else
                {
                    std::array<double, dim> a;
                    for (std::size_t d = 0; d < dim; ++d)
                    {
                        a[d] = op.vel[d];
                    }
                    double dt = 0.3 * p.unit / (1 << p.D.maxl);
                    samurai::update_ghost_mr(u);
                    un.resize();
                    if constexpr (dim == 1)
                    {
                        un = u - dt * samurai::upwind(a[0], u);
                    }
                    else if (op.burgers)
                    {
                        if constexpr (dim == 2)
                        {
                            un = u - dt * samurai::upwind_scalar_burgers(a, u);
                        }
                    }
                    else
                    {
                        un = u - dt * samurai::upwind(a, u);
                    }
                    std::swap(u.array(), un.array());
                }
                store(h[o + 1].leaf[r], mesh[mesh_id_t::cells]);
                look(h[o + 1]);
                h[o + 1].kind = op.kind;
                if (sim::W().verbose)
                {
                    std::string l;
                    for (auto& [k, v] : h[o + 1].leaf[r])
                    {
                        l += " " + show(k);
                    }
                    std::fprintf(stderr, "[leaves] op %d rank %d:%s\n", int(o), r, l.size() > 4000 ? " (many)" : l.c_str());
                }
            }
        };
        sc.fibers.push_back(std::move(f));
    }
    sim::run_fibers(sc);
    simmpi::final_check();
    if (net.n_msgs)
    {
        sim::nontrivial("C05");
    }
    return h;
}

static LeafMap merge(const Snap& s)
{
    LeafMap m;
    for (auto& l : s.leaf)
    {
        m.insert(l.begin(), l.end());
    }
    return m;
}

static double cellvol(const Params& p, int level)
{
    return std::pow(p.unit / (1 << level), double(dim));
}

static void check(const Params& p, const History& h)
{
    std::string who = std::to_string(p.ranks) + " processes, ";
    LeafMap prev;
    for (std::size_t o = 0; o < h.size(); ++o)
    {
        std::string at = who + (o == 0 ? std::string("after construction: ") : "after operation " + std::to_string(o - 1) + ": ");
        std::vector<Key> keys;
        for (auto& l : h[o].leaf)
        {
            for (auto& [k, v] : l)
            {
                keys.push_back(k);
            }
        }
        for (int r = 0; r < p.ranks; ++r)
        {
            for (int n = 0; n < p.ranks; ++n)
            {
                if (n == r)
                {
                    continue;
                }
                std::string two = "process " + std::to_string(r) + " of process " + std::to_string(n);
                auto it         = h[o].copies[r].find(n);
                if (it == h[o].copies[r].end())
                {
                    sim::violation("C15", "neighbour-list", at + "nothing is known to " + two);
                    continue;
                }
                sim::count("mesh_copies_compared");
                sim::nontrivial("C15");
                for (std::size_t k = 0; k < std::size(mesh_parts); ++k)
                {
                    if (it->second[k] != h[o].own[n][k])
                    {
                        sim::violation("C15", "stale-copy", at + "the copy held by " + two + " differs from the original: " + mesh_parts[k]);
                    }
                }
            }
        }
        Cover cov(p.D, keys);
        sim::count("checked_leaves", keys.size());
        sim::nontrivial("C01");
        if (keys.size() && o && keys.size() < static_cast<std::size_t>(cov.lev.size()))
        {
            sim::nontrivial("C02"); // several levels present
        }
        if (!cov.ok())
        {
            sim::violation("C01",
                           "tiling",
                           at + std::to_string(cov.missing) + " finest cells uncovered, " + std::to_string(cov.dup) + " covered twice, "
                               + std::to_string(cov.outside) + " leaves out of place; " + cov.first);
            return; // the other statements assume a tiling
        }
        std::string ex;
        if (std::size_t bad = cov.ungraded(p.D, ex))
        {
            sim::violation("C02", "grading", at + std::to_string(bad) + " neighbour pairs differ by more than one level; " + ex);
        }
        LeafMap m = merge(h[o]);
        if (o > 0 && h[o].kind == op_adapt)
        {
            for (int q = 0; q < (p.mode == 2 ? 1 : NC); ++q)
            {
                double a = 0, b = 0, mag = 0;
                for (auto& [k, v] : prev)
                {
                    a += v[q] * cellvol(p, k[0]);
                    mag += std::abs(v[q]) * cellvol(p, k[0]);
                }
                for (auto& [k, v] : m)
                {
                    b += v[q] * cellvol(p, k[0]);
                }
                if (!(std::abs(a - b) <= 1e-11 * (mag + 1e-3)))
                {
                    char z[200];
                    std::snprintf(z, sizeof z, "adaptation changed the integral of component %d from %.15g to %.15g", q, a, b);
                    sim::violation("C06", "conservation", at + z);
                }
                sim::count("integrals_checked");
                if (m.size() != prev.size())
                {
                    sim::nontrivial("C06");
                }
            }
        }
        if (o > 0 && h[o].kind == op_ghost)
        {
            Model M(p.D, m);
            for (int r = 0; r < p.ranks; ++r)
            {
                for (auto& [k, v] : h[o].ghost[r])
                {
                    auto& w = M.val(k);
                    bool said = w.known;
                    if (p.D.minl == p.D.maxl && p.ranks > 1 && !p.D.inside(k))
                    {
                        // uniform mesh: outer ghosts are only filled next to the process' own cells
                        Key in = k;
                        for (std::size_t d = 0; d < dim; ++d)
                        {
                            in[d + 1] = std::clamp(in[d + 1], 0, (p.D.aspect[d] << k[0]) - 1);
                        }
                        said = said && h[o].leaf[r].count(in);
                    }
                    if (!said)
                    {
                        sim::count("ghosts_without_statement");
                        continue;
                    }
                    sim::count("ghosts_checked");
                    if (p.ranks > 1)
                    {
                        sim::nontrivial("C04");
                    }
                    for (int q = 0; q < (p.mode == 2 ? 1 : NC); ++q)
                    {
                        if (!(std::abs(w.v[q] - v[q]) <= 1e-10 * (1 + std::abs(v[q]))))
                        {
                            char z[240];
                            std::snprintf(z, sizeof z, "process %d holds %.15g for component %d of cell %s; the leaf values imply %.15g", r, v[q], q,
                                          show(k).c_str(), w.v[q]);
                            sim::violation("C04", "ghost-value", at + z);
                        }
                    }
                }
            }
        }
        if (o > 0 && h[o].kind == op_upwind)
        {
            Model M(p.D, prev);
            for (auto& [k, v] : m)
            {
                double out = prev.at(k)[0], dx = p.unit / (1 << k[0]), dt = 0.3 * p.unit / (1 << p.D.maxl);
                bool known = true;
                for (std::size_t d = 0; d < dim; ++d)
                {
                    double a = p.ops[o - 1].vel[d];
                    Key l = k, rr = k;
                    l[d + 1]--;
                    rr[d + 1]++;
                    auto L = M.val(l);
                    auto R = M.val(rr);
                    known &= L.known && R.known;
                    double c  = prev.at(k)[0];
                    bool bu   = p.ops[o - 1].burgers;
                    auto flux = [&](double x, double y)
                    {
                        if (!bu)
                        {
                            return .5 * a * (x + y) + .5 * std::abs(a) * (x - y);
                        }
                        double mn = std::min(std::abs(x), std::abs(y)), mx = std::max(std::abs(x), std::abs(y));
                        return !(a * x < a * y) ? .5 * mx * mx : x * y > 0 ? .5 * mn * mn : 0.;
                    };
                    out -= dt * (flux(c, R.v[0]) - flux(L.v[0], c)) / dx;
                }
                if (known)
                {
                    sim::count("scheme_cells_checked");
                    if (p.ranks > 1)
                    {
                        sim::nontrivial("C07");
                    }
                    if (!(std::abs(out - v[0]) <= 1e-10 * (1 + std::abs(out))))
                    {
                        char z[240];
                        std::snprintf(z, sizeof z, "cell %s became %.15g, reference %.15g", show(k).c_str(), v[0], out);
                        sim::violation("C07", "scheme-step", at + z);
                    }
                }
            }
        }
        if (o > 0 && h[o].kind == op_flux)
        {
            Model M(p.D, m);
            auto owner = [&](Key q) // of the leaf that covers q (or part of it); -1: outside
            {
                for (std::size_t d = 0; d < dim; ++d)
                {
                    int n = p.D.n(q[0], static_cast<int>(d));
                    if (q[d + 1] < 0 || q[d + 1] >= n)
                    {
                        if (!p.D.periodic[d])
                        {
                            return -1;
                        }
                        q[d + 1] = (q[d + 1] + n) % n;
                    }
                }
                for (;; q[0]--, q[1] >>= 1, q[2] >>= 1, q[3] >>= 1)
                {
                    for (std::size_t r = 0; r < h[o].leaf.size(); ++r)
                    {
                        if (h[o].leaf[r].count(q))
                        {
                            return static_cast<int>(r);
                        }
                    }
                    if (q[0] == 0)
                    {
                        return -2; // finer leaves
                    }
                }
            };
            for (std::size_t r = 0; r < h[o].leaf.size(); ++r)
            {
                for (auto& [k, got] : h[o].flux[r])
                {
                    double dx = p.unit / (1 << k[0]), want = 0, mag = 0;
                    bool known = true, border = false;
                    for (std::size_t d = 0; d < dim; ++d)
                    {
                        double K = 1 + 0.5 * double(d);
                        for (int s : {-1, 1})
                        {
                            Key q = k;
                            q[d + 1] += s;
                            int w = owner(q);
                            // a face of the box, also a periodic one, has its flux computed at the level of the cell
                            if (w != -2 || q[d + 1] < 0 || q[d + 1] >= p.D.n(q[0], static_cast<int>(d)))
                            {
                                border |= w >= 0 && w != static_cast<int>(r);
                                auto R = M.val(q);
                                auto C = M.val(k);
                                known &= R.known && C.known;
                                want -= K * (R.v[0] - C.v[0]) / (dx * dx);
                                mag += K * (std::abs(R.v[0]) + std::abs(C.v[0])) / (dx * dx);
                                continue;
                            }
                            // finer leaves on the other side: one flux per fine face, at the fine level
                            double hf = dx / 2;
                            for (int c = 0; c < (1 << (dim - 1)); ++c)
                            {
                                Key in{k[0] + 1, 0, 0, 0};
                                int bit = 0;
                                for (std::size_t e = 0; e < dim; ++e)
                                {
                                    in[e + 1] = 2 * k[e + 1] + (e == d ? (s > 0) : (c >> bit++ & 1));
                                }
                                Key out = in;
                                out[d + 1] += s;
                                int w2 = owner(out);
                                border |= w2 >= 0 && w2 != static_cast<int>(r);
                                auto A = M.val(in);
                                auto B = M.val(out);
                                known &= A.known && B.known && w2 != -2;
                                double face = std::pow(hf, double(dim) - 1) / std::pow(dx, double(dim));
                                want -= K * face * (B.v[0] - A.v[0]) / hf;
                                mag += K * face * (std::abs(B.v[0]) + std::abs(A.v[0])) / hf;
                            }
                        }
                    }
                    if (!known || (border && sim::g_scenario != "flux-mpi"))
                    {
                        sim::count(border ? "flux_cells_at_process_borders" : "flux_cells_unknown");
                        continue;
                    }
                    sim::count("flux_cells_checked");
                    if (p.ranks > 1)
                    {
                        sim::nontrivial("C07");
                    }
                    if (!(std::abs(want - got[0]) <= 1e-10 * (mag + 1e-3)))
                    {
                        char z[240];
                        std::snprintf(z, sizeof z, "diffusion operator at %s is %.15g, the fluxes through its faces give %.15g", show(k).c_str(), got[0], want);
                        sim::violation("C07", "flux-operator", at + z);
                    }
                }
            }
        }
        prev = std::move(m);
    }
}

static void compare(const Params& p, const History& a, const History& b, const char* prop)
{
    for (std::size_t o = 0; o < a.size(); ++o)
    {
        LeafMap x = merge(a[o]), y = merge(b[o]);
        std::string at = (o == 0 ? std::string("after construction") : "after operation " + std::to_string(o - 1)) + " with " + std::to_string(p.ranks)
                       + " processes: ";
        for (auto& [k, v] : y)
        {
            auto it = x.find(k);
            if (it == x.end())
            {
                sim::violation(prop, "mesh-differs", at + "leaf " + show(k) + " of the one-process run does not exist (" + std::to_string(x.size()) + " leaves instead of " + std::to_string(y.size()) + ")");
                return;
            }
            for (int q = 0; q < NC; ++q)
            {
                if (!(std::abs(v[q] - it->second[q]) <= 1e-10 * (1 + std::abs(v[q]))))
                {
                    char z[200];
                    std::snprintf(z, sizeof z, "component %d of leaf %s is %.15g instead of %.15g", q, show(k).c_str(), it->second[q], v[q]);
                    sim::violation(prop, "value-differs", at + z);
                    return;
                }
            }
            sim::count("leaves_compared");
            sim::nontrivial(prop);
        }
        if (x.size() != y.size())
        {
            sim::violation(prop, "mesh-differs", at + "extra leaves");
        }
    }
}

static void body()
{
    Params p;
    p.D.dim  = dim;
    p.D.minl = sim::range_w(1, dim == 3 ? 2 : 3);
    p.D.maxl = p.D.minl + sim::range_w(0, dim == 3 ? 2 : 4);
    if (p.D.maxl == p.D.minl && sim::choose_w(4))
    {
        p.D.maxl++;
    }
    p.ranks = 1 + sim::choose_w(6);
    p.mode  = modes[sim::choose_w(static_cast<uint32_t>(std::size(modes)))];
    static const BcKind bcs[] = {BcKind::neumann0, BcKind::dirichlet, BcKind::by_face};
    p.D.bc                    = bcs[sim::choose_w(3)];
    if (p.D.bc == BcKind::by_face)
    {
        for (std::size_t k = 0; k < 2 * dim; ++k)
        {
            FaceBc& fb   = p.D.face[k];
            fb.dirichlet = sim::choose_w(2);
            fb.fn        = sim::choose_w(2);
            for (int q = 0; q < NC; ++q)
            {
                fb.a[q] = 0.25 * sim::range_w(-2, 3) * (q + 1);
                fb.b[q] = fb.fn ? 0.125 * sim::range_w(-2, 2) : 0;
            }
        }
    }
    p.D.bcval = p.D.bc == BcKind::dirichlet ? 0.25 * sim::range_w(-2, 4) : 0;
    p.enlarge = HAS_ENLARGE && p.mode != 1 && sim::choose_w(4) == 3 && p.ranks == 1; // across processes: see DESIGN.md, limits of the code
    p.fn      = sim::choose_w(9);
    for (int d = 0; d < 3; ++d)
    {
        p.c[d] = 0.1 * sim::range_w(1, 9) + 0.00317 * (d + 1);
        p.k[d] = sim::range_w(0, 9) + 0.0713;
    }
    int shape = sim::choose_w(6);
    p.unit    = 1;
    if (shape == 1)
    {
        p.unit = 2;
        p.lo   = {-1, -1, -1};
    }
    else if (shape == 2)
    {
        p.D.aspect = {2, 1, 1};
    }
    else if (shape == 3)
    {
        p.D.aspect = {1, 2, 1};
        p.lo       = {0.5, -0.25, 0};
    }
    else if (shape == 4)
    {
        p.unit     = 0.5;
        p.D.aspect = {1, dim == 3 ? 1 : 3, 2};
        p.lo       = {-0.75, 0, 1};
    }
    if (dim == 1)
    {
        p.D.aspect[0] = 1; // the level 0 cell is the shortest side of the box
    }
    for (std::size_t d = dim; d < 3; ++d)
    {
        p.D.aspect[d] = 1;
    }
    p.D.unit = p.unit;
    int per = sim::choose_w(4);
    // pinned configurations that the random workloads leave out, see known_findings.txt
    if (sim::g_scenario == "periodic-mpi")
    {
        per             = 0;
        p.D.periodic[0] = true;
        p.ranks         = std::max(p.ranks, 2);
    }
    if (sim::g_scenario == "enlarge-mpi")
    {
        p.mode    = 2;
        p.enlarge = true;
        p.ranks   = std::max(p.ranks, 2);
    }
    if (sim::g_scenario == "flux-mpi")
    {
        per     = 0;
        p.ranks = std::max(p.ranks, 2);
    }
    if (per == 3)
    {
        if (p.ranks == 1)
        {
            int mask = 1 + sim::choose_w((1 << dim) - 1);
            for (std::size_t d = 0; d < dim; ++d)
            {
                p.D.periodic[d] = mask >> d & 1;
            }
        }
    }
    int start = sim::choose_w(3);
    if (start && p.D.maxl > p.D.minl)
    {
        uint32_t sd = sim::choose_w(1 << 16);
        p.start     = random_mesh(p.D, sd, 1 + sim::choose_w(start == 1 ? 4 : 24));
    }
    int nops = 2 + sim::choose_w(dim == 3 ? 4 : 6);
    std::string names;
    for (int k = 0; k < nops; ++k)
    {
        Op o;
        o.kind = k == 0 ? op_adapt : sim::choose_w(WITH_FLUX ? op_kinds : op_flux);
        o.eps  = std::pow(10., -sim::range_w(1, 5));
        o.reg  = sim::range_w(0, 3);
        o.fn   = sim::choose_w(11);
        static const double speeds[] = {1.0, -0.7, 0.4, -1.0, 0.25, 0.0};
        for (std::size_t d = 0; d < 3; ++d)
        {
            o.vel[d] = o.kind == op_upwind ? speeds[sim::choose_w(6)] : 0;
        }
        o.burgers = dim == 2 && o.kind == op_upwind && sim::choose_w(3) == 2;
        for (auto& x : o.pos)
        {
            x = (sim::choose_w(64) + 0.37) / 64;
        }
        p.ops.push_back(o);
        static const char* nm[] = {"adapt", "modify", "ghost", "upwind", "diffusion"};
        char b[80];
        std::snprintf(b, sizeof b, o.kind == op_adapt ? " %s(%g,%g)" : " %s", nm[o.kind], o.eps, o.reg);
        names += b;
        sim::count(std::string("op_") + nm[o.kind]);
    }
    char b[400];
    std::snprintf(b, sizeof b, "dim %d stencil %d levels %d-%d ranks %d mode %d%s bc %s(%g) periodic %d%d%d shape %d fn %d ops:", DIM, SW, p.D.minl, p.D.maxl,
                  p.ranks, p.mode, p.enlarge ? " enlarge" : "", p.D.bc == BcKind::neumann0 ? "neumann" : p.D.bc == BcKind::dirichlet ? "dirichlet" : "by face", p.D.bcval, p.D.periodic[0],
                  p.D.periodic[1], p.D.periodic[2], shape, p.fn);
    sim::W().sample = b + names;
    sim::count("ranks_" + std::to_string(p.ranks));

    static const unsigned char fills[] = {0, 0xff, 0x7b, 0xc1};
    sim::g_fill = fills[sim::choose_w(4)];
    sim::g_stack_fill = 256 << 10;
    History h   = run(p);
    sim::W().phase = "checking";
    for (auto& s : h)
    {
        for (auto& l : s.leaf)
        {
            for (auto& [k, v] : l)
            {
                uint64_t z;
                std::memcpy(&z, &v[0], 8);
                sim::log_state(z ^ (static_cast<uint64_t>(k[0]) << 50));
            }
        }
    }
    check(p, h);
    if (p.ranks == 1 && sim::relevant("C14"))
    {
        sim::g_fill    = static_cast<unsigned char>(~sim::g_fill);
        sim::W().phase = "run with other initial memory";
        compare(p, h, run(p), "C14");
    }
    if (p.ranks > 1 && sim::relevant("C03"))
    {
        Params p1   = p;
        sim::g_fill = static_cast<unsigned char>(~sim::g_fill);
        p1.ranks  = 1;
        sim::W().phase = "one-process reference run";
        History h1 = run(p1);
        sim::W().phase = "comparing";
        compare(p, h, h1, "C03");
    }
}

int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, "mr_mpi", body);
}
