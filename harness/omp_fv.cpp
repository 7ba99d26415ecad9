// Thread-parallel loops and explicit finite-volume schemes on the simulated OpenMP runtime.
// Build with -DDIM=1|2|3 -DSAMURAI_WITH_OPENMP -fopenmp -fsanitize=thread -c, link without both.
#include "main.hpp"
#include "model.hpp"
#include "omp.hpp"
#include <samurai/algorithm/update.hpp>
#include <samurai/bc.hpp>
#include <samurai/field.hpp>
#include <samurai/interface.hpp>
#include <samurai/mr/mesh.hpp>
#include <samurai/schemes/fv.hpp>

constexpr std::size_t dim = DIM;
using Config              = samurai::MRConfig<dim>;
using Mesh                = samurai::MRMesh<Config>;
using mesh_id_t           = Mesh::mesh_id_t;
using cl_t                = Mesh::cl_type;
using FieldU              = samurai::Field<Mesh, double, 1>;
using FieldV              = samurai::Field<Mesh, double, 2>;

struct Leaves
{
    Domain D;
    std::set<Key> leaf;

    bool is_leaf(const Key& k) const
    {
        return leaf.count(k) > 0;
    }

    // the leaf that contains cell k, or level -1
    Key cover(Key k) const
    {
        while (k[0] >= D.minl)
        {
            if (is_leaf(k))
            {
                return k;
            }
            --k[0];
            for (std::size_t d = 0; d < dim; ++d)
            {
                k[d + 1] >>= 1;
            }
        }
        return {-1, 0, 0, 0};
    }

    void split(const Key& k)
    {
        leaf.erase(k);
        for (int m = 0; m < (1 << dim); ++m)
        {
            Key c{k[0] + 1, 0, 0, 0};
            for (std::size_t d = 0; d < dim; ++d)
            {
                c[d + 1] = 2 * k[d + 1] + ((m >> d) & 1);
            }
            leaf.insert(c);
        }
    }

    void grade()
    {
        for (bool again = true; again;)
        {
            again = false;
            std::vector<Key> todo;
            for (const Key& k : leaf)
            {
                int n = dim == 1 ? 3 : dim == 2 ? 9 : 27;
                for (int m = 0; m < n; ++m)
                {
                    Key q = k;
                    int t = m;
                    for (std::size_t d = 0; d < dim; ++d)
                    {
                        q[d + 1] += t % 3 - 1;
                        t /= 3;
                        if (D.periodic[d])
                        {
                            int nn   = D.n(k[0], d);
                            q[d + 1] = (q[d + 1] + nn) % nn;
                        }
                    }
                    if (!D.inside(q))
                    {
                        continue;
                    }
                    Key c = cover(q);
                    if (c[0] >= 0 && c[0] < k[0] - 1)
                    {
                        todo.push_back(c);
                    }
                }
            }
            for (auto& c : todo)
            {
                if (is_leaf(c))
                {
                    split(c);
                    again = true;
                }
            }
        }
    }
};

static Leaves random_leaves()
{
    Leaves L;
    L.D.dim  = dim;
    L.D.minl = sim::range_w(1, dim == 1 ? 4 : 3 - (dim == 3));
    L.D.maxl = L.D.minl + sim::range_w(0, dim == 3 ? 2 : 3);
    if (dim > 1 && sim::choose_w(3) == 2)
    {
        L.D.aspect[sim::choose_w(dim)] = 2;
    }
    bool wide = sim::choose_w(16) == 15; // few long rows
    if (wide)
    {
        L.D.minl      = dim == 1 ? 8 : 2;
        L.D.maxl      = L.D.minl + sim::range_w(0, 1);
        L.D.aspect    = {dim == 1 ? 1 : dim == 2 ? 32 : 24, 1, 1};
    }
    if (sim::choose_w(4) == 3)
    {
        int mask = 1 + sim::choose_w((1 << dim) - 1);
        for (std::size_t d = 0; d < dim; ++d)
        {
            L.D.periodic[d] = mask >> d & 1;
        }
    }
    L.D.bc    = sim::choose_w(2) ? BcKind::dirichlet : BcKind::neumann0;
    L.D.bcval = L.D.bc == BcKind::dirichlet ? 0.25 * sim::range_w(-2, 4) : 0;
    int n[3] = {L.D.n(L.D.minl, 0), dim > 1 ? L.D.n(L.D.minl, 1) : 1, dim > 2 ? L.D.n(L.D.minl, 2) : 1};
    for (int a = 0; a < n[0]; ++a)
    {
        for (int b = 0; b < n[1]; ++b)
        {
            for (int c = 0; c < n[2]; ++c)
            {
                L.leaf.insert({L.D.minl, a, b, c});
            }
        }
    }
    for (int l = L.D.minl; l < L.D.maxl; ++l)
    {
        std::vector<Key> cand;
        for (auto& k : L.leaf)
        {
            if (k[0] == l)
            {
                cand.push_back(k);
            }
        }
        int share = wide ? 8 : sim::range_w(0, 6);
        bool block = sim::choose_w(3) == 2 || wide; // refine one box instead of scattered cells
        int lo[3], hi[3];
        for (std::size_t d = 0; d < 3; ++d)
        {
            int nd = d < dim ? L.D.n(l, static_cast<int>(d)) : 1;
            lo[d]  = block ? sim::range_w(0, nd - 1) : 0;
            hi[d]  = block ? lo[d] + 1 + sim::range_w(0, nd) : nd;
        }
        for (auto& k : cand)
        {
            if (block && (k[1] < lo[0] || k[1] >= hi[0] || k[2] < lo[1] || k[2] >= hi[1] || k[3] < lo[2] || k[3] >= hi[2]))
            {
                continue;
            }
            if (L.leaf.size() < 1500 && static_cast<int>(sim::choose_w(8)) < share)
            {
                L.split(k);
            }
        }
        L.grade();
    }
    return L;
}

template <class Cell>
static Key key_of(const Cell& c)
{
    Key k{static_cast<int>(c.level), 0, 0, 0};
    for (std::size_t d = 0; d < dim; ++d)
    {
        k[d + 1] = c.indices[d];
    }
    return k;
}

// faces normal to d between two leaves, or between a leaf and the outside.  Named by the finer side: the cell of level l
// on the left of the face (which may lie outside).
struct Face
{
    Key left, right;     // same level (the finer one), may be outside or inside a coarser leaf
    Key lleaf, rleaf;    // the leaves, level -1 if outside
};

static std::vector<Face> faces(const Leaves& L, std::size_t d)
{
    std::vector<Face> f;
    for (const Key& k : L.leaf)
    {
        for (int side = 0; side < 2; ++side)
        {
            Key q = k;
            q[d + 1] += side ? 1 : -1;
            Key c{-1, 0, 0, 0};
            if (L.D.inside(q))
            {
                c = L.cover(q);
                if (c[0] < 0)
                {
                    continue; // finer leaves there: they name the face
                }
                if (c[0] == k[0] && side == 0)
                {
                    continue; // counted from the other side
                }
            }
            f.push_back(side ? Face{k, q, k, c} : Face{q, k, c, k});
        }
    }
    return f;
}

using namespace sim;

struct Setup
{
    Leaves L;
    int fn;
    double k[3];
};

static double uval(const Setup& s, const Key& c, int comp)
{
    double h = std::ldexp(1., -c[0]), t = 0.4 * comp + 0.3, r = 0;
    for (std::size_t d = 0; d < dim; ++d)
    {
        double x = h * (c[d + 1] + 0.5);
        t += s.k[d] * x * (d + 1);
        r += (x - 0.4) * (x - 0.4);
    }
    return s.fn == 0 ? std::sin(3 * t) : s.fn == 1 ? std::exp(-20 * r) * (1 + comp) : (r < 0.1 ? 1. + comp : -0.5);
}

// ---- the schemes and what they must compute at one face --------------------------------------------------------------
// value added to the left cell (to be scaled by face/cell measure); the right cell receives the opposite
static double burgers_flux(double l, double r)
{
    return l >= 0 ? l * l / 2 : r * r / 2;
}

template <class F>
static auto nonlinear_scheme()
{
    using cfg = samurai::FluxConfig<samurai::SchemeType::NonLinear, F::size, 2, F>;
    samurai::FluxDefinition<cfg> fl;
    samurai::static_for<0, dim>::apply(
        [&](auto ic)
        {
            static constexpr std::size_t d = decltype(ic)::value;
            fl[d].cons_flux_function       = [](auto& cells, const F& u)
            {
                samurai::FluxValue<cfg> f;
                if constexpr (F::size == 1)
                {
                    f = (1 + 0.5 * d) * burgers_flux(u[cells[0]], u[cells[1]]);
                }
                else
                {
                    f(0) = (1 + 0.5 * d) * burgers_flux(u[cells[0]][0], u[cells[1]][0]);
                    f(1) = u[cells[0]][1] * u[cells[1]][0];
                }
                return f;
            };
        });
    return samurai::make_flux_based_scheme(fl);
}

// flux of scheme `s` through a face normal to d
static double ref_flux(int s, std::size_t d, int comp, const Vals& l, const Vals& r, double h)
{
    static const double K[3] = {1.0, 0.5, 2.0}, a[3] = {0.8, -0.6, 1.1};
    auto diff = [&](int q, double k)
    {
        return -k * (r[q] - l[q]) / h;
    };
    auto conv = [&](int q)
    {
        return a[d] >= 0 ? a[d] * l[q] : a[d] * r[q];
    };
    auto nl = [&](int q)
    {
        return (1 + 0.5 * d) * burgers_flux(l[q], r[q]);
    };
    switch (s)
    {
        case 0:
            return diff(0, K[d]);
        case 1:
            return conv(0);
        case 2:
            return nl(0);
        case 3: // two-component diffusion with one coefficient per component
            return diff(1 + comp, comp ? 0.3 : 1.7);
        case 4: // two-component non-linear
            return comp ? l[2] * r[1] : nl(1);
        default: // sum of operators
            return diff(0, K[d]) + conv(0) + nl(0);
    }
}

static void body()
{
    Setup S;
    S.L  = random_leaves();
    S.fn = choose_w(3);
    for (auto& x : S.k)
    {
        x = 0.5 + 0.25 * choose_w(6);
    }
    int threads         = 1 + choose_w(8);
    simomp::G().may_shrink = choose_w(3) == 2;
    int nact            = 1 + choose_w(3);
    static const unsigned char fills[] = {0, 0xff, 0x7b, 0xc1};
    g_fill              = fills[choose_w(4)];
    simomp::reset(1);
    const Domain& D = S.L.D;
    {
        Rng& r            = W().rp;
        simomp::G().p_now = r.below(3) == 0 ? 0 : 0.05 + 0.6 * r.unit();
        simomp::G().gap   = r.below(5) == 0 ? 0 : 1u << (5 + r.below(7));
    }

    // mesh with exactly these leaves
    xt::xtensor_fixed<double, xt::xshape<dim>> mn, mx;
    std::array<bool, dim> per{};
    for (std::size_t d = 0; d < dim; ++d)
    {
        mn[d]  = 0;
        mx[d]  = D.aspect[d];
        per[d] = D.periodic[d];
    }
    Mesh ref{samurai::Box<double, dim>(mn, mx), static_cast<std::size_t>(D.minl), static_cast<std::size_t>(D.maxl), per};
    cl_t cl;
    for (const Key& k : S.L.leaf)
    {
        xt::xtensor_fixed<int, xt::xshape<dim - 1>> yz;
        for (std::size_t d = 1; d < dim; ++d)
        {
            yz[d - 1] = k[d + 1];
        }
        cl[static_cast<std::size_t>(k[0])][yz].add_point(k[1]);
    }
    Mesh mesh{cl, ref};
    FieldU u("u", mesh);
    FieldV v("v", mesh);
    u.fill(0);
    v.fill(0);
    LeafMap vals;
    samurai::for_each_cell(mesh,
                           [&](auto& c)
                           {
                               Key k = key_of(c);
                               Vals x{uval(S, k, 0), uval(S, k, 1), uval(S, k, 2)};
                               u[c]    = x[0];
                               v[c][0] = x[1];
                               v[c][1] = x[2];
                               vals[k] = x;
                           });
    if (vals.size() != S.L.leaf.size())
    {
        violation("C08", "cells-lost", "the sequential loop visits " + std::to_string(vals.size()) + " of " + std::to_string(S.L.leaf.size()) + " leaves");
    }
    if (D.bc == BcKind::neumann0)
    {
        samurai::make_bc<samurai::Neumann<1>>(u, 0.);
        samurai::make_bc<samurai::Neumann<1>>(v, 0., 0.);
    }
    else
    {
        samurai::make_bc<samurai::Dirichlet<1>>(u, D.bcval);
        samurai::make_bc<samurai::Dirichlet<1>>(v, D.bcval, D.bcval);
    }
    samurai::update_ghost_mr(u, v);
    Model M(D, vals);
    count("leaves", vals.size());
    count("threads_" + std::to_string(threads));
    simomp::reset(threads);
    std::string names;

    auto pass = [&](auto&& once)
    {
        // first under a random schedule that also finds out which addresses two threads touch without synchronisation,
        // then again with preemption at those
        simomp::G().learn  = true;
        simomp::G().hot_on = false;
        once();
        simomp::G().learn = false;
        if (simomp::g_hot)
        {
            count("conflicting_addresses", simomp::g_hot);
            simomp::G().hot_on = true;
            for (int k = 0; k < 3; ++k)
            {
                once();
            }
            simomp::G().hot_on = false;
            std::memset(simomp::hotset(), 0, simomp::SH * 8);
            simomp::g_hot = 0;
        }
    };

    for (int act = 0; act < nact; ++act)
    {
        int what = choose_w(10);
        if (what == 0) // parallel loop over the leaves
        {
            names += " cells";
            W().phase = "parallel loop over the cells";
            pass(
                [&]()
                {
                    std::vector<int> seen(mesh.nb_cells(), 0);
                    int bad = 0;
                    FieldU w("w", mesh);
                    w.fill(0);
                    samurai::for_each_cell<samurai::Run::Parallel>(mesh,
                                                                   [&](const auto& c)
                                                                   {
                                                                       __atomic_fetch_add(&seen[static_cast<std::size_t>(c.index)], 1, __ATOMIC_RELAXED);
                                                                       w[c] = u[c] + 1;
                                                                       if (c.length != std::ldexp(1., -static_cast<int>(c.level)))
                                                                       {
                                                                           __atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED);
                                                                       }
                                                                   });
                    std::size_t once = 0;
                    samurai::for_each_cell(mesh,
                                           [&](const auto& c)
                                           {
                                               int n = seen[static_cast<std::size_t>(c.index)];
                                               if (n != 1)
                                               {
                                                   violation("C08", "cell-visits", "cell " + show(key_of(c)) + " visited " + std::to_string(n) + " times");
                                               }
                                               if (w[c] != u[c] + 1)
                                               {
                                                   violation("C08", "cell-value", "the value written for cell " + show(key_of(c)) + " is not there");
                                               }
                                               ++once;
                                           });
                    std::size_t total = 0;
                    for (int n : seen)
                    {
                        total += static_cast<std::size_t>(n);
                    }
                    if (total != once || bad)
                    {
                        violation("C08", "cell-visits", std::to_string(total) + " visits for " + std::to_string(once) + " cells, " + std::to_string(bad) + " malformed");
                    }
                });
            if (threads > 1)
            {
                nontrivial("C08");
            }
        }
        else if (what == 1 || what == 2) // parallel loops over the interfaces
        {
            std::size_t d = choose_w(dim);
            names += " interfaces" + std::to_string(d);
            W().phase = "parallel loop over the interfaces";
            auto fs   = faces(S.L, d);
            std::map<Key, std::pair<Face, int>> want_i, want_b; // by the cell left of the face at the finer level
            for (auto& f : fs)
            {
                bool bd = f.lleaf[0] < 0 || f.rleaf[0] < 0;
                (bd ? want_b : want_i)[f.left] = {f, 0};
            }
            samurai::DirectionVector<dim> dir;
            dir.fill(0);
            dir[d] = 1;
            pass(
                [&]()
                {
                    for (auto& [k, x] : want_i)
                    {
                        x.second = 0;
                    }
                    for (auto& [k, x] : want_b)
                    {
                        x.second = 0;
                    }
                    int unknown = 0, wrong = 0;
                    std::vector<int> seen(1, 0);
                    samurai::for_each_interior_interface<samurai::Run::Parallel>(mesh,
                                                                                 dir,
                                                                                 [&](auto& cells, auto& comput)
                                                                                 {
                                                                                     Key l   = key_of(comput[0]), r = key_of(comput[1]);
                                                                                     auto it = want_i.find(l);
                                                                                     if (it == want_i.end())
                                                                                     {
                                                                                         __atomic_fetch_add(&unknown, 1, __ATOMIC_RELAXED);
                                                                                         return;
                                                                                     }
                                                                                     const Face& f = it->second.first;
                                                                                     bool ok       = r == f.right && key_of(cells[0]) == f.lleaf && key_of(cells[1]) == f.rleaf;
                                                                                     // the value found through the cell handed out is the value of that cell
                                                                                     ok = ok && u[cells[0]] == vals.at(f.lleaf)[0] && u[cells[1]] == vals.at(f.rleaf)[0];
                                                                                     if (!ok)
                                                                                     {
                                                                                         __atomic_fetch_add(&wrong, 1, __ATOMIC_RELAXED);
                                                                                     }
                                                                                     __atomic_fetch_add(&it->second.second, 1, __ATOMIC_RELAXED);
                                                                                 });
                    auto bd = [&](auto& cell, auto& comput, bool right)
                    {
                        Key l   = key_of(cell);
                        if (!right)
                        {
                            --l[d + 1];
                        }
                        auto it = want_b.find(l);
                        if (it == want_b.end())
                        {
                            __atomic_fetch_add(&unknown, 1, __ATOMIC_RELAXED);
                            return;
                        }
                        const Face& f = it->second.first;
                        bool ok       = key_of(cell) == (right ? f.lleaf : f.rleaf) && u[cell] == vals.at(key_of(cell))[0];
                        ok            = ok && key_of(comput[0]) == f.left && key_of(comput[1]) == f.right;
                        if (!ok)
                        {
                            __atomic_fetch_add(&wrong, 1, __ATOMIC_RELAXED);
                        }
                        __atomic_fetch_add(&it->second.second, 1, __ATOMIC_RELAXED);
                    };
                    auto st = samurai::in_out_stencil<dim>(dir);
                    samurai::for_each_boundary_interface__direction<samurai::Run::Parallel>(mesh,
                                                                                            dir,
                                                                                            st,
                                                                                            [&](auto& cell, auto& comput)
                                                                                            {
                                                                                                bd(cell, comput, true);
                                                                                            });
                    for (int l = D.minl; l <= D.maxl; ++l)
                    {
                        samurai::for_each_boundary_interface__opposite_direction<samurai::Run::Parallel>(mesh,
                                                                                                         static_cast<std::size_t>(l),
                                                                                                         dir,
                                                                                                         st,
                                                                                                         [&](auto& cell, auto& comput)
                                                                                                         {
                                                                                                             bd(cell, comput, false);
                                                                                                         });
                    }
                    if (unknown || wrong)
                    {
                        violation("C08", "interface", std::to_string(unknown) + " interfaces that do not exist, " + std::to_string(wrong) + " with the wrong cells");
                    }
                    for (auto* w : {&want_i, &want_b})
                    {
                        for (auto& [k, x] : *w)
                        {
                            if (x.second != 1)
                            {
                                violation("C08", "interface-visits", "the face right of " + show(k) + " normal to axis " + std::to_string(d) + " was visited " + std::to_string(x.second) + " times");
                            }
                        }
                    }
                });
            if (threads > 1)
            {
                nontrivial("C08");
            }
        }
        else // explicit scheme
        {
            int s     = choose_w(6);
            names += " scheme" + std::to_string(s);
            W().phase = "scheme " + std::to_string(s);
            // reference
            int nc = s == 3 || s == 4 ? 2 : 1;
            std::map<Key, std::array<double, 4>> want; // value and magnitude per component
            bool known = true;
            for (auto& k : S.L.leaf)
            {
                want[k] = {0, 0, 0, 0};
            }
            for (std::size_t d = 0; d < dim; ++d)
            {
                for (auto& f : faces(S.L, d))
                {
                    auto l = M.val(f.left), r = M.val(f.right);
                    if (!l.known || !r.known)
                    {
                        known = false;
                        continue;
                    }
                    double h = std::ldexp(1., -f.left[0]);
                    for (int q = 0; q < nc; ++q)
                    {
                        double fl = ref_flux(s, d, q, l.v, r.v, h) * std::pow(h, double(dim) - 1);
                        if (f.lleaf[0] >= 0)
                        {
                            double c = fl / std::pow(std::ldexp(1., -f.lleaf[0]), double(dim));
                            want[f.lleaf][q] += c;
                            want[f.lleaf][2 + q] += std::abs(c);
                        }
                        if (f.rleaf[0] >= 0)
                        {
                            double c = fl / std::pow(std::ldexp(1., -f.rleaf[0]), double(dim));
                            want[f.rleaf][q] -= c;
                            want[f.rleaf][2 + q] += std::abs(c);
                        }
                    }
                }
            }
            auto judge = [&](auto& out)
            {
                if (!known)
                {
                    count("schemes_without_statement");
                    return;
                }
                samurai::for_each_cell(mesh,
                                       [&](const auto& c)
                                       {
                                           Key k   = key_of(c);
                                           auto& w = want.at(k);
                                           for (int q = 0; q < nc; ++q)
                                           {
                                               double x;
                                               if constexpr (std::decay_t<decltype(out)>::size == 1)
                                               {
                                                   x = out[c];
                                               }
                                               else
                                               {
                                                   x = out[c][q];
                                               }
                                               if (!(std::abs(x - w[q]) <= 1e-10 * (1 + w[2 + q])))
                                               {
                                                   char z[220];
                                                   std::snprintf(z, sizeof z, "%d threads: component %d of leaf %s is %.15g, the fluxes through its faces give %.15g", threads, q, show(k).c_str(), x, w[q]);
                                                   violation("C09", "scheme-value", z);
                                               }
                                           }
                                       });
                count("scheme_cells_checked", want.size());
                if (threads > 1)
                {
                    nontrivial("C09");
                }
            };
            samurai::DiffCoeff<dim> K;
            samurai::VelocityVector<dim> a;
            static const double Kv[3] = {1.0, 0.5, 2.0}, av[3] = {0.8, -0.6, 1.1};
            for (std::size_t d = 0; d < dim; ++d)
            {
                K[d] = Kv[d];
                a[d] = av[d];
            }
            auto go = [&](auto&& scheme, auto& f)
            {
                pass(
                    [&]()
                    {
                        auto out = scheme(f);
                        judge(out);
                    });
            };
            auto diff = samurai::make_diffusion_order2<FieldU>(K);
            auto conv = samurai::make_convection_upwind<FieldU>(a);
            auto nlin = nonlinear_scheme<FieldU>();
            switch (s)
            {
                case 0:
                    go(diff, u);
                    break;
                case 1:
                    go(conv, u);
                    break;
                case 2:
                    go(nlin, u);
                    break;
                case 3:
                {
                    samurai::DiffCoeff<2> k2;
                    k2[0] = 1.7;
                    k2[1] = 0.3;
                    go(samurai::make_multi_diffusion_order2<FieldV>(k2), v);
                    break;
                }
                case 4:
                    go(nonlinear_scheme<FieldV>(), v);
                    break;
                default:
                    go(diff + conv + nlin, u);
            }
        }
    }
    count("parallel_regions", simomp::G().regions);
    count("tasks", simomp::G().tasks);
    count("fault:preemption_inside_task", simomp::G().preempts);
    char b[200];
    std::snprintf(b, sizeof b, "dim %d levels %d-%d leaves %d periodic %d%d%d bc %s threads %d actions:", DIM, D.minl, D.maxl, int(vals.size()), D.periodic[0], D.periodic[1],
                  D.periodic[2], D.bc == BcKind::neumann0 ? "neumann" : "dirichlet", threads);
    W().sample = b + names;
}

int main(int argc, char** argv)
{
    return sim_main(argc, argv, "omp_fv", body);
}
