// Independent reference model of a multiresolution mesh: nothing here calls samurai.
// A cell is (level, i, j, k), indices counted from the lower corner of the domain.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using Key              = std::array<int, 4>;
constexpr int NC       = 3; // u, v0, v1
using Vals             = std::array<double, NC>;
using LeafMap          = std::map<Key, Vals>;

struct KeyHash
{
    std::size_t operator()(const Key& k) const
    {
        uint64_t h = 1469598103934665603ull;
        for (int x : k)
        {
            h = (h ^ static_cast<uint32_t>(x)) * 1099511628211ull;
        }
        return h;
    }
};

enum class BcKind
{
    neumann0,
    dirichlet,
    by_face
};

struct FaceBc
{
    bool dirichlet = false; // otherwise: normal derivative
    bool fn        = false; // value varies along the boundary
    Vals a{}, b{};          // a + b * (sum of the coordinates of the face centre, in level 0 cells)
};

struct Domain
{
    int dim = 2;
    std::array<int, 3> aspect{1, 1, 1}; // cells at level 0 in each direction
    std::array<bool, 3> periodic{false, false, false};
    int minl = 1, maxl = 3;
    BcKind bc = BcKind::neumann0;
    double bcval = 0;
    double unit  = 1;               // length of a level 0 cell
    std::array<FaceBc, 6> face{};   // by_face: 2 * direction + (1 on the upper side)

    int n(int level, int d) const
    {
        return aspect[d] << level;
    }

    bool inside(const Key& k) const
    {
        for (int d = 0; d < dim; ++d)
        {
            if (k[d + 1] < 0 || k[d + 1] >= n(k[0], d))
            {
                return false;
            }
        }
        return true;
    }
};

inline std::string show(const Key& k)
{
    char b[96];
    std::snprintf(b, sizeof b, "L%d(%d,%d,%d)", k[0], k[1], k[2], k[3]);
    return b;
}

// leaf cover of the finest grid: how often each finest cell is covered, and the level that covers it
struct Cover
{
    std::size_t missing = 0, dup = 0, outside = 0;
    std::vector<int> lev;
    std::array<int, 3> n{1, 1, 1};
    std::string first;

    template <class Keys>
    Cover(const Domain& D, const Keys& keys)
    {
        std::size_t tot = 1;
        for (int d = 0; d < D.dim; ++d)
        {
            n[d] = D.n(D.maxl, d);
            tot *= static_cast<std::size_t>(n[d]);
        }
        std::vector<int> c(tot, 0);
        lev.assign(tot, -1);
        for (const Key& k : keys)
        {
            if (k[0] < D.minl || k[0] > D.maxl)
            {
                ++outside;
                first = show(k) + " has a level outside [min,max]";
                continue;
            }
            int w = 1 << (D.maxl - k[0]);
            std::array<int, 3> e{1, 1, 1};
            bool out = false;
            for (int d = 0; d < D.dim; ++d)
            {
                e[d] = w;
                out |= k[d + 1] < 0 || k[d + 1] >= D.n(k[0], d);
            }
            if (out)
            {
                ++outside;
                first = show(k) + " lies outside the domain";
                continue;
            }
            for (int a = 0; a < e[0]; ++a)
            {
                for (int b = 0; b < e[1]; ++b)
                {
                    for (int g = 0; g < e[2]; ++g)
                    {
                        std::size_t id = idx({k[1] * e[0] + a, D.dim > 1 ? k[2] * e[1] + b : 0, D.dim > 2 ? k[3] * e[2] + g : 0});
                        if (c[id]++)
                        {
                            first = show(k) + " covers a region that another leaf covers too";
                        }
                        lev[id] = k[0];
                    }
                }
            }
        }
        for (std::size_t id = 0; id < tot; ++id)
        {
            missing += c[id] == 0;
            dup += c[id] > 1;
            if (c[id] == 0 && first.empty())
            {
                auto p = at(id);
                char b[96];
                std::snprintf(b, sizeof b, "finest cell (%d,%d,%d) is covered by no leaf", p[0], p[1], p[2]);
                first = b;
            }
        }
    }

    std::size_t idx(std::array<int, 3> p) const
    {
        return (static_cast<std::size_t>(p[0]) * n[1] + p[1]) * n[2] + p[2];
    }

    std::array<int, 3> at(std::size_t id) const
    {
        return {static_cast<int>(id / n[2] / n[1]), static_cast<int>(id / n[2] % n[1]), static_cast<int>(id % n[2])};
    }

    bool ok() const
    {
        return !missing && !dup && !outside;
    }

    // number of neighbouring finest cells (faces, edges and corners) whose levels differ by more than one
    std::size_t ungraded(const Domain& D, std::string& ex) const
    {
        std::size_t bad = 0;
        for (std::size_t id = 0; id < lev.size(); ++id)
        {
            auto p = at(id);
            for (int m = 0; m < 27; ++m)
            {
                std::array<int, 3> o{m % 3 - 1, m / 3 % 3 - 1, m / 9 - 1};
                std::array<int, 3> q = p;
                bool in = m != 13;
                for (int d = 0; d < 3 && in; ++d)
                {
                    if (d >= D.dim)
                    {
                        in = o[d] == 0;
                        continue;
                    }
                    q[d] += o[d];
                    if (q[d] < 0 || q[d] >= n[d])
                    {
                        in   = D.periodic[d];
                        q[d] = (q[d] + n[d]) % n[d];
                    }
                }
                if (in && std::abs(lev[id] - lev[idx(q)]) > 1)
                {
                    if (!bad++)
                    {
                        char b[160];
                        std::snprintf(b, sizeof b, "finest cells (%d,%d,%d) and (%d,%d,%d) touch but belong to leaves of levels %d and %d", p[0], p[1],
                                      p[2], q[0], q[1], q[2], lev[id], lev[idx(q)]);
                        ex = b;
                    }
                }
            }
        }
        return bad;
    }
};

// value of any cell, derived from the leaf values of the whole domain:
//   leaf -> its value; union of finer leaves -> mean; inside a coarser leaf -> prediction from the next coarser level;
//   outside -> periodic image or boundary condition (first layer, face neighbours; corners in 2D).
// known == false: the model makes no statement.
struct Model
{
    struct R
    {
        bool known;
        Vals v;
    };

    const Domain& D;
    std::unordered_map<Key, Vals, KeyHash> leaf;
    std::unordered_map<Key, char, KeyHash> anc;
    std::unordered_map<Key, R, KeyHash> memo;

    Model(const Domain& d, const LeafMap& l)
        : D(d)
    {
        for (auto& [k, v] : l)
        {
            leaf[k] = v;
            Key a   = k;
            while (a[0] > 0)
            {
                a = parent(a);
                if (!anc.emplace(a, 1).second)
                {
                    break;
                }
            }
        }
    }

    Key parent(Key a) const
    {
        --a[0];
        for (int d = 0; d < D.dim; ++d)
        {
            a[d + 1] >>= 1;
        }
        return a;
    }

    const R& val(const Key& k)
    {
        auto it = memo.find(k);
        if (it != memo.end())
        {
            return it->second;
        }
        R r = calc(k);
        return memo[k] = r;
    }

    R calc(Key k)
    {
        R unknown{false, {}};
        // outside
        int nout = 0, ld = -1, nper = 0;
        Key c = k;
        for (int d = 0; d < D.dim; ++d)
        {
            int n = D.n(k[0], d);
            if (k[d + 1] >= 0 && k[d + 1] < n)
            {
                continue;
            }
            if (D.periodic[d])
            {
                c[d + 1] = ((k[d + 1] % n) + n) % n;
                ++nper;
                continue;
            }
            ++nout;
            ld = d;
            if (k[d + 1] < -1 || k[d + 1] > n)
            {
                return unknown; // second layer
            }
            c[d + 1] = k[d + 1] < 0 ? 0 : n - 1;
        }
        if (nout)
        {
            R r = val(c);
            if (r.known && nout == 1 && D.bc == BcKind::by_face)
            {
                bool up          = k[ld + 1] > 0;
                const FaceBc& fb = D.face[2 * ld + up];
                double h = 1. / (1 << k[0]), pos = 0;
                for (int d = 0; d < D.dim; ++d)
                {
                    pos += d == ld ? (up ? D.aspect[d] : 0) : (c[d + 1] + 0.5) * h;
                }
                for (int q = 0; q < NC; ++q)
                {
                    double g = fb.a[q] + (fb.fn ? fb.b[q] * pos : 0);
                    r.v[q]   = fb.dirichlet ? 2 * g - r.v[q] : r.v[q] + h * D.unit * g;
                }
            }
            if (r.known && nout == 1 && D.bc == BcKind::dirichlet)
            {
                for (auto& x : r.v)
                {
                    x = 2 * D.bcval - x;
                }
            }
            return r;
        }
        if (nper)
        {
            return val(c);
        }
        auto it = leaf.find(k);
        if (it != leaf.end())
        {
            return {true, it->second};
        }
        R s{true, {}};
        if (anc.count(k))
        {
            for (int m = 0; m < (1 << D.dim); ++m)
            {
                Key ch = k;
                ++ch[0];
                for (int d = 0; d < D.dim; ++d)
                {
                    ch[d + 1] = 2 * k[d + 1] + ((m >> d) & 1);
                }
                R r = val(ch);
                if (!r.known)
                {
                    return unknown;
                }
                for (int q = 0; q < NC; ++q)
                {
                    s.v[q] += r.v[q] / (1 << D.dim);
                }
            }
            return s;
        }
        if (k[0] == 0 || k[0] <= D.minl)
        {
            return unknown;
        }
        Key p = parent(k);
        int n = 1;
        for (int d = 0; d < D.dim; ++d)
        {
            n *= 3;
        }
        for (int m = 0; m < n; ++m)
        {
            int t = m, nz = 0;
            double w = 1;
            Key q    = p;
            for (int d = 0; d < D.dim; ++d)
            {
                int o = t % 3 - 1;
                t /= 3;
                q[d + 1] += o;
                if (o)
                {
                    ++nz;
                    w *= ((k[d + 1] & 1) ? o : -o) * 0.125;
                }
            }
            if (nz == 2)
            {
                w = -w;
            }
            R r = val(q);
            if (!r.known)
            {
                return unknown;
            }
            for (int c2 = 0; c2 < NC; ++c2)
            {
                s.v[c2] += w * r.v[c2];
            }
        }
        return s;
    }
};
