/* The model of problems whose numbers are not exact (C26, C27): it computes in extended precision. */
#pragma once
#include "repo.hpp"

namespace rounded
{
using namespace bridge;
using pbt::Case;
using real = long double;
struct Rounded
{
    const Problem& p;
    std::vector<real> low_node, low_edge;
    real scale = 0;
    explicit Rounded(const Problem& p) : p{p}, low_node(p.pixels()), low_edge(p.pixels() * 4)
    {
        for_nodes([&](ul x, ul y, ul d) {
            const real value = node(x, y, d);
            scale = std::max(scale, std::abs(value));
            real& low = low_node[y * p.W + x];
            if (d == 0 || value < low) low = value;
        });
        for_edges([&](ul x, ul y, ul n, ul d, ul nd, bool first) {
            const real value = edge(x, y, n, d, nd);
            scale = std::max(scale, std::abs(value));
            real& low = low_edge[(y * p.W + x) * 4 + n];
            if (first || value < low) low = value;
        });
        if (p.reparametrized)
            for (double v : p.phi) scale = std::max(scale, static_cast<real>(std::abs(v)));
    }
    template <class F> void for_nodes(F f) const
    {
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                for (ul d = 0; d < p.levels(x); ++d) f(x, y, d);
    }
    template <class F> void for_edges(F f) const
    {
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!p.neighbor(x, y, n, nx, ny)) continue;
                    bool first = true;
                    for (ul d = 0; d < p.levels(x); ++d)
                        for (ul nd = 0; nd < p.levels(nx); ++nd)
                            if (Problem::allowed(n, d, nd)) { f(x, y, n, d, nd, first); first = false; }
                }
    }
    real node(ul x, ul y, ul d) const
    {
        const real difference = static_cast<real>(p.L[y * p.W + x + d]) - static_cast<real>(p.R[y * p.W + x]);
        real result = static_cast<real>(p.c) * difference * difference;
        if (p.reparametrized)
        {
            ul nx, ny;
            for (ul n = 0; n < 4; ++n)
                if (p.neighbor(x, y, n, nx, ny)) result += p.phi_at(x, y, n, d);
        }
        return result;
    }
    real edge(ul x, ul y, ul n, ul d, ul nd) const
    {
        const real difference = static_cast<real>(d) - static_cast<real>(nd);
        real result = static_cast<real>(p.s) * difference * difference;
        if (p.reparametrized)
        {
            ul nx, ny;
            p.neighbor(x, y, n, nx, ny);
            result -= static_cast<real>(p.phi_at(x, y, n, d)) + static_cast<real>(p.phi_at(nx, ny, Problem::opposite(n), nd));
        }
        return result;
    }
    real node_excess(ul x, ul y, ul d) const { return node(x, y, d) - low_node[y * p.W + x]; }
    real edge_excess(ul x, ul y, ul n, ul d, ul nd) const { return edge(x, y, n, d, nd) - low_edge[(y * p.W + x) * 4 + n]; }
    Nodes closure(real threshold, const Nodes* from = nullptr) const
    {
        Nodes result(p);
        for_nodes([&](ul x, ul y, ul d) { result.at(x, y, d) = from ? from->at(x, y, d) : node_excess(x, y, d) <= threshold; });
        for (bool changed = true; changed;)
        {
            changed = false;
            for_nodes([&](ul x, ul y, ul d) {
                if (!result.at(x, y, d)) return;
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!p.neighbor(x, y, n, nx, ny)) continue;
                    bool supported = false;
                    for (ul nd = 0; nd < p.levels(nx) && !supported; ++nd)
                        supported = Problem::allowed(n, d, nd) && result.at(nx, ny, nd) && edge_excess(x, y, n, d, nd) <= threshold;
                    if (!supported) { result.at(x, y, d) = 0; changed = true; return; }
                }
            });
        }
        return result;
    }
    /* Every pixel has a node. */
    bool full(const Nodes& nodes) const
    {
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                if (nodes.count(x, y) == 0) return false;
        return true;
    }
};
double any_weight(Case& c)
{
    static const std::vector<double> decimals{0.1, 0.2, 0.3, 0.7, 1.1, 1.0 / 3, 2.0 / 3, 1e-3, 0.01, 3.14159, 99.9, 1e9 / 7, 1e-9, 123.456, 1e-15, 1e100 / 3, 1e250};
    if (c.chance(1, 2)) return c.pick(decimals);
    double mantissa = 1 + static_cast<double>(c.draw((1ul << 52) - 1)) * 0x1p-52;
    return std::ldexp(mantissa, static_cast<int>(c.signed_range(c.chance(1, 3) ? 45 : 6)));
}
}
