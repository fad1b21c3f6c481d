/*
 * Independent reference model of the stereo problem,
 * written from the documentation, not from the code under test.
 * All numbers drawn by generators are small dyadic rationals,
 * so every sum and product is exact and comparisons are exact too.
 */
#pragma once
#include "pbt.hpp"

#include <array>
#include <limits>
#include <memory>
#include <optional>
#include <set>

namespace model
{

using pbt::Case;
using pbt::str;
using ul = unsigned long;

struct Problem
{
    ul W = 2, H = 1, D = 2, max_value = 1;
    std::vector<ul> L, R;            // row-major
    double c = 1, s = 1;
    double scale = 1;                // granularity of weights and of reparametrization relative to the usual one
    bool reparametrized = false;
    std::vector<double> phi;         // [y][x][neighbor][disparity]

    ul pixels() const { return W * H; }
    double& phi_at(ul x, ul y, ul n, ul d) { return phi[((y * W + x) * 4 + n) * D + d]; }
    double phi_at(ul x, ul y, ul n, ul d) const { return phi[((y * W + x) * 4 + n) * D + d]; }

    /* Number of disparities of a pixel. */
    ul levels(ul x) const { return std::min(D, W - x); }
    bool neighbor(ul x, ul y, ul n, ul& nx, ul& ny) const
    {
        nx = x;
        ny = y;
        switch (n)
        {
            case 0: if (x + 1 >= W) return false; nx = x + 1; return true;
            case 1: if (x == 0) return false; nx = x - 1; return true;
            case 2: if (y + 1 >= H) return false; ny = y + 1; return true;
            default: if (y == 0) return false; ny = y - 1; return true;
        }
    }
    static ul opposite(ul n) { return n ^ 1ul; }
    double node(ul x, ul y, ul d) const
    {
        double difference = static_cast<double>(R[y * W + x]) - static_cast<double>(L[y * W + x + d]);
        double result = c * (difference * difference);
        if (reparametrized)
            for (ul n = 0; n < 4; ++n) result += phi_at(x, y, n, d);
        return result;
    }
    /* Is the pair of disparities allowed for the pixel and its n-th neighbour? */
    static bool allowed(ul n, ul d, ul nd)
    {
        if (n == 0) return d <= nd + 1;
        if (n == 1) return nd <= d + 1;
        return true;
    }
    double edge(ul x, ul y, ul n, ul d, ul nd) const
    {
        double difference = static_cast<double>(d) - static_cast<double>(nd);
        double result = s * (difference * difference);
        if (reparametrized)
        {
            ul nx, ny;
            neighbor(x, y, n, nx, ny);
            result -= phi_at(x, y, n, d);
            result -= phi_at(nx, ny, opposite(n), nd);
        }
        return result;
    }
    double lowest_node(ul x, ul y) const
    {
        double best = std::numeric_limits<double>::infinity();
        for (ul d = 0; d < levels(x); ++d) best = std::min(best, node(x, y, d));
        return best;
    }
    double lowest_edge(ul x, ul y, ul n) const
    {
        ul nx, ny;
        double best = std::numeric_limits<double>::infinity();
        if (!neighbor(x, y, n, nx, ny)) return best;
        for (ul d = 0; d < levels(x); ++d)
            for (ul nd = 0; nd < levels(nx); ++nd)
                if (allowed(n, d, nd)) best = std::min(best, edge(x, y, n, d, nd));
        return best;
    }
    std::set<double> candidates() const
    {
        std::set<double> result;
        for (ul y = 0; y < H; ++y)
            for (ul x = 0; x < W; ++x)
            {
                double low = lowest_node(x, y);
                for (ul d = 0; d < levels(x); ++d) result.insert(node(x, y, d) - low);
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!neighbor(x, y, n, nx, ny)) continue;
                    low = lowest_edge(x, y, n);
                    for (ul d = 0; d < levels(x); ++d)
                        for (ul nd = 0; nd < levels(nx); ++nd)
                            if (allowed(n, d, nd)) result.insert(edge(x, y, n, d, nd) - low);
                }
            }
        return result;
    }
    std::string text() const
    {
        std::string result = str("W=", W, " H=", H, " D=", D, " max=", max_value, " cleanness=", c, " smoothness=", s,
                                 " L=", pbt::list(L), " R=", pbt::list(R));
        if (reparametrized)
        {
            result += " phi(x,y,n,d):";
            for (ul y = 0; y < H; ++y)
                for (ul x = 0; x < W; ++x)
                    for (ul n = 0; n < 4; ++n)
                        for (ul d = 0; d < D; ++d)
                            if (phi_at(x, y, n, d) != 0)
                                result += str(" (", x, ",", y, ",", n, ",", d, ")=", phi_at(x, y, n, d));
        }
        return result;
    }
};

/* Set of available nodes: [y][x][d]. */
struct Nodes
{
    ul W = 0, H = 0, D = 0;
    std::vector<char> on;
    Nodes() = default;
    explicit Nodes(const Problem& p) : W{p.W}, H{p.H}, D{p.D}, on(p.W * p.H * p.D, 0) {}
    char& at(ul x, ul y, ul d) { return on[(y * W + x) * D + d]; }
    char at(ul x, ul y, ul d) const { return on[(y * W + x) * D + d]; }
    ul count(ul x, ul y) const
    {
        ul result = 0;
        for (ul d = 0; d < D; ++d) result += at(x, y, d) != 0;
        return result;
    }
    bool any() const { return std::find(on.begin(), on.end(), 1) != on.end(); }
    bool operator==(const Nodes& other) const { return on == other.on; }
    bool subset_of(const Nodes& other) const
    {
        for (size_t i = 0; i < on.size(); ++i)
            if (on[i] && !other.on[i]) return false;
        return true;
    }
    std::string text() const
    {
        std::string result;
        for (ul y = 0; y < H; ++y)
        {
            for (ul x = 0; x < W; ++x)
            {
                result += x ? " {" : "{";
                for (ul d = 0; d < D; ++d)
                    if (at(x, y, d)) result += str(result.back() == '{' ? "" : ",", d);
                result += "}";
            }
            result += " / ";
        }
        return result;
    }
};

/* Constraint problem: edges are given by the problem, its threshold and cached minima. */
struct Csp
{
    const Problem& p;
    double threshold;
    std::vector<double> low_node, low_edge;
    Csp(const Problem& p, double threshold) : p{p}, threshold{threshold}, low_node(p.pixels()), low_edge(p.pixels() * 4)
    {
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
            {
                low_node[y * p.W + x] = p.lowest_node(x, y);
                for (ul n = 0; n < 4; ++n) low_edge[(y * p.W + x) * 4 + n] = p.lowest_edge(x, y, n);
            }
    }
    Nodes initial() const
    {
        Nodes nodes(p);
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                for (ul d = 0; d < p.levels(x); ++d)
                    nodes.at(x, y, d) = p.node(x, y, d) - low_node[y * p.W + x] <= threshold;
        return nodes;
    }
    /* Is the existing pair within the threshold (irrespective of availability of nodes)? */
    bool edge_fits(ul x, ul y, ul n, ul d, ul nd) const
    {
        return p.allowed(n, d, nd) && p.edge(x, y, n, d, nd) - low_edge[(y * p.W + x) * 4 + n] <= threshold;
    }
    bool supported(const Nodes& nodes, ul x, ul y, ul d, ul n) const
    {
        ul nx, ny;
        if (!p.neighbor(x, y, n, nx, ny)) return true;
        for (ul nd = 0; nd < p.levels(nx); ++nd)
            if (nodes.at(nx, ny, nd) && edge_fits(x, y, n, d, nd)) return true;
        return false;
    }
    bool supported(const Nodes& nodes, ul x, ul y, ul d) const
    {
        for (ul n = 0; n < 4; ++n)
            if (!supported(nodes, x, y, d, n)) return false;
        return true;
    }
    /* The greatest arc-consistent subset. */
    Nodes closure(Nodes nodes) const
    {
        bool changed = true;
        while (changed)
        {
            changed = false;
            for (ul y = 0; y < p.H; ++y)
                for (ul x = 0; x < p.W; ++x)
                    for (ul d = 0; d < p.levels(x); ++d)
                        if (nodes.at(x, y, d) && !supported(nodes, x, y, d))
                        {
                            nodes.at(x, y, d) = 0;
                            changed = true;
                        }
        }
        return nodes;
    }
    bool consistent(const std::vector<ul>& labeling) const
    {
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                for (ul n : {0ul, 2ul})
                {
                    ul nx, ny;
                    if (p.neighbor(x, y, n, nx, ny)
                        && !edge_fits(x, y, n, labeling[y * p.W + x], labeling[ny * p.W + nx])) return false;
                }
        return true;
    }
    /* All nodes of all consistent labelings by plain enumeration; nullopt if there are too many labelings. */
    std::optional<Nodes> enumerate(const Nodes& available, double limit) const
    {
        double total = 1;
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
            {
                total *= static_cast<double>(available.count(x, y));
                if (total > limit) return std::nullopt;
            }
        Nodes result(p);
        if (total == 0) return result;
        std::vector<std::vector<ul>> options(p.pixels());
        for (ul i = 0; i < p.pixels(); ++i)
            for (ul d = 0; d < p.D; ++d)
                if (available.at(i % p.W, i / p.W, d)) options[i].push_back(d);
        std::vector<size_t> index(p.pixels(), 0);
        std::vector<ul> labeling(p.pixels());
        while (true)
        {
            for (ul i = 0; i < p.pixels(); ++i) labeling[i] = options[i][index[i]];
            if (consistent(labeling))
                for (ul i = 0; i < p.pixels(); ++i) result.at(i % p.W, i / p.W, labeling[i]) = 1;
            ul i = 0;
            while (i < p.pixels() && ++index[i] == options[i].size()) index[i++] = 0;
            if (i == p.pixels()) return result;
        }
    }
};

/* ---------- Generators ---------- */

struct Options
{
    bool reparametrization = true;
    ul nodes_limit = 4000;      // W * H * D
    ul max_width = 48, max_height = 48, min_height = 1;
    ul longest = 300;           // side of rare long and thin images
    ul most_levels = 0;         // number of levels of rare images with a lot of them
    ul many_levels = 0, many_rarity = 400;      // the greatest number of levels of images with tens of them, one of many_rarity
    ul long_rarity = 0;         // one of so many images has a side which does not fit a byte
    ul huge_rarity = 0;         // one of so many images has a side or a number of pixels which does not fit two bytes
    bool fine = true;           // sometimes very small weights and penalties
    bool large_intensity = true;
    bool float_exact = false;   // numbers exact in single precision
};

inline void generate_size(Case& c, Problem& p, const Options& o)
{
    auto cap = [](ul v, ul m) { return std::max<ul>(1, std::min(v, m)); };
    if (o.most_levels && c.chance(1, 250))
    {
        // Levels do not fit a byte.
        p.W = c.range(257, std::max<ul>(257, o.most_levels));
        p.H = c.range(o.min_height, std::max<ul>(o.min_height, 2));
        p.D = c.chance(1, 2) ? p.W : c.range(250, p.W);
        return;
    }
    if (o.many_levels && c.chance(1, o.many_rarity))
    {
        p.W = c.range(33, std::max<ul>(33, o.many_levels));
        p.H = c.range(o.min_height, std::max<ul>(o.min_height, 2));
        p.D = c.chance(1, 2) ? p.W : c.range(33, p.W);
        return;
    }
    if (o.long_rarity && c.chance(1, o.long_rarity))
    {
        const bool tall = c.chance(1, 2);
        p.W = tall ? c.range(2, 3) : c.range(256, 280);
        p.H = std::max(o.min_height, tall ? c.range(256, 280) : c.range(1, 2));
        p.D = 2;
        return;
    }
    if (o.huge_rarity && c.chance(1, o.huge_rarity))
    {
        switch (c.draw(2))
        {
            case 0: p.W = c.range(65536, 65540); p.H = o.min_height; break;
            case 1: p.W = 2; p.H = c.range(65536, 65540); break;
            default: p.W = c.range(260, 270); p.H = c.range(260, 270); break;
        }
        p.D = 2;
        return;
    }
    if (o.max_width >= 48 && o.max_height >= 48 && c.chance(1, 40))
    {
        // Long and thin images.
        const ul length = c.range(49, std::max<ul>(49, std::min(o.longest, o.nodes_limit / 2)));
        const bool tall = c.chance(1, 2);
        p.W = tall ? c.range(2, 3) : length;
        p.H = tall ? length : c.range(1, 2);
        p.H = std::max(p.H, o.min_height);
        p.D = 2;
        while (p.D < p.W && p.D < 6 && p.W * p.H * (p.D + 1) <= o.nodes_limit && c.chance(2, 3)) ++p.D;
        return;
    }
    switch (c.weighted({8, 8, 3, 3, 3, 1}))
    {
        case 0: p.W = c.range(2, 4); p.H = c.range(1, 3); break;
        case 1: p.W = c.range(2, 7); p.H = c.range(1, 6); break;
        case 2: p.W = c.range(2, cap(24, o.max_width)); p.H = c.range(1, 2); break;
        case 3: p.W = c.range(2, 3); p.H = c.range(1, cap(24, o.max_height)); break;
        case 4: p.W = c.range(2, cap(12, o.max_width)); p.H = c.range(1, cap(12, o.max_height)); break;
        default: p.W = c.range(2, o.max_width); p.H = c.range(1, o.max_height); break;
    }
    p.H = std::max(p.H, o.min_height);
    p.D = c.chance(1, 3) ? p.W : c.range(2, p.W);
    while (p.W * p.H * p.D > o.nodes_limit)
    {
        if (p.D > 2 && p.D * 2 > p.W) p.D = (p.D + 2) / 2;
        else if (p.H > o.min_height) p.H = std::max(o.min_height, (p.H + 1) / 2);
        else if (p.D > 2) p.D = (p.D + 2) / 2;
        else { p.W = std::max<ul>(2, p.W / 2); }
        p.D = std::min(p.D, p.W);
    }
}

/* Many numbers of one choice. */
struct Sequence
{
    ul state;
    ul operator()(ul most)
    {
        state += 0x9e3779b97f4a7c15ul;
        ul z = state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebul;
        return (z ^ (z >> 31)) % (most + 1);
    }
};
constexpr ul HUGE_PIXELS = 4000;

inline void generate_images(Case& c, Problem& p, const Options& o)
{
    static const std::vector<ul> small{1, 2, 3, 4, 7, 10, 16, 100, 255, 256};
    static const std::vector<ul> large{1, 2, 3, 4, 7, 10, 16, 100, 255, 256, 257, 1000, 32767, 32768, 46341, 65535, 65536};
    p.max_value = c.pick(o.large_intensity ? large : small);
    if (o.large_intensity && c.chance(1, 20)) p.max_value = c.pick(std::vector<ul>{65537, 1000000, 4294967295ul, 5000000});
    if (o.float_exact) p.max_value = std::min<ul>(p.max_value, 255);
    // Squared differences stay about 2^32 and weights are small then, to keep the arithmetic (even sums over the image) exact.
    const ul limit = std::min<ul>(p.max_value, 70000);
    ul top = c.chance(1, 4) ? limit : std::min<ul>(limit, c.range(1, 4));
    p.L.assign(p.pixels(), 0);
    p.R.assign(p.pixels(), 0);
    if (p.pixels() > HUGE_PIXELS)
    {
        Sequence next{c.draw(1000)};
        const ul few = std::min<ul>(top, 3), rarity = c.pick(std::vector<ul>{1, 10, 1000, 30000});
        for (auto* image : {&p.L, &p.R})
            for (auto& v : *image) v = next(rarity) == 0 ? next(few) : 0;
        c.label("huge image");
        return;
    }
    auto value = [&] { return c.chance(1, 12) ? limit : c.draw(top); };
    switch (c.weighted({4, 2, 2, 1}))
    {
        case 0: // unrelated images
            for (auto& v : p.L) v = value();
            for (auto& v : p.R) v = value();
            break;
        case 1: // the right image is the left one shifted by disparities, with some noise
        {
            for (auto& v : p.L) v = value();
            ul shift = c.draw(p.D - 1);
            for (ul y = 0; y < p.H; ++y)
            {
                if (c.chance(1, 3)) shift = c.draw(p.D - 1);
                for (ul x = 0; x < p.W; ++x)
                {
                    p.R[y * p.W + x] = p.L[y * p.W + std::min(x + shift, p.W - 1)];
                    if (c.chance(1, 8)) p.R[y * p.W + x] = value();
                }
            }
            break;
        }
        case 2: // columns with sharp steps, repeated for rows with single changes
        {
            for (ul x = 0; x < p.W; ++x)
            {
                p.L[x] = value();
                p.R[x] = value();
            }
            for (ul i = p.W; i < p.pixels(); ++i)
            {
                p.L[i] = c.chance(1, 10) ? value() : p.L[i - p.W];
                p.R[i] = c.chance(1, 10) ? value() : p.R[i - p.W];
            }
            break;
        }
        default: // constant with rare spots
        {
            ul base = value();
            for (auto* image : {&p.L, &p.R})
                for (auto& v : *image) v = c.chance(1, 6) ? value() : base;
        }
    }
}

inline void generate_weights(Case& c, Problem& p, const Options& o)
{
    do
    {
        switch (p.max_value > 1000 ? 0 : c.weighted({4, 3, 1}))
        {
            case 0: p.c = c.draw(6); p.s = c.draw(6); break;
            case 1: p.c = c.draw(40) / 4.0; p.s = c.draw(40) / 4.0; break;
            default: p.c = c.draw(o.float_exact ? 200 : 4096) / 16.0; p.s = c.draw(o.float_exact ? 200 : 4096) / 16.0;
        }
        if (p.c == 0 && p.s == 0) p.c = 1;
    } while (p.c == 0 && p.s == 0);
}

inline void generate_phi(Case& c, Problem& p)
{
    p.phi.assign(p.pixels() * 4 * p.D, 0.0);
    ul density = c.pick(std::vector<ul>{1, 3, 10});
    ul amplitude = c.pick(std::vector<ul>{4, 16, 200, 4000});
    if (p.pixels() > HUGE_PIXELS)
    {
        Sequence next{c.draw(1000)};
        p.reparametrized = true;
        for (ul y = 0; y < p.H; ++y)
            for (ul x = 0; x < p.W; ++x)
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!p.neighbor(x, y, n, nx, ny)) continue;
                    for (ul d = 0; d < p.levels(x); ++d)
                        if (next(9) < density) p.phi_at(x, y, n, d) = p.scale * (static_cast<double>(next(4)) - 2) / 4.0;
                }
        return;
    }
    for (ul y = 0; y < p.H; ++y)
        for (ul x = 0; x < p.W; ++x)
            for (ul n = 0; n < 4; ++n)
            {
                ul nx, ny;
                if (!p.neighbor(x, y, n, nx, ny)) continue;
                for (ul d = 0; d < p.levels(x); ++d)
                    if (c.chance(density, 10)) p.phi_at(x, y, n, d) = p.scale * c.signed_range(amplitude) / 4.0;
            }
    p.reparametrized = true;
}

inline Problem generate(Case& c, const Options& o = {}, const Problem* size = nullptr)
{
    Problem p;
    if (size) p = *size;
    else generate_size(c, p, o);
    generate_images(c, p, o);
    generate_weights(c, p, o);
    if (o.fine && c.chance(1, 7))
    {
        // Penalties which differ by very small numbers.
        p.scale = c.pick(std::vector<double>{0x1p-10, 0x1p-22, 0x1p-31, 0x1p-40});
        p.c *= p.scale;
        p.s *= p.scale;
        c.label("very small penalties");
    }
    const bool reparametrize = o.reparametrization && c.chance(2, 5);
    if (reparametrize) generate_phi(c, p);
    else if (o.fine && p.scale == 1 && p.max_value <= 1000 && c.chance(1, 10))
    {
        (c.chance(1, 2) ? p.c : p.s) *= c.pick(std::vector<double>{0x1p-8, 0x1p-16});
        c.label("weights of different magnitude");
    }
    c.label(p.reparametrized ? "with reparametrization" : "without reparametrization");
    c.label_if(p.H == 1, "one row");
    c.label_if(p.W > 12 || p.H > 12, "long side > 12");
    c.label_if(p.D > 32, "more than 32 levels");
    c.label_if(p.W > 255 || p.H > 255, "long side > 255");
    c.label_if(p.max_value > 256, "max value > 256");
    return p;
}

/* A threshold: one of achievable differences, or something around them. */
inline double generate_threshold(Case& c, const Problem& p, const Options& o)
{
    auto set = p.candidates();
    std::vector<double> all(set.begin(), set.end());
    double base = 0;
    switch (c.weighted({5, 5, 1}))
    {
        case 0: base = all[c.draw(std::min<ul>(all.size(), 6) - 1)]; break;
        case 1: base = all[c.draw(all.size() - 1)]; break;
        default: base = all.back(); break;
    }
    std::vector<double> offsets{0, 0, 0, 0.125, -0.125};
    if (o.fine && !o.float_exact && p.max_value <= 1000) offsets.insert(offsets.end(), {0x1p-20, -0x1p-20});
    return base + p.scale * c.pick(offsets);
}

/* The least candidate which leaves something. */
inline size_t minimal_candidate(const Problem& p, const std::vector<double>& all)
{
    size_t low = 0, high = all.size() - 1;
    while (low < high)
    {
        size_t middle = (low + high) / 2;
        Csp m{p, all[middle]};
        if (m.closure(m.initial()).any()) high = middle;
        else low = middle + 1;
    }
    return low;
}
/* A threshold around the least one which leaves something. */
inline double generate_critical_threshold(Case& c, const Problem& p)
{
    auto set = p.candidates();
    std::vector<double> all(set.begin(), set.end());
    size_t low = minimal_candidate(p, all);
    if (c.chance(1, 2)) low = std::min<size_t>(low + c.draw(3), all.size() - 1);
    else if (low > 0 && c.chance(1, 4)) --low;
    return all[low];
}

}
