#include "repo.hpp"
using namespace bridge;
using namespace sp::graph::lowest_penalties;
namespace pbt {
const char* const PROPERTY_ID = "C09";
const char* const PROPERTY_RULE =
    "valid problems, mostly with reparametrization; minima of all pixels and neighbours are compared with plain enumeration, then the problem "
    "is changed and the stored minima are read again; non-trivial: the minimum of some horizontal pair is reached by other than (0, 0) and "
    "differs from the minimum over the pairs the constraint forbids";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 500;
    o.long_rarity = 300;
    o.huge_rarity = 8000;
    o.many_levels = 150;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    if (!p->reparametrized && c.chance(1, 2)) model::generate_phi(c, *p);
    c.describe([p] { return p->text(); });
    DisparityGraph g = graph(*p);
    LowestPenalties lowest{&g};
    bool interesting = false;
    // Some pixels are enough when each of them has a lot of edges.
    const ul some = p->D > 32 ? c.draw(p->W - 1) : p->W;
    auto compare = [&](const char* when, bool calculated) {
        for (ul y = 0; y < p->H; ++y)
            for (ul x = 0; x < p->W; ++x)
            {
                if (some < p->W && x > 1 && x + 2 < p->W && x != some) continue;
                double expected = p->lowest_node(x, y);
                if (calculated) REQUIRE(calculate_lowest_pixel_penalty(&g, {x, y}) == expected, when, " x=", x, " y=", y, " expected ", expected);
                REQUIRE(lowest_pixel_penalty(&lowest, {x, y}) == expected, when, " x=", x, " y=", y, " expected ", expected, " stored ", lowest_pixel_penalty(&lowest, {x, y}));
                for (ul n = 0; n < 4; ++n)
                {
                    ul nx, ny;
                    if (!p->neighbor(x, y, n, nx, ny)) continue;
                    double low = p->lowest_edge(x, y, n);
                    if (calculated)
                    {
                        double fast = calculate_lowest_neighborhood_penalty_fast(&g, Edge{node(x, y, 0), node(nx, ny, 0)});
                        REQUIRE(fast == low, when, " x=", x, " y=", y, " n=", n, " expected ", low, " got ", fast);
                        REQUIRE(calculate_lowest_neighborhood_penalty(&g, {x, y}, {nx, ny}) == low, when, " x=", x, " y=", y, " n=", n, " expected ", low);
                        REQUIRE(calculate_lowest_neighborhood_penalty_slow(&g, {x, y}, n) == low, when, " x=", x, " y=", y, " n=", n, " expected ", low);
                        if (n < 2)
                        {
                            double banned = std::numeric_limits<double>::infinity();
                            for (ul d = 0; d < p->levels(x); ++d)
                                for (ul nd = 0; nd < p->levels(nx); ++nd)
                                    if (!p->allowed(n, d, nd)) banned = std::min(banned, p->edge(x, y, n, d, nd));
                            interesting = interesting || (banned < low && p->edge(x, y, n, 0, 0) != low);
                        }
                    }
                    double stored = lowest_neighborhood_penalty_fast(&lowest, {x, y}, {nx, ny});
                    REQUIRE(stored == low, when, " x=", x, " y=", y, " n=", n, " expected ", low, " stored ", stored);
                    ul d = c.draw(p->levels(x) - 1), nd = c.draw(p->levels(nx) - 1);
                    REQUIRE(lowest_neighborhood_penalty(&lowest, Edge{node(x, y, d), node(nx, ny, nd)}) == low, when, " x=", x, " y=", y, " n=", n, " d=", d, " nd=", nd, " expected ", low);
                    REQUIRE(lowest_neighborhood_penalty_fast(&lowest, {nx, ny}, {x, y}) == low, when, " reverse of x=", x, " y=", y, " n=", n, " expected ", low);
                }
            }
    };
    compare("fresh", true);
    c.nontrivial(interesting);
    c.label_if(interesting, "forbidden pair is cheaper");
    for (auto& v : g.reparametrization) v += 1.25;
    g.smoothness += 3;
    g.cleanness += 1;
    compare("after a change of the problem", false);
}
}
