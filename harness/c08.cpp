#include "repo.hpp"
using namespace bridge;
namespace pbt {
const char* const PROPERTY_ID = "C08";
const char* const PROPERTY_RULE =
    "valid problems with dyadic weights and reparametrization; penalties of all existing nodes and edges are compared with the model and "
    "the energy of random labelings is compared with and without reparametrization; non-trivial: reparametrization is not zero and at least two rows";
void property(Case& c)
{
    model::Options o;
    o.nodes_limit = 600;
    o.long_rarity = 300;
    o.huge_rarity = 10000;
    o.many_levels = 150;
    auto p = std::make_shared<Problem>(model::generate(c, o));
    c.describe([p] { return p->text(); });
    c.nontrivial(p->reparametrized && p->H >= 2 && std::any_of(p->phi.begin(), p->phi.end(), [](double v) { return v != 0; }));
    DisparityGraph g = graph(*p);
    // Some pixels are enough when each of them has a lot of edges.
    const ul some = p->D > 32 ? c.draw(p->W - 1) : p->W;
    for (ul y = 0; y < p->H; ++y)
        for (ul x = 0; x < p->W; ++x)
        {
            if (some < p->W && x > 1 && x + 2 < p->W && x != some) continue;
            for (ul d = 0; d < p->levels(x); ++d)
            {
                double actual = node_penalty(&g, node(x, y, d));
                REQUIRE(actual == p->node(x, y, d), "node x=", x, " y=", y, " d=", d, ": ", actual, " instead of ", p->node(x, y, d));
            }
            for (ul n = 0; n < 4; ++n)
            {
                ul nx, ny;
                if (!p->neighbor(x, y, n, nx, ny)) continue;
                for (ul d = 0; d < p->levels(x); ++d)
                    for (ul nd = 0; nd < p->levels(nx); ++nd)
                    {
                        double actual = edge_penalty(&g, Edge{node(x, y, d), node(nx, ny, nd)});
                        REQUIRE(actual == p->edge(x, y, n, d, nd), "edge x=", x, " y=", y, " d=", d, " n=", n, " nd=", nd, ": ", actual, " instead of ", p->edge(x, y, n, d, nd));
                        double reverse = edge_penalty(&g, Edge{node(nx, ny, nd), node(x, y, d)});
                        REQUIRE(actual == reverse, "edge x=", x, " y=", y, " d=", d, " n=", n, " nd=", nd, " is not symmetric: ", actual, " and ", reverse);
                    }
            }
        }
    Problem plain = *p;
    plain.reparametrized = false;
    DisparityGraph base = graph(plain);
    for (int k = 0; k < 4; ++k)
    {
        std::vector<ul> labeling(p->pixels());
        for (ul i = 0; i < p->pixels(); ++i) labeling[i] = c.draw(p->levels(i % p->W) - 1);
        auto energy = [&](const DisparityGraph& graph) {
            double total = 0;
            for (ul y = 0; y < p->H; ++y)
                for (ul x = 0; x < p->W; ++x)
                {
                    ul d = labeling[y * p->W + x];
                    total += node_penalty(&graph, node(x, y, d));
                    for (ul n : {0ul, 2ul})
                    {
                        ul nx, ny;
                        if (p->neighbor(x, y, n, nx, ny)) total += edge_penalty(&graph, Edge{node(x, y, d), node(nx, ny, labeling[ny * p->W + nx])});
                    }
                }
            return total;
        };
        double with = energy(g), without = energy(base);
        REQUIRE(with == without, "energy of labeling ", list(labeling), " is ", with, " with reparametrization and ", without, " without");
    }
}
}
